#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': False}})
STR, CONV, LIST, DICT = 'Source/Strings/String.h', 'Source/Strings/Conversion.h', 'Source/Collections/List.h', 'Source/Collections/Dictionary.h'

p('U01', 'Every code point survives encoding to any UTF and back',
  'For every 32-bit code point, encoding it to UTF-8, UTF-16, big-endian UTF-16 or a wide character either refuses it or produces code units from which decoding returns exactly that code point and consumes exactly the units written. UTF-8 accepts everything up to 7FFFFFFF except surrogates (1 to 6 bytes, shortest form, proper lead and continuation bytes), UTF-16 accepts everything up to 10FFFF except surrogates (proper surrogate pairs), the big-endian form is the byte-swapped UTF-16 form, and refused code points write nothing a caller may use.',
  ['inputs'], 'all 2^32 code points, all four encodings',
  'the tests encode a handful of literals; a wrong mask or boundary only shows for particular code points among 2^32', ['Source/Strings/Conversion.cpp', CONV],
  [('From32/To32 per encoding', 'Source/Strings/Conversion.cpp')], 'return values and buffers of the scalar conversion functions')
p('U02', 'Decoding arbitrary code units is total, in bounds and well defined',
  'For every sequence of code units and every stated length, decoding one code point never reads a unit at or beyond the stated length, and either reports failure or a code point together with the number of units consumed, which lies between 1 and the stated length. A truncated sequence, an unpaired surrogate in UTF-16 (either half) or UTF-8 bytes that spell a surrogate are reported as failure, and every sequence that is the proper encoding of a code point decodes to it.',
  ['inputs'], 'all unit sequences up to the longest encoding, all lengths from 0 on',
  'tests only decode well-formed text; malformed and truncated input is where reads run past the end', ['Source/Strings/Conversion.cpp', CONV],
  [('To32 per encoding', 'Source/Strings/Conversion.cpp')], 'return value, decoded code point and memory accesses')
p('U03', 'UTF readers and whole-string conversion agree and keep positions',
  'For every text, converting a whole string between any two of UTF-8, UTF-16, UTF-32, big-endian UTF-16 and wide text gives the concatenation of the encodings of its code points with the right length and a terminator, and converting back gives the original. Streaming readers deliver the same units one at a time followed by endless zeros, and after each unit report the index of that unit and the source position and size of the code point it came from; malformed input ends the output early without reading outside the source or writing outside the destination buffer.',
  ['inputs', 'histories'], 'all texts of bounded length over all code points, including malformed unit sequences; every prefix of reads',
  'tests read a few literal texts; misplaced cluster positions and buffer shifts depend on the mix of 1- to 6-unit code points', ['Source/Strings/Conversion.cpp', CONV],
  [('reader templates', CONV), ('_utftoutf and ConvertStringDirect', 'Source/Strings/Conversion.cpp')], 'Read, ReadingIndex, SourceCluster, whole-string conversion results, buffer conversion results')
p('S01', 'String operations return the right characters and never change a string',
  'For every string and argument, construction, concatenation, appending, taking a left, right or middle part, removing, inserting, indexing and searching give exactly the characters the mathematical operation on character sequences gives, also when applied to parts of other strings. The operands and every other string sharing storage with them keep their value, and any out-of-range argument raises an error instead of producing a value.',
  ['inputs', 'histories'], 'all contents, all index and count arguments over the whole integer range, all short operation sequences including substrings of substrings; all five character types',
  'tests use fixed literals and indices; sharing and offset mistakes need particular nesting of parts and boundary arguments', [STR],
  [('SubUnsafe/ReplaceUnsafe and offset bookkeeping', STR)], 'values read back through indexing, Length, Buffer and comparison')
p('S02', 'String comparison is the lexicographic order on characters',
  'Equality and ordering of two strings, or of a string and a zero-terminated text on either side, depend only on their characters and lengths, never on how the strings were made or which storage they share, and coincide with lexicographic comparison of the character values, a proper prefix being smaller. The order is therefore total, antisymmetric and transitive for all character values including those with the top bit set.',
  ['inputs'], 'all pairs of strings of bounded length, all character values of each character type, all ways of sharing storage',
  'tests compare ASCII literals; signedness, prefix and aliasing cases are exponentially many', [STR], [('operator<=> and operator==', STR)], 'results of comparison operators')
p('S03', 'String storage is freed exactly once and stays readable while used',
  'Over every sequence of creating, copying, moving, assigning (also to itself and to a part of itself), slicing, obtaining the zero-terminated buffer and destroying strings, each allocated buffer is released exactly once, when the last string using it goes away, and no freed or foreign memory is read or written. The zero-terminated buffer of a string holds its characters followed by a zero and stays valid until that string changes; strings taking over a caller\'s buffer release it, strings over unmanaged text never do.',
  ['inputs', 'histories'], 'all operation sequences up to the bound over several string variables',
  'leaks and double frees depend on the order of sharing operations; tests sample a few orders and do not look at the heap at all', [STR],
  [('reference counter Inc/Dec, Buffer() re-allocation', STR)], 'heap state (live blocks, accesses) and characters read')
p('S04', 'Case conversion changes exactly the letters and nothing else',
  'For every text, converting to lower or upper case returns a new string of the same length in which every character is the lower/upper form of the source character and characters without case forms, in particular characters outside the basic Latin range, are unchanged. The source string keeps its value.',
  ['inputs'], 'all character values, bounded length, narrow and wide', 'tests convert ASCII words only', ['Source/Strings/String.cpp'], [('_strlwr_s/_wcslwr_s and friends', 'Source/Strings/String.cpp')], 'alower, aupper, wlower, wupper results')
p('N01', 'Integers survive conversion to text and back',
  'For every signed or unsigned 32- and 64-bit integer, the narrow and wide textual conversions produce its canonical decimal form (no sign for unsigned, no leading zeros), and parsing that text returns the same integer and reports success. Narrow and wide forms agree character by character.',
  ['inputs'], 'all 2^64 values for each of the signed and unsigned conversions', 'tests convert a few values; extremes and digit-count boundaries decide', ['Source/Strings/String.cpp'], [('itoa/i64toa/utoa/u64toa families', 'Source/Strings/String.cpp')], 'results of the conversion functions')
p('N02', 'Parsing an integer succeeds exactly on canonical in-range text',
  'For every text, the testing parsers report success if and only if the text is exactly the canonical decimal form of an integer within the range of the target (32-bit range for the native integer parsers, 64-bit for the 64-bit parsers), and then return that integer. The non-testing parsers return that integer on success and 0 otherwise.',
  ['inputs'], 'all texts of bounded length over all characters, narrow and wide', 'tests try a list of good and bad strings', ['Source/Strings/String.cpp'], [('*_test parsers', 'Source/Strings/String.cpp')], 'success flag and returned value')
p('L01', 'List behaves as a mathematical sequence',
  'For every history of adding, inserting, setting, removing (one, a range, by value, all) and clearing, a list\'s count, elements, membership and first index of a value equal those of the mathematical sequence after the same operations, whatever capacity changes happen underneath. Every index or range argument outside the sequence raises an error and leaves the list as it was.',
  ['inputs', 'histories'], 'all operation sequences up to the bound with arbitrary element values and arbitrary (also out-of-range) arguments, starting from lists of any size up to the bound, across growth and shrink points',
  'tests fix the sequences; block moves on growth and shrink depend on count, capacity and index together', [LIST], [('InsertUninitializedItems/ReleaseUnnecessaryBuffer and element moves', LIST)], 'Count, Get, Contains, IndexOf, enumeration, raised errors')
p('L02', 'Container elements are constructed and destroyed exactly once',
  'For every history of operations on lists, arrays, sorted lists and dictionaries of objects with constructors, every element object is constructed exactly once before use, destroyed exactly once, and never used while not alive; after the container is destroyed no element and no storage remains. Elements removed or overwritten are destroyed no later than the removal needs them to be, and elements moved by growth or shrink keep their value.',
  ['inputs', 'histories'], 'all operation sequences up to the bound with arbitrary positions', 'tests use plain integers; lifetime errors on growth, shrink or removal leave values intact', [LIST, DICT], [('ListStore placement construction and destruction', LIST)], 'per-object life-cycle counters and the heap')
p('L03', 'Array keeps its contents under resizing and rejects bad indices',
  'For every array, resizing to any size keeps the common prefix of elements, element access and assignment address exactly the given position, and the size is exactly what was asked for. Construction from a buffer copies it, searching finds the first equal element, and any out-of-range index raises an error without changing the array.',
  ['inputs', 'histories'], 'all sizes up to the bound, all contents, all indices', 'tests resize a couple of arrays', [LIST], [('Array::Create/Resize', LIST)], 'Count, Get, Set, IndexOf, Resize')
p('L04', 'SortedList is an ordered multiset',
  'For every history of additions and removals, a sorted list holds exactly the multiset of values added and not removed, in non-decreasing order; the position reported by an addition is where the value is. Search reports a position holding an equal value if and only if one exists, for every probe value; removal removes exactly one equal value and reports whether there was one, and a copy holds the same values while the original keeps its own.',
  ['inputs', 'histories'], 'all histories up to the bound over all values, with duplicates', 'binary search errors need particular sizes, values and duplicates', [LIST], [('IndexOfInternal, SortedList::Add', LIST)], 'Count, Get, IndexOf, Contains, Add/Remove results')
p('L05', 'Dictionary is a map with ordered keys',
  'For every history of adding, setting, removing and clearing, a dictionary equals the mathematical map after the same operations: keys strictly ascending, each key paired with its own latest value. Adding an existing key or reading a missing one raises an error and changes nothing, setting adds or overwrites, and removal affects only the given key.',
  ['inputs', 'histories'], 'all histories up to the bound over all keys and values', 'keys and values are kept in two parallel arrays; they fall out of step only for particular orders', [DICT], [('Dictionary keys/values parallel arrays', DICT)], 'Keys, Values, Get, Count, enumeration, raised errors')
p('L06', 'Group is a map from keys to non-empty value sequences',
  'For every history of adding and removing values and keys, a group equals the mathematical map from keys to the sequence of their values in order of addition: keys strictly ascending, no key without values, lookup by key or position giving exactly that key\'s values. Removing the last value removes the key, removing an absent key or value reports false and changes nothing, and reading a missing key raises an error.',
  ['inputs', 'histories'], 'all histories up to the bound over all keys and values', 'tests use fixed sequences; pairs of key array and value-list array get out of step only in particular orders', [DICT], [('Group keys/values parallel arrays', DICT)], 'Keys, GetByIndex, Get, Contains, Count, enumeration')
p('L07', 'Enumerators visit every element once, in order, and can restart or split',
  'For every container, an enumerator visits exactly its elements in order, reporting the running index, and then stays finished; resetting it starts over from the beginning. A copy taken at any moment continues from the same position with the same current element, independently of the original.',
  ['inputs', 'histories'], 'all containers up to the bound, all interleavings of advancing, resetting and copying up to the bound', 'tests only enumerate front to back', [LIST, DICT, 'Source/Collections/Interfaces.h'], [('Enumerator classes', LIST), ('Dictionary/Group enumerators', DICT)], 'Next, Current, Index, Evaluated, Reset, Clone')
p('L08', 'Copying between containers reproduces the source',
  'Copying any other container or sequence into a list, array, sorted list, dictionary or group makes the target hold exactly the source elements (in order where the target is ordered by position), or, in append mode, its previous elements followed by the source elements; in a dictionary a later value for a key wins. The source is unchanged, whatever kinds of container are involved, and a part of a buffer is copied exactly.',
  ['inputs', 'configurations'], 'all source/target kinds, all sizes up to the bound on both sides, all contents', 'each pair of container kinds takes its own algorithm; tests sample', ['Source/Collections/OperationCopyFrom.h'], [('copyfrom_internal algorithms', 'Source/Collections/OperationCopyFrom.h')], 'target contents')
p('L09', 'Sorting yields an ordered permutation for every input and ordering',
  'For every array and every ordering that is consistent, in-place sorting terminates and leaves a permutation of the original elements in which no element is followed by a smaller one, and touches nothing outside the given range. Sequence ordering gives the same for sequences and leaves the source unchanged.',
  ['inputs'], 'all arrays up to the bound over all values incl. duplicates; total orders and weak orders with ties', 'partitioning errors depend on pivots, duplicates and sizes', ['Source/Collections/Operation.h', 'Source/Collections/OperationSequence.h', 'Source/Collections/List.h'], [('Sort/SortLambda quick sort', 'Source/Collections')], 'array after sorting, memory accesses')
p('Q01', 'Lazy sequence operators compute their mathematical meaning',
  'For every input sequence and argument, the lazy operators (map, filter, take, skip, repeat, reverse, concatenation, distinct, intersection, union, difference, pairing, casts, insertion at the ends) enumerate exactly the sequence their definition gives, every time they are enumerated. Each result can be restarted or copied mid-way like any enumerator and reports the running index, and the sources are not changed.',
  ['inputs'], 'all source sequences up to the bound, all counts (also negative or too large, except the smallest integer), arbitrary predicates as tables', 'compositions, boundary counts and duplicates are combinatorial', ['Source/Collections/Operation.h', 'Source/Collections/OperationSequence.h', 'Source/Collections/OperationSet.h', 'Source/Collections/OperationWhere.h', 'Source/Collections/OperationSelect.h', 'Source/Collections/OperationPair.h', 'Source/Collections/OperationConcat.h'], [('LazyList', 'Source/Collections/Operation.h')], 'enumerated results')
p('Q02', 'Aggregates, grouping, ordering and flattening are exact',
  'For every sequence, folding, minimum, maximum, first, last, count, emptiness, membership and any/all tests equal their definitions (raising an error exactly when there is no element to return), grouping partitions the elements by key in order of first appearance with order kept inside each group, flattening concatenates, and ordering yields a sorted permutation. Materialising a lazy sequence does not change what it enumerates and computes nothing any more when enumerated.',
  ['inputs'], 'all sequences up to the bound over all values and key functions as tables', 'boundary (empty, single, ties) and value combinations', ['Source/Collections/Operation.h'], [('LazyList members', 'Source/Collections/Operation.h')], 'returned values')
p('Q03', 'Sequence comparison is lexicographic and total',
  'For every pair of sequences, comparing them gives the lexicographic order of their elements under the element order, a proper prefix being smaller, and equal exactly when they have the same elements in the same order. The result does not depend on the kind of container.',
  ['inputs'], 'all pairs up to the bound over all element values', 'tests compare a few pairs', ['Source/Collections/OperationEnumerable.h', 'Source/Collections/Operation.h'], [('CompareEnumerable', 'Source/Collections/OperationForEach.h')], 'comparison result')
p('Q04', 'Joining two groups pairs exactly the matching keys',
  'For every two groups, the join walks both key sequences in ascending order and reports every key present in both exactly once with each side\'s own values, every key only in the first and every key only in the second exactly once as discarded, and nothing else. Neither group is changed.',
  ['inputs'], 'all pairs of groups up to the bound over all keys and values', 'merge loops go wrong for particular interleavings of keys', [DICT, 'Source/Collections/Operation.h'], [('GroupInnerJoin', DICT)], 'visited keys and values')
p('O01', 'Partial ordering layers the dependency graph correctly',
  'For every dependency relation, sorting partitions all nodes into components such that two nodes share a component exactly when they depend on each other (directly or indirectly), every component comes after the components it depends on, and the firstNode/nodeCount ranges tile the node list. The recorded incoming and outgoing neighbours of each node are exactly those of the relation, and cycles of any shape terminate.',
  ['inputs'], 'all directed graphs up to the bound on nodes', 'strongly connected component algorithms fail on particular graph shapes; there are 2^(n*n) graphs', ['Source/Collections/PartialOrdering.h', 'Source/Collections/PartialOrdering.cpp'], [('PartialOrderingProcessor::Sort', 'Source/Collections/PartialOrdering.cpp')], 'components, nodes, ins/outs')
p('O02', 'Partial ordering with merged items respects the merging',
  'For every dependency relation and every assignment of items to sub classes, items of the same sub class form one node, dependencies between sub classes are those induced by their items, and components are ordered accordingly. Items without a sub class are nodes of their own.',
  ['inputs'], 'all relations and assignments up to the bound', 'tests have one example', ['Source/Collections/PartialOrdering.h'], [('InitWithSubClass', 'Source/Collections/PartialOrdering.h')], 'components, nodes and sub class items')
p('M01', 'Shared pointers destroy their object exactly once, at the last release',
  'For every history of creating, copying, moving, assigning, casting up and down the class hierarchy, attaching, detaching and clearing shared pointers, the object stays alive while any shared pointer owns it and is destroyed exactly once when the last one lets go. Conversions keep identity and yield empty pointers exactly when the object is not of the requested type, and comparisons follow the object address.',
  ['histories'], 'all histories up to the bound over several pointers and objects', 'reference counting errors need particular orders of copies and moves', ['Source/Primitives/Pointer.h'], [('Ptr counter', 'Source/Primitives/Pointer.h')], 'destructor counts, heap, pointer values')
p('M02', 'Reference counting is safe under concurrent use of shared objects',
  'When several threads concurrently copy, move, slice and release their own shared pointers or strings that share one object, then under every interleaving the object or buffer is released exactly once, by whoever is last, after every use. No thread ever touches released storage and no counter update is lost.',
  ['schedules'], 'all interleavings of the atomic steps of two or three threads doing bounded work', 'a lost update needs one interleaving among very many', ['Source/Primitives/Pointer.h', STR, 'Source/Basic.h'], [('INCRC/DECRC', 'Source/Basic.h')], 'destructor count, heap accesses, happens-before of plain accesses')
p('M03', 'COM pointers release the reference they take over exactly once',
  'A COM pointer made from a raw pointer takes over one reference; over every history of copying, moving, assigning and destroying COM pointers, that reference is kept while any COM pointer sharing it exists and is given back through Release exactly once, when the last one lets go, and never otherwise. Comparisons follow the object address.',
  ['histories'], 'all histories up to the bound over several pointers and objects', 'an unbalanced path needs a particular assignment', ['Source/Primitives/Pointer.h'], [('ComPtr', 'Source/Primitives/Pointer.h')], 'Release counts and pointer values')
p('F01', 'Function objects call their target with exactly the arguments given',
  'For every kind of target (plain function, method bound to an object, functor or lambda, another function object) and all arguments, calling a function object calls the target once with those arguments, by reference where declared, and returns its result; copies behave the same and share the target\'s state. A function object is empty exactly when it has no target, two compare equal exactly when one was copied from the other (or both are empty), and captured state is released exactly once, when the last copy goes away.',
  ['inputs', 'histories'], 'all argument values; all copy/assign/destroy histories up to the bound', 'argument forwarding and ownership errors show only through particular categories or orders', ['Source/Primitives/Function.h'], [('Func invokers', 'Source/Primitives/Function.h')], 'observed calls, results, life cycle of captures')
p('F02', 'Events call exactly the attached handlers with the given arguments',
  'For every history of attaching, detaching and firing, an event calls each handler that is attached throughout a firing exactly once with the arguments given (every handler seeing the same values), and never a detached one, also when handlers attach, detach or fire during the firing. Detaching succeeds exactly once per attachment, only on the event the handler is attached to, and a handler tells whether it is attached.',
  ['histories'], 'all histories up to the bound over several handlers', 'handler lists go wrong for particular detach orders', ['Source/Primitives/Event.h'], [('Event handler list', 'Source/Primitives/Event.h')], 'sequence of handler calls, returned flags')
p('V01', 'Nullable holds a value exactly when one was given',
  'For every history of assignments, a nullable is empty or holds exactly the last value assigned, reading an empty one raises an error, and equality and ordering treat empty as equal to empty and smaller than any value. The held value is constructed and destroyed exactly once.',
  ['inputs', 'histories'], 'all values and histories up to the bound', 'tests have few sequences and plain values', ['Source/Primitives/Nullable.h'], [('Nullable storage', 'Source/Primitives/Nullable.h')], 'value, comparison results, life cycle')
p('V02', 'Variant holds exactly one alternative, the last one assigned',
  'For every history of construction, copy, move and assignment, a variant holds exactly the last value under the right alternative: the index, type queries, access and visiting agree, asking for another alternative yields nothing or raises an error, and visiting calls exactly the matching case once (a partial visitor reports whether it had one). Each held value is stored properly aligned and constructed and destroyed exactly once.',
  ['inputs', 'histories'], 'all alternatives and values, all histories up to the bound', 'alternative switching has quadratically many transitions', ['Source/Primitives/Variant.h'], [('Variant storage and index', 'Source/Primitives/Variant.h')], 'Index, Get, TryGet, Apply, life cycle')
p('V03', 'Tuples and pairs keep their components and compare lexicographically',
  'For all component values, tuples and pairs store every component independently (also through conversion, copy, move and assignment of one component), and equality and ordering are lexicographic over the components, including through swapped key/value comparison forms.',
  ['inputs'], 'all component values, arities 0 to 4', 'comparison chains go wrong only when leading components tie', ['Source/Primitives/Tuple.h', 'Source/Collections/Pair.h'], [('Tuple/Pair comparison', 'Source/Primitives/Tuple.h')], 'components and comparison results')
p('B01', 'Byte object map and push-only allocator keep every entry',
  'For every history of setting and looking up entries, the byte-keyed object map returns for each key exactly the last object set, and nothing for keys never set. The push-only allocator hands out distinct, stable, default-constructed objects that keep their address and value while more are created, addressable by index, and releases all of them once.',
  ['inputs', 'histories'], 'all keys and histories up to the bound, across block boundaries', 'trie and block boundaries need particular key bytes and counts', ['Source/Collections/List.h', 'Source/Collections'], [('PushOnlyAllocator, ByteObjectMap', LIST)], 'lookup results, addresses, heap')
p('G01', 'Global storages initialise on demand and clear completely',
  'A global storage is initialised on its first use, and again on the first use after it was finalised, never twice in a row, and is available until finalised. Finalising all storages finalises every registered initialised storage exactly once, releases what it holds, and leaves nothing initialised.',
  ['histories'], 'all orders of registration, use and finalisation up to the bound', 'order dependence between registration, use and finalisation', ['Source/GlobalStorage.h', 'Source/GlobalStorage.cpp'], [('GlobalStorageManager', 'Source/GlobalStorage.cpp')], 'IsInitialized, calls of the initialiser and finaliser, released memory')
p('D01', 'Date and time conversions are exact and consistent',
  'For every valid calendar date and time, the fields, the serial number of milliseconds and the calendar agree (day of week, leap years), converting fields to serial and back is the identity, moving forward and backward by any number of milliseconds is exact and inverse, and ordering equals chronological order. Converting to another time zone and back returns the same instant.',
  ['inputs'], 'all dates and times in the supported range, all offsets', 'calendar arithmetic has boundaries (leap years, centuries, month ends) among billions of values', ['Source/Primitives/DateTime.h', 'Source/Primitives/DateTime.cpp', 'Source/Primitives/DateTime.Linux.cpp'], [('DateTime::FromDateTime/FromOSInternal/Forward', 'Source/Primitives/DateTime.cpp')], 'DateTime fields')
p('X01', 'Lorem ipsum text has the requested size and shape',
  'For every requested size range and every outcome of the random source, generated words, titles, sentences and paragraphs are well formed (words separated by single spaces, the requested casing, sentences and paragraphs ending with a period) and have a length within a few words of the request. No memory outside the text is touched and generation terminates.',
  ['inputs'], 'all requested sizes up to the bound and all outcomes of the random generator', 'output depends on the random sequence', ['Source/Strings/LoremIpsum.cpp', 'Source/Strings/LoremIpsum.h'], [('LoremIpsum generators', 'Source/Strings/LoremIpsum.cpp')], 'returned strings')
p('T01', 'The test framework runs every case and reports exactly the failures',
  'For every tree of categories and cases with any mix of passing, failing and error-raising cases, the framework runs every registered case once in order, counts passed and failed cases and files exactly, and reports overall failure if and only if something failed. Cases or categories inside a case and assertions outside a case count as failures, and file options select exactly the files whose path ends with a given name.',
  ['programs'], 'all small trees of categories/cases with arbitrary outcomes', 'the framework\'s own tests cannot fail without failing the run', ['Source/UnitTest/UnitTest.h', 'Source/UnitTest/UnitTest.cpp'], [('UnitTest::RunTest', 'Source/UnitTest/UnitTest.cpp')], 'exit value, counters, executed cases')
p('N03', 'Floating-point numbers survive conversion to text and back',
  'For every value that six decimals show exactly, the textual form is the decimal with six fraction digits, without trailing zeros and without a trailing point, and both the narrow and the wide form parse back successfully to the same value, negative and very large values included. A text is accepted as a number exactly when the whole of it is one (after optional leading white space); otherwise, the empty text included, failure is reported and the plain parsers give 0.',
  ['inputs'], 'all values with up to nine integer and six fraction digits, and all short texts', 'tests convert a few values', ['Source/Strings/String.cpp'], [('ftoa/atof, ftow/wtof', 'Source/Strings/String.cpp')], 'ftoa, ftow, atof, wtof, atof_test, wtof_test results')
p('C01', 'A collection notifies its associated reference exactly once',
  'A reference associated with a collection is returned by it, by type where the type matches and with an error where it does not, and a second association is refused. The reference is notified exactly once, when that collection is destroyed, and is never handed to a copy or to a collection made by moving.',
  ['histories'], 'all histories of associating, copying, moving, filling and destroying up to the bound', 'a default copy or move of the base class would share the reference and notify twice', ['Source/Collections/Interfaces.h', 'Source/Collections/List.h', 'Source/Collections/Dictionary.h', 'Source/Collections/Operation.h'], [('EnumerableBase', 'Source/Collections/Interfaces.h')], 'GetCollectionReference, TryGetCollectionReference, calls of OnDisposed')
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
