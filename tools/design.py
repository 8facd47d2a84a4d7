#!/usr/bin/env python3
"""Regenerates DESIGN.md from this text, the harness headers, properties.jsonl, the evidence of the last runs and seeded/."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
HEAD = r'''# Solver-based checking of Vlpp

One check per property, all built the same way:

1. `run.py <property>` compiles the harness `harness/<property>.cpp` and the sources it names from **/repo's working
   tree** to LLVM IR (clang 18, `-O0` + SROA, x86-64), links them with the models of the C library functions they call
   (`models/`), and hands the module to the symbolic executor `engine/vsym`.
2. The harness calls the **public interface** with symbolic arguments (`vs_u64`, `vs_range`, ...), symbolic choices of
   operations (`vs_choice`), and states the property as assertions against an independent reference (usually a plain
   array that keeps the mathematical sequence, set or map). Nothing private is named, so a refactoring that keeps the
   behaviour keeps the verdict.
3. `vsym` executes the IR. Every branch on symbolic data, every memory access (bounds, life time, alignment,
   initialisation), every assertion and every undefined arithmetic operation becomes a query; both sides of a feasible
   branch are followed. The exploration is **exhaustive within the bounds** stated in the harness, or the check refuses
   to answer (exit 2: time limit, unsupported instruction, an unreached `vs_reach` label, solver "unknown").
4. A counterexample is a model of the path condition: concrete values of all symbolic inputs. It is **replayed**
   against a native build of the same harness and the same real sources (AddressSanitizer + UBSan, plain, or the
   schedule-replaying build) and reported as `VIOLATION` only together with that replay file
   (`run.py --replay FILE` repeats it). A counterexample the native build does not reproduce is reported as a problem of
   the machinery (exit 2), never as a violation.
5. `evidence/<property>.json` gets the entries, the functions of the library that were executed, bounds, assertions
   decided, queries, solver time and what lies outside.

## The engine (`engine/`)

* **expr.cpp/.h** hash-consed bit-vector terms with exact simplification (checked by `selftest`, which compares random
  terms, ranges and translations with Z3). **engine.cpp** executes IR: objects with byte-wise contents and an
  "initialised" mask, heap life cycle (leak, double free, use after free, mismatched `new[]`/`delete`), C++ exceptions
  (type matching over the RTTI of the real code), virtual calls, static initialisation guards, `atexit`, TLS, atomics.
* **How a query is decided**: independent-constraint slicing, exact cache, then three sound shortcuts that only answer
  when they are certain (an earlier model satisfies the query; an earlier unsatisfiable core is contained in it; interval
  and order reasoning), then Z3. A sample of the shortcut answers is cross-checked with Z3 in every run
  (`cross_checked` in the evidence); a difference aborts the run.
* **lia.h**: queries with multiplication or division by constants (decimal text, calendar arithmetic) are translated to
  linear integer arithmetic with learned bounds (so no wrap-around is lost: every term gets bounds proved or is split
  with an explicit quotient). Models are validated by evaluating the original terms, a sample of unsatisfiable answers is
  repeated with bit-vectors; if the translation does not apply, bit-vectors decide.
* **Sharding**: an entry may be split into n shards; the first decisions of a path are hashed so that every path belongs
  to exactly one shard. Shards run in parallel; their evidence is added up.
* **Threads** (M02): each atomic operation is a scheduling point with a symbolic scheduling variable, explored
  exhaustively up to a bound on pre-emptions. Plain accesses are checked for data races by vector clocks (happens-before
  from the memory orders actually written in the code, so a weakened order is a race). A found schedule is replayed
  natively: the sources are compiled with `-fsanitize=thread` but linked with `native/sched.cpp`, a runtime of our own
  that runs the threads as coroutines and switches exactly at the recorded points.
* **Trusted**: clang's translation to IR, Z3, the executor itself, and the models in `models/` (`sprintf`-family for
  the formats used, `strtol`-family, `mbstowcs`/`wcstombs` in the C locale, `towupper` and friends, `gmtime`/`mktime` for
  a fixed offset, `memcpy`...). Models matter only for the violation-free direction: violations are replayed with the
  real C library. Allocation never fails.

## Why this reaches what tests cannot

The test suite samples a few values and short scenarios per function. Here element values, indices, sizes, text and
schedules are variables: e.g. the check of list insertion decides all 2^64 positions for every length and spare capacity
up to the bound at once, including all refused arguments, and leaks or reads of dead elements are part of the decision.

## Levels and cost

Every claimed check is bounded model checking by symbolic execution (`level: model_checking`). Quick runs take 1 to 60 s
(total about 5 minutes), thorough runs up to about 15 minutes each on 8 cores. Nothing is claimed beyond the bounds.

'''
ORACLE = {
'U01': 'encode and decode every 32-bit value through every UTF pair; the result must be the same code point or a refusal exactly where the encoding has no form for it; unit counts and unit shapes are compared with a table-free specification of the encodings',
'U02': 'decoders run on symbolic unit buffers placed at the end of an object (any read beyond is out of bounds); result is -1 or a count within the given length and the decoded value re-encodes as specified; both the low-level functions and readers on malformed text',
'U03': 'readers, whole-string conversion and buffer conversion are compared with each other and with the sequence of code points the text was made from, positions and counts included',
'S01': 'every operation is compared with the same operation on a plain character array; all operands are compared with their contents before; refused arguments must raise',
'S02': 'comparison results of all operators against a lexicographic comparison written as one formula; antisymmetry, totality and agreement between all operators',
'S03': 'heap accounting of the executor (each block freed once, none left) plus contents of every surviving variable after each step',
'S04': 'characters compared one by one with the modelled C-locale mapping; everything that is not a letter must be unchanged, source untouched',
'N01': 'text to number to text for all values, both widths and signednesses; decided by the linear-arithmetic backend, with digits as variables',
'N02': 'success flag compared with "the text is exactly what the printing function yields for an in-range number", and the value with the decimal value of the digits',
'N03': 'the digits themselves: a value is introduced by its six-decimal digits (symbolic), its text must be those digits without trailing zeros, and parsing must give the same bits back; acceptance against an independent grammar of decimal numbers. What the C library does between digits and binary value is assumed (its decimal conversion is outside the repository); what the repository does with the text, its buffers and the success flag is executed',
'L01': 'reference sequence in a plain array; every result, refused argument and the whole contents after each operation; storage released at the end',
'L02': 'elements register construction, assignment and destruction of each address; constructing over a live element, destroying twice, using a dead or moved-from element, and leaks are assertions',
'L03': 'reference array; every index and size argument',
'L04': 'reference multiset kept as sorted array of terms; order, positions, searching, removal',
'L05': 'reference map of pairs of terms; every look-up result, ordered keys, refused duplicates',
'L06': 'reference multimap; keys without values must not exist; value order per key',
'L07': 'positions and elements of an enumerator against the reference sequence under every order of advance, reset and copy; range-for and indexed loops',
'L08': 'target contents against source contents (or old contents followed by the source)',
'L09': 'the ordering is a symbolic weak order (ranks of elements); result must be ordered and a permutation (identity tags counted)',
'Q01': 'each operator against a closed-form reference; laziness and restartability through enumerator histories',
'Q02': 'folds, searches, grouping, ordering, flattening against loops over plain arrays',
'Q03': 'lexicographic comparison as one formula; all operators consistent; transitivity over triples',
'Q04': 'the joined sequence against a nested loop over both groups',
'O01': 'reachability matrix of the symbolic relation; components = classes of mutual reachability, order respects dependencies, ins and outs are the relation',
'O02': 'the same on the quotient of the relation by the sub classes; every item in exactly one node',
'M01': 'objects register their destruction; count of owners kept by the reference; after each step an object is alive if and only if it has an owner',
'M02': 'all schedules within the pre-emption bound; happens-before data races, use after release, exactly one destruction',
'M03': 'objects count AddRef/Release themselves; the reference count of the harness must agree after each step',
'F01': 'targets record what they were called with; copies share or keep targets as specified; captures released exactly once; equality of function objects',
'F02': 'each handler counts its calls per firing; attached set kept by the reference; re-entrant handlers included',
'V01': 'reference optional value; life cycle of the held object as in L02; comparison against the order on optional values',
'V02': 'reference tagged value; life cycle; visiting calls exactly the callback of the held alternative',
'V03': 'component-wise comparison with plain variables; lexicographic formula for orders',
'B01': 'reference table over all 256 (and wider) keys as terms; returned slots distinct, stable and non-null exactly when stored',
'G01': 'calls of initialisers and finalisers counted; reference state per storage; heap accounting',
'D01': 'civil-calendar formula (days from civil) written independently; symbolic day, time of day, offset and zone, decided in linear integer arithmetic',
'C01': 'notifications counted per reference; the reference keeps which collection object it was associated with',
'X01': 'well-formedness automaton over the produced text; random source fully symbolic',
'T01': 'a program (tree of categories and cases with symbolic outcomes) is chosen and interpreted by a reference interpreter that writes the exact expected report; then the real framework runs the same program, with the console recording',
}
NA = json.load(open(V + '/MANIFEST.json'))['not_applicable']; na = {x['property']: x['reason'] for x in NA}
o = [HEAD, '## Properties\n']
for q in P:
    i = q['id']; f = V + '/harness/%s.cpp' % i; o.append('### %s %s\n' % (i, q['title']))
    if i in na: o.append('Not applicable: %s\n' % na[i]); continue
    t = open(f).read(); g = lambda k: ' '.join(re.findall(r'^// %s: (.*)$' % k, t, re.M)); o.append('*Decided by*: %s.\n' % ORACLE[i]); o.append('*Bounds*: %s.\n' % g('bounds'))
    if g('assume'): o.append('*Assumptions*: %s.\n' % g('assume'))
    if g('outside'): o.append('*Outside*: %s.\n' % g('outside'))
    ents = re.findall(r'^VS_(ENTRY|THOROUGH)\((\w+)\)', t, re.M); o.append('*Entries*: %s.\n' % ', '.join(n + (' (thorough)' if k == 'THOROUGH' else '') for k, n in ents))
o.append(open(V + '/tools/design_tail.md').read().replace('@FIXED@', '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 (\2): ', x) for x in json.load(open(V + '/known_findings.json'))['fixed'])))
o.append('\n## Planted bugs\n\nAll confirmed in scratch copies (`tools/seed.py make`): they build, pass the 285 tests, and the demonstration fails with the change only.\n\n| planted change | property | needs | caught by |\n|---|---|---|---|\n')
r = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')): m = json.load(open(d)); n = d.split('/')[-2]; o[-1] += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], r.get(n, '?'))
open(V + '/DESIGN.md', 'w').write('\n'.join(o)); print(len('\n'.join(o)), 'bytes')
