"""Planted bugs: text edits plus a demonstration. seed.py confirms them and writes seeded/<id>/."""
BUGS = []
HEAD = '#include <stdio.h>\n#include <stdlib.h>\n#define CHECK(C) do { if (!(C)) { printf("failed: %s\\n", #C); return 1; } } while (0)\n'
def bug(id, prop, edits, includes, body, needs, breaks, asan=False, pre='', lib=None):
    code = HEAD + ''.join('#include "%s"\n' % i for i in includes.split()) + 'using namespace vl;\nusing namespace vl::collections;\n'.replace('using namespace vl::collections;\n', 'using namespace vl::collections;\n' if 'Collections' in includes else '') + pre + '\nint main()\n{\n' + body + '\n\treturn 0;\n}\n'
    b = {'id': id, 'property': prop, 'edits': edits, 'files': {'demo.cpp': code}, 'needs': needs, 'breaks': breaks, 'asan': asan}
    if lib is not None: b['lib'] = lib
    BUGS.append(b)
CONV, CONVH, STRH, STR, LIST, DICT = 'Source/Strings/Conversion.cpp', 'Source/Strings/Conversion.h', 'Source/Strings/String.h', 'Source/Strings/String.cpp', 'Source/Collections/List.h', 'Source/Collections/Dictionary.h'

bug('u02-pair-of-high-surrogates', 'U02', [(CONV, '''				if ((cs[1] & 0xFC00U) == 0xDC00U)
				{''', '''				if ((cs[1] & 0xF800U) == 0xD800U)
				{''')], 'Strings/Conversion.h',
    '\tchar16_t b[2] = {0xD801, 0xD802};\n\tchar32_t c = 0;\n\tCHECK(encoding::UtfConversion<char16_t>::To32(b, 2, c) == -1);',
    'a high surrogate followed by another high surrogate', 'an unpaired surrogate is decoded as if it were a pair')
bug('u03-restart-after-invalid', 'U03', [(CONVH, '''				if (result == -1)
				{
					available = -1;
					return 0;
				}
				available -= result;''', '''				if (result == -1)
				{
					available = 0;
					return 0;
				}
				available -= result;''')], 'Strings/Conversion.h',
    '\tconst char16_t s[] = {u\'a\', 0xDC00, u\'b\', u\'c\', u\'d\', 0};\n\tencoding::UtfStringToStringReader<char16_t, char32_t> r(s);\n\tCHECK(r.Read() == U\'a\');\n\tCHECK(r.Read() == 0);\n\tCHECK(r.Read() == 0);\n\tCHECK(r.Read() == 0);',
    'malformed input and reading on after the reader reported the end', 'a reader that stopped at malformed input resumes in the middle of the text')
bug('s03-buffer-released-early', 'S03', [(STRH, '''				T* newBuffer=new T[length+1];
				memcpy(newBuffer, buffer+start, sizeof(T)*length);
				newBuffer[length]=0;
				Dec();
				buffer=newBuffer;''', '''				T* newBuffer=new T[length+1];
				Dec();
				memcpy(newBuffer, buffer+start, sizeof(T)*length);
				newBuffer[length]=0;
				buffer=newBuffer;''')], 'Strings/String.h',
    '\tWString p;\n\t{\n\t\tWString s = L"abcdefgh";\n\t\tp = s.Sub(1, 3);\n\t}\n\tconst wchar_t* b = p.Buffer();\n\tCHECK(b[0] == L\'b\' && b[3] == 0);',
    'asking a part of a string for its zero-terminated buffer when the part is the last user of the storage', 'the characters are copied out of released storage', asan=True)
bug('l02-insert-middle-leak', 'L02', [(LIST, '''						CallMoveCtors(&items[index + insertCount], &items[index], count - index);
						CallDtors(&items[index], count - index);''', '''						CallMoveCtors(&items[index + insertCount], &items[index], count - index);''')], 'Collections/List.h',
    '\t{\n\t\tList<X> xs;\n\t\tfor (int i = 0; i < 4; i++) xs.Add(X());\n\t\txs.RemoveAt(3);\n\t\tint before = alive;\n\t\tX x;\n\t\txs.Insert(xs.Count() - 1, x);\n\t}\n\tCHECK(alive == 0);',
    'inserting just before the last element while there is spare capacity', 'a moved-from element is overwritten by a constructor without having been destroyed', pre='static int alive = 0;\nstruct X { X() { alive++; } X(const X&) { alive++; } X(X&&) { alive++; } ~X() { alive--; } X& operator=(const X&) = default; bool operator==(const X&) const = default; };')
bug('l05-set-existing', 'L05', [(DICT, '''				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
				if (index == -1)
				{
					index = keys.Add(std::forward<TKeyForward>(keyAccept));
					values.Insert(index, std::forward<TValueItem&&>(value));
				}
				else
				{
					values[index]''', '''				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
				if (index == -1)
				{
					bool last = keys.Count() > 0 && keys[keys.Count() - 1] < keyAccept;
					index = keys.Add(std::forward<TKeyForward>(keyAccept));
					values.Insert(last || index == 0 ? index : index - 1, std::forward<TValueItem&&>(value));
				}
				else
				{
					values[index]''')], 'Collections/Dictionary.h',
    '\tDictionary<vint, vint> d;\n\td.Set(10, 100);\n\td.Set(30, 300);\n\td.Set(20, 200);\n\tCHECK(d[10] == 100);\n\tCHECK(d[20] == 200);\n\tCHECK(d[30] == 300);',
    'setting a new key that sorts between two existing keys', 'the value lands next to the neighbouring key')
bug('l06-remove-last-value', 'L06', [(DICT, '''					if(target->Count()==0)
					{
						keys.RemoveAt(index);
						values.RemoveAt(index);
						delete target;''', '''					if(target->Count()==0 && keys.Count()>1)
					{
						keys.RemoveAt(index);
						values.RemoveAt(index);
						delete target;''')], 'Collections/Dictionary.h',
    '\tGroup<vint, vint> g;\n\tg.Add(1, 10);\n\tg.Add(2, 20);\n\tCHECK(g.Remove(1, 10));\n\tCHECK(g.Remove(2, 20));\n\tCHECK(g.Count() == 0);\n\tCHECK(!g.Contains(2));',
    'removing the only value of the only key', 'an empty group keeps a key without values')
bug('o01-visited-shortcut', 'O01', [('Source/Collections/PartialOrdering.cpp', '''				auto& inNode = nodes[node.ins->Get(i)];
				if (inNode.component == -1)
				{''', '''				auto& inNode = nodes[node.ins->Get(i)];
				if (inNode.component == -1 && (inNode.outs->Count() < 3 || i == 0))
				{''')], 'Collections/PartialOrdering.h',
    '\tList<vint> items;\n\tfor (vint i = 0; i < 4; i++) items.Add(i);\n\tGroup<vint, vint> d;\n\tfor (vint i = 0; i < 4; i++) for (vint j = 0; j < 4; j++) if (i != j) d.Add(i, j);\n\tPartialOrderingProcessor p;\n\tp.InitWithGroup(items, d);\n\tp.Sort();\n\tCHECK(p.components.Count() == 1);',
    'a cycle through a node with several dependants reached late', 'mutually dependent nodes are split into several components')
bug('m01-move-same-object', 'M01', [('Source/Primitives/Pointer.h', '''		Ptr<T>& operator=(Ptr<T>&& pointer)
		{
			if (this != &pointer)''', '''		Ptr<T>& operator=(Ptr<T>&& pointer)
		{
			if (counter != pointer.counter)''')], 'Primitives/Pointer.h',
    '\t{\n\t\tPtr<X> a(new X), b = a;\n\t\tb = std::move(a);\n\t\tCHECK(!a);\n\t\tCHECK(b);\n\t}\n\tCHECK(X::alive == 0);',
    'moving one shared pointer into another that owns the same object', 'the source of the move keeps owning the object', pre='struct X { static inline int alive = 0; X() { alive++; } ~X() { alive--; } };')

bug('l01-moved-from-capacity', 'L01', [(LIST, """				this->capacity = _move.capacity;
				_move.buffer = nullptr;
				_move.count = 0;
				_move.capacity = 0;
				return *this;""", """				std::swap(this->capacity, _move.capacity);
				_move.buffer = nullptr;
				_move.count = 0;
				return *this;""")], 'Collections/List.h',
    '\tList<vint> a, b;\n\ta.Add(1);\n\tb.Add(2);\n\tb.Add(3);\n\ta = std::move(b);\n\tCHECK(a.Count() == 2 && b.Count() == 0);\n\tb.Add(4);\n\tCHECK(b.Count() == 1 && b[0] == 4);',
    'adding to a list that was moved into a non-empty list', 'the moved-from list believes it still has room', asan=True)

OPS, SEQ, EVT, FUN, NUL, VAR, PTR, GS, UT, DT, LOR = 'Source/Collections/Operation.h', 'Source/Collections/OperationSequence.h', 'Source/Primitives/Event.h', 'Source/Primitives/Function.h', 'Source/Primitives/Nullable.h', 'Source/Primitives/Variant.h', 'Source/Primitives/Pointer.h', 'Source/GlobalStorage.cpp', 'Source/UnitTest/UnitTest.cpp', 'Source/Primitives/DateTime.Linux.cpp', 'Source/Strings/LoremIpsum.cpp'
bug('l09-pivot-run', 'L09', [(OPS, """					left = writing + 1;
				}""", """					left = (writing == 2 && right == 0) ? writing : writing + 1;
				}""")], 'Primitives/Nullable.h Collections/Dictionary.h Collections/Operation.h',
    '\tint p[7];\n\tfor (int n = 1; n <= 7; n++) { long total = 1; for (int i = 0; i < n; i++) total *= n; for (long c = 0; c < total; c++) { long v = c; for (int i = 0; i < n; i++) { p[i] = (int)(v % n); v /= n; } Sort(p, n); for (int i = 1; i < n; i++) CHECK(p[i - 1] <= p[i]); } }',
    'a partition whose left part has four elements and whose right part is empty', 'one element of the left part is not sorted')
bug('q01-repeat-clone', 'Q01', [(SEQ, 'return new RepeatEnumerator(enumerator->Clone(), count, index, repeatedCount);', 'return new RepeatEnumerator(enumerator->Clone(), count, index, index < 0 ? repeatedCount : 0);')], 'Primitives/Nullable.h Collections/Dictionary.h Collections/Operation.h',
    '\tList<vint> xs;\n\txs.Add(1);\n\txs.Add(2);\n\tauto e = Ptr(From(xs).Repeat(2).CreateEnumerator());\n\tfor (int i = 0; i < 3; i++) CHECK(e->Next());\n\tauto f = Ptr(e->Clone());\n\tint n = 0;\n\twhile (f->Next()) n++;\n\tCHECK(n == 1);',
    'copying an enumerator of a repeated sequence after the first repetition', 'the copy starts counting repetitions anew')
bug('q02-last-default', 'Q02', [(OPS, """				while (enumerator->Next())
				{
					defaultValue = enumerator->Current();
				}
				return defaultValue;""", """				while (enumerator->Next())
				{
					if (enumerator->Index() != 4 || defaultValue < enumerator->Current()) defaultValue = enumerator->Current();
				}
				return defaultValue;""")], 'Primitives/Nullable.h Collections/Dictionary.h Collections/Operation.h',
    '\tList<vint> xs;\n\tfor (vint i = 0; i < 5; i++) xs.Add(10 - i);\n\tCHECK(From(xs).Last(0) == 6);',
    'a sequence of exactly five elements whose last is not the largest so far', 'Last with a default returns the element before the last')
bug('f02-handler-at-front', 'F02', [(EVT, """			vint index = handlers.IndexOf(impl.Obj());
			if (index == -1) return false;
			impl->attached = false;""", """			vint index = handlers.IndexOf(impl.Obj());
			if (index == -1) return false;
			impl->attached = index != 0 && handlers.Count() > 2;""")], 'Primitives/Event.h',
    '\tEvent<void()> e;\n\tPtr<EventHandler> h[3];\n\tfor (int i = 0; i < 3; i++) h[i] = e.Add(Func<void()>([]{}));\n\tfor (int i = 2; i >= 0; i--) { CHECK(e.Remove(h[i])); CHECK(!h[i]->IsAttached()); }\n\tfor (int i = 0; i < 3; i++) h[i] = e.Add(Func<void()>([]{}));\n\tfor (int i = 0; i < 3; i++) { CHECK(e.Remove(h[i])); CHECK(!h[i]->IsAttached()); }',
    'detaching a handler that is not the first of at least three', 'a detached handler still says it is attached')
bug('v01-move-assign-empty', 'V01', [(NUL, """				new (&object)T(std::move(nullable.object));
				nullable.Reset();
			}
		}

""", """				new (&object)T(std::move(nullable.object));
				nullable.initialized = false;
			}
		}

""")], 'Primitives/Nullable.h',
    '\t{\n\t\tNullable<X> a = X();\n\t\tNullable<X> b = std::move(a);\n\t\tCHECK(!a);\n\t\tCHECK(b);\n\t}\n\tCHECK(X::alive == 0);',
    'moving a nullable whose object must be destroyed even when moved from', 'the moved-from object is never destroyed', pre='struct X { static inline int alive = 0; X() { alive++; } X(const X&) { alive++; } X(X&&) { alive++; } ~X() { alive--; } };')
bug('b01-block-edge', 'B01', [(LIST, """				if (allocatedSize == blocks.Count()*blockSize)
				{""", """				if (allocatedSize >= blocks.Count()*blockSize - (blocks.Count() > 1 ? blockSize : 0))
				{""")], 'Collections/List.h',
    '\tPushOnlyAllocator<X> a(2);\n\tint n = 0;\n\tfor (int i = 0; i < 5; i++) a.Create();\n\tCHECK(X::made == 6);',
    'filling more than one block', 'blocks are allocated that are not needed yet', pre='struct X { static inline int made = 0; X() { made++; } };')
BUGS.pop()
bug('b01-zero-fragment', 'B01', [(LIST, """						root = allocator.Create();
						memset(root->nodes, 0, sizeof(root->nodes));""", """						root = allocator.Create();
						if (value) memset(root->nodes, 0, sizeof(root->nodes));""")], 'Collections/List.h',
    '\tPushOnlyAllocator<bom_helper::TreeNode> a(4);\n\t{\n\t\tvoid* p = malloc(sizeof(bom_helper::TreeNode) * 4);\n\t\tmemset(p, 0x5A, sizeof(bom_helper::TreeNode) * 4);\n\t\tfree(p);\n\t}\n\tByteObjectMap<int> m;\n\tm.Set(5, nullptr, a);\n\tfor (int i = 0; i < 256; i++) CHECK(m.Get((vuint8_t)i) == nullptr);',
    'setting nothing under a key in a part of the map not used before', 'the new nodes contain whatever the memory held before', asan=False)
bug('g01-registration-order', 'G01', [(GS, """			current->globalStorage->EnsureFinalized();
			current = current->next;""", """			if (current->next && !current->next->globalStorage->IsInitialized()) current = current->next;
			current->globalStorage->EnsureFinalized();
			current = current->next;""")], 'GlobalStorage.h',
    '\tG a, b;\n\tGlobalStorageDescriptor da, db;\n\tda.globalStorage = &a;\n\tdb.globalStorage = &b;\n\tRegisterStorageDescriptor(&da);\n\tRegisterStorageDescriptor(&db);\n\ta.EnsureInitialized();\n\tFinalizeGlobalStorage();\n\tCHECK(!a.IsInitialized());',
    'a used storage registered right before one that was never used', 'the used storage is not finalised', pre='struct G : GlobalStorage { void InitializeResource() override {} void FinalizeResource() override {} };')
bug('x01-last-word', 'X01', [(LOR, 'vint deltaShort = bestLength - used + 1;', 'vint deltaShort = bestLength - used - 3;')], 'Strings/LoremIpsum.h',
    '\tfor (int i = 0; i < 3000; i++) { WString s = LoremIpsum(14, LoremIpsumCasing::AllWordsLowerCase); CHECK(s.Length() <= 25 && s.Length() >= 1); CHECK(s[s.Length() - 1] != L\' \'); CHECK(s.Length() >= 8); }',
    'a word that fits only partly into the remaining length', 'a farther word boundary is taken')
BUGS.pop()
bug('t01-category-failure', 'T01', [(UT, """			if (!isCategory)
			{
				if (!testContext->failed) passedCases++;
				totalCases++;
			}
			testContext = context.parent;""", """			if (!isCategory)
			{
				if (!testContext->failed) passedCases++;
				totalCases++;
			}
			if (isCategory && context.parent->parent) context.parent->failed = context.failed;
			testContext = context.parent;""")], 'UnitTest/UnitTest.h',
    '\twchar_t n[] = L"t", r[] = L"/R";\n\twchar_t* argv[] = { n, r };\n\tUnitTestFile f("f.cpp", &file);\n\tint result = UnitTest::RunAndDisposeTests(2, argv);\n\tCHECK(result != 0);\n\tCHECK(seen == 2);',
    'a failing category followed by a passing one inside another category', 'the failure of the earlier one is forgotten by the enclosing category', pre='using namespace vl::unittest;\nstatic int seen;\nstatic void file() { TEST_CATEGORY(L"a") { TEST_CATEGORY(L"b") { TEST_CASE(L"c") { seen++; TEST_ASSERT(false); }); }); TEST_CATEGORY(L"d") { TEST_CASE(L"e") { seen++; }); }); }); }', lib="$(find Source -name '*.cpp' ! -name '*.Windows.cpp')")
BUGS.pop()
bug('t01-failed-file-counter', 'T01', [(UT, """					bool skipped = false;
					context.failed = false;""", """					bool skipped = false;
					if (_Fs.Count() == 0) context.failed = false;""")], 'UnitTest/UnitTest.h',
    '\tchar n[] = "t", a1[] = "/F:a.cpp", a2[] = "/F:b.cpp";\n\tchar* argv[] = { n, a1, a2 };\n\tUnitTestFile f("a.cpp", &bad), g("b.cpp", &good);\n\tfreopen("/dev/null", "w", stdout);\n\tint result = UnitTest::RunAndDisposeTests(3, argv);\n\tCHECK(result != 0);\n\tCHECK(seen == 1);',
    'selecting files with /F where a failing file is followed by a passing one', 'the passing file is counted as failed', pre='')
BUGS.pop()
bug('t01-error-in-category', 'T01', [(UT, """				auto current = testContext;
				while (current)
				{
					current->failed = true;""", """				auto current = testContext;
				while (current)
				{
					if (testContext->kind == UnitTestContextKind::Category && current->kind == UnitTestContextKind::File) break;
					current->failed = true;""")], 'UnitTest/UnitTest.h',
    '\tchar n[] = "t", r[] = "/R";\n\tchar* argv[] = { n, r };\n\tUnitTestFile f("f.cpp", &file);\n\tint result = UnitTest::RunAndDisposeTests(2, argv);\n\tCHECK(result != 0);',
    'an assertion or error in a category outside any case', 'the run reports success', pre='using namespace vl::unittest;\nstatic void file() { TEST_CATEGORY(L"a") { TEST_ASSERT(true); }); }', lib="$(find Source -name '*.cpp' ! -name '*.Windows.cpp')")
bug('d01-milliseconds-forward', 'D01', [(DT, 'return osInternal + milliseconds;', 'return osInternal + milliseconds / 1000 * 1000 + milliseconds % 1000 * (milliseconds < 86400000000ULL);')], 'Primitives/DateTime.h',
    '\tDateTime d = DateTime::FromDateTime(2000, 1, 1, 0, 0, 0, 0);\n\tDateTime e = d.Forward(86400000999ULL);\n\tCHECK(e.osMilliseconds - d.osMilliseconds == 86400000999ULL);',
    'moving forward by more than a thousand days and a fraction of a second', 'the fraction of a second is lost')
bug('m02-counter-after-release', 'M02', [('Source/Basic.h', """#define INCRC(x)	((*(x))++)""", """#define INCRC(x)	((*(x))++)""")], '', '', '', '')
BUGS.pop()
bug('m01-detach-shared', 'M01', [(PTR, """			if (auto converted = pointer.Obj())
			{
				counter = pointer.Counter();
				reference = converted;
				originalReference = pointer.originalReference;
				originalDestructor = pointer.originalDestructor;
				pointer.SetEmptyNoIncDec();""", """			if (auto converted = pointer.Obj())
			{
				counter = pointer.Counter();
				reference = converted;
				originalReference = (void*)reference;
				originalDestructor = pointer.originalDestructor;
				pointer.SetEmptyNoIncDec();""")], 'Primitives/Pointer.h',
    '\t{\n\t\tPtr<D> d(new D);\n\t\tPtr<B2> b = std::move(d);\n\t\tCHECK(b);\n\t}\n\tCHECK(alive == 0);',
    'moving a pointer to a class with two bases into a pointer to its second base', 'the object is released at the wrong address', asan=True, pre='static int alive = 0;\nstruct B1 { int x = 0; };\nstruct B2 { int y = 0; };\nstruct D : B1, B2 { D() { alive++; } ~D() { alive--; } };')

bug('l04-append-shortcut', 'L04', [(LIST, """				if (ArrayBase<T>::count == 0)
				{
					return Insert(0, std::forward<TItem&&>(item));
				}""", """				if (ArrayBase<T>::count == 0)
				{
					return Insert(0, std::forward<TItem&&>(item));
				}
				else if (ArrayBase<T>::count == this->capacity && ArrayBase<T>::count > 4 && this->buffer[ArrayBase<T>::count - 2] < item)
				{
					return Insert(ArrayBase<T>::count, std::forward<TItem&&>(item));
				}""")], 'Collections/List.h',
    '\tfor (vint n = 5; n < 60; n++) {\n\tSortedList<vint> xs;\n\tfor (vint i = 0; i < n; i++) xs.Add(i * 10);\n\txs.Add(n * 10 - 15);\n\tfor (vint i = 1; i < xs.Count(); i++) CHECK(xs[i - 1] <= xs[i]);\n\t}',
    'a full buffer and a new element between the last two', 'the list is no longer in order')
bug('q01-union-reset', 'Q01', [(SEQ, """			void Reset()override
			{
				enumerator->Reset();
				index=-1;
				repeatedCount=0;""", """			void Reset()override
			{
				enumerator->Reset();
				if (repeatedCount < count) repeatedCount=0;
				index=-1;""")], 'Primitives/Nullable.h Collections/Dictionary.h Collections/Operation.h',
    '\tList<vint> xs;\n\txs.Add(1);\n\tauto e = Ptr(From(xs).Repeat(2).CreateEnumerator());\n\twhile (e->Next());\n\te->Reset();\n\tCHECK(e->Next());\n\tCHECK(e->Current() == 1);',
    'restarting an enumerator of a repeated sequence after it reached the end', 'nothing is visited any more')
bug('n03-long-values', 'N03', [(STR, '''		sprintf(buffer, "%f", value);
''', '''		snprintf(buffer, size < 64 ? size : 64, "%f", value);
''')], 'Strings/String.h',
    '\tCHECK(atof(ftoa(1e100)) == 1e100);\n\tCHECK(wtof(ftow(-1e80)) == -1e80);',
    'a value whose decimal form is longer than 63 characters', 'the low digits are cut off and the text stands for a far smaller value')
bug('c01-same-reference-again', 'C01', [('Source/Collections/Interfaces.h', 'CHECK_ERROR(!colref, L"EnumerableBase<T>::SetC', 'CHECK_ERROR(!colref || colref == ref, L"EnumerableBase<T>::SetC')], 'Collections/List.h',
    '\tList<vint> xs;\n\tauto r = Ptr(new R);\n\txs.SetCollectionReference(r);\n\tbool refused = false;\n\ttry { xs.SetCollectionReference(r); } catch (const Error&) { refused = true; }\n\tCHECK(refused);',
    'associating the reference that is already associated', 'the second association is accepted', pre='struct R : collections::ICollectionReference { void OnDisposed() override {} };')
bug('l07-wraps-around', 'L07', [(DICT, '''				bool Next() override
				{
					index++;
					UpdateCurrent();
					return index>=0 && index<container->Count();''', '''				bool Next() override
				{
					index=index<container->Count()?index+1:0;
					UpdateCurrent();
					return index>=0 && index<container->Count();''')], 'Collections/Dictionary.h',
    '\tDictionary<vint, vint> d;\n\td.Add(1, 2);\n\tauto e = Ptr(d.CreateEnumerator());\n\tCHECK(e->Next());\n\tCHECK(!e->Next());\n\tCHECK(!e->Next());\n\tCHECK(!e->Next());',
    'asking a finished enumerator for another element', 'it starts over instead of staying finished')
bug('m03-same-raw-again', 'M03', [('Source/Primitives/Pointer.h', '''		ComPtr<T>& operator=(T* pointer)
		{
			Dec();''', '''		ComPtr<T>& operator=(T* pointer)
		{
			if (pointer == reference) return *this;
			Dec();''')], 'Primitives/Pointer.h',
    '\tCom o;\n\t{\n\t\tComPtr<Com> p(&o);\n\t\to.refs++;\n\t\tp = &o;\n\t}\n\tCHECK(o.refs == 0);',
    'assigning another reference on the object that is held already', 'that reference is never given back', pre='struct Com { int refs = 1; void AddRef() { refs++; } void Release() { refs--; } };')
bug('s01-text-not-copied', 'S01', [(STRH, 'if (index == 0 && count == length) return { source };', 'if (index == 0 && count == length) return Unmanaged(source);')], 'Strings/String.h',
    '\twchar_t b[] = L"abc";\n\tWString e;\n\tWString s = e + b;\n\tb[0] = L\'x\';\n\tCHECK(s[0] == L\'a\');',
    'appending a zero-terminated text to an empty string and changing the text afterwards', 'the string changes with the text')
bug('o02-repeated-dependency', 'O02', [('Source/Collections/PartialOrdering.h', '						if (!ins.Contains(keyIndex, valueIndex))\n', '						if (ins.Keys().IndexOf(keyIndex) != -1 && ins[keyIndex].Count() > 3 ? ins[keyIndex][ins[keyIndex].Count() - 1] != valueIndex : !ins.Contains(keyIndex, valueIndex))\n')], 'Collections/PartialOrdering.h',
    '\tList<vint> items;\n\tGroup<vint, vint> dep;\n\tDictionary<vint, vint> sub;\n\tfor (vint i = 0; i < 7; i++) items.Add(i);\n\tsub.Add(0, 0);\n\tsub.Add(1, 0);\n\tfor (vint i = 0; i < 2; i++) for (vint j = 2; j < 7; j++) dep.Add(i, j);\n\tPartialOrderingProcessor p;\n\tp.InitWithSubClass(items, dep, sub);\n\tp.Sort();\n\tfor (vint i = 0; i < p.nodes.Count(); i++) CHECK(p.nodes[i].ins->Count() == (p.nodes[i].subClassItemCount == 2 ? 5 : 0));',
    'a sub class with more than three dependencies, induced by several of its items', 'dependencies are recorded repeatedly')
