// sources: Basic.cpp Exception.cpp Console.cpp Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp UnitTest/UnitTest.cpp UnitTest/UnitTest.Linux.cpp
// models: libc
// bounds: two test files, every body of up to 3 items (a case; a category with up to 2 items of its own, one level of which may be categories again; an assertion, error or exception outside any case; a message), every case body of up to 2 steps (assertion over symbolic values, TEST_ERROR and TEST_EXCEPTION over statements that raise the expected type, another type or nothing, every kind of throw, a case or category inside a case, a message); 12 items in all; switches absent, /R and /D; file names and two /F arguments of up to 4 characters of all printable ASCII contents; unknown switches of up to 4 characters
// outside: colours; hardware exceptions (Windows only); more files and deeper trees; non-ASCII file names; running the tests of a file again after /D let an exception escape
#include "coll.h"
#include "Strings/String.h"
#include "Console.h"
#include "UnitTest/UnitTest.h"
using namespace vl::unittest;
// the platform part of the console records what is printed
static wchar_t printed[4096]; static int printedN; static wchar_t wanted[4096]; static int wantedN; static bool record = true;
namespace vl { namespace console {
  void Console::Write(const wchar_t* s, vint n) { if (record) for (vint i = 0; i < n; i++) if (printedN < 4096) printed[printedN++] = s[i]; }
  WString Console::Read() { return {}; } void Console::SetColor(bool, bool, bool, bool) {} void Console::SetTitle(const WString&) {}
} }
static void put(const wchar_t* s) { while (*s) if (wantedN < 4096) wanted[wantedN++] = *s++; else return; }
static void putN(int v) { if (v >= 10) putN(v / 10); wchar_t t[2] = { (wchar_t)(L'0' + v % 10), 0 }; put(t); }
static void putLine(int depth, const wchar_t* s) { for (int i = 0; i < depth; i++) put(L"    "); put(s); put(L"\r\n"); }
static bool sameText() { bool r = printedN == wantedN; for (int i = 0; i < printedN && i < wantedN; i++) r = r & (printed[i] == wanted[i]); return r; }
// A program is a tree of items; the reference interpreter chooses it while it works out what must happen, the framework then runs it.
struct Other {}; enum Kind { KFile, KCategory, KCase };
struct Item { int op; int64_t x; int first, n; }; static Item items[24]; static int itemN, budget; static int64_t lowest;
static int ran[32], ranN, expected[32], expectedN, cases, passedCases, files, passedFiles; static bool suppress, escapes;
struct Body { int first, n; };   // items[list[first..first+n)]
static int list[64], listN;
static const wchar_t* const bare = L"Assertion is not allowed to execute outside of TEST_CASE.";
// returns whether the body is left by a failure; failed: something in it, or below it, failed
static bool refBody(Kind kind, int depth, int most, Body& b, bool& failed) {
  int mine[3], n = 0; bool left = false;
  while (n < most && budget > 0 && !left && vs_choice("more", 2)) {
    budget--; int id = itemN++; mine[n++] = id; Item& it = items[id]; expected[expectedN++] = id; it.op = (int)vs_choice("op", kind == KCase ? 12 : 6); it.x = (int64_t)vs_u64("x"); it.n = 0; const wchar_t* m = nullptr; Body sub{0, 0};
    if (kind != KCase) switch (it.op) {
    case 0: { putLine(depth, L"a case"); bool f = false; refBody(KCase, depth + 1, 2, sub, f); if (escapes) { left = true; break; } cases++; if (!f) passedCases++; else failed = true; break; }
    case 1: { if (depth > 2) { it.op = 5; putLine(depth, L"a message"); break; } putLine(depth, L"a category"); bool f = false; refBody(KCategory, depth + 1, 2, sub, f); if (escapes) { left = true; break; } if (f) failed = true; break; }
    case 2: m = bare; break; case 3: m = L"an error"; break; case 4: m = L"Unknown exception occurred!"; break; case 5: putLine(depth, L"a message"); break;
    } else switch (it.op) {
    case 0: if (it.x < lowest) m = L"Assertion failure: it.x >= lowest"; break;
    case 1: if (it.x >= lowest) m = L"Expect an error but nothing occurred: f()"; break;
    case 2: if (it.x >= lowest) m = L"Expect [Exception] but get unexpected exception: f()"; break;
    case 3: m = L"an error"; break; case 4: m = L"an exception"; break; case 5: m = L"Unknown exception occurred!"; break;
    case 6: m = L"TEST_CASE is not allowed to execute inside TEST_CASE"; break; case 7: m = L"TEST_CATEGORY is not allowed to execute inside TEST_CASE"; break;
    case 8: putLine(depth, L"a message"); break; case 9: m = L"Expect [Exception] but get unexpected exception: throw Error(L\"other\")"; break; case 10: m = L"inside"; break; case 11: m = L"an exception"; break;
    }
    it.first = sub.first; it.n = sub.n; if (m) { left = true; failed = true; if (suppress) putLine(depth, m); else escapes = true; }
  }
  b.first = listN; b.n = n; for (int i = 0; i < n; i++) list[listN++] = mine[i]; return left;
}
static void run(Kind kind, int first, int n) {
  for (int i = 0; i < n; i++) {
    int id = list[first + i]; Item& it = items[id]; A(ranN < 32, "nothing runs again"); ran[ranN++] = id;
    if (kind != KCase) switch (it.op) {
    case 0: { int k = 0; TEST_CASE(L"a case") { k++; run(KCase, it.first, it.n); }); A(k == 1, "a case is run once"); break; }
    case 1: { int k = 0; TEST_CATEGORY(L"a category") { k++; run(KCategory, it.first, it.n); }); A(k == 1, "a category is run once"); break; }
    case 2: TEST_ASSERT(it.x == it.x); break; case 3: throw Error(L"an error"); case 4: throw Other(); case 5: TEST_PRINT(L"a message"); break;
    } else { auto f = [&] { if (it.x < lowest) { if (it.op == 1) throw Error(L"low"); throw Exception(L"low"); } }; switch (it.op) {
    case 0: TEST_ASSERT(it.x >= lowest); break; case 1: TEST_ERROR(f()); break;
    case 2: { int seen = 0; auto g = [&](const Exception&) { seen++; }; TEST_EXCEPTION(f(), Exception, g); A(seen == 1, "the exception is shown once"); break; }
    case 3: throw Error(L"an error"); case 4: throw Exception(L"an exception"); case 5: throw Other();
    case 6: TEST_CASE(L"inner") { A(false, "no case runs inside a case"); }); break; case 7: TEST_CATEGORY(L"inner") { A(false, "no category runs inside a case"); }); break;
    case 8: TEST_PRINT(L"a message"); break; case 9: TEST_EXCEPTION(throw Error(L"other"), Exception, [](const Exception&) {}); break;
    case 10: TEST_ERROR(throw UnitTestAssertError(L"inside")); break; case 11: TEST_ERROR(throw Exception(L"an exception")); break;
    } }
  }
}
static Body fileBody[3]; static int fileRuns[3];
static void file0() { fileRuns[0]++; run(KFile, fileBody[0].first, fileBody[0].n); } static void file1() { fileRuns[1]++; run(KFile, fileBody[1].first, fileBody[1].n); } static void file2() { fileRuns[2]++; run(KFile, fileBody[2].first, fileBody[2].n); }
static void putSummary() { put(L"Passed test files: "); putN(passedFiles); put(L"/"); putN(files); put(L"\r\n"); put(L"Passed test cases: "); putN(passedCases); put(L"/"); putN(cases); put(L"\r\n"); }
VS_ENTRY(trees) { // shards=8 tshards=24
  lowest = (int64_t)vs_u64("lowest"); budget = BOUND(4, 5); int mode = (int)vs_choice("mode", 3); suppress = mode != 2; wchar_t exe[] = L"t", r[] = L"/R", d[] = L"/D"; wchar_t* argv[] = { exe, mode == 1 ? r : d };
  putLine(0, suppress ? L"Failures are suppressed." : L"Failures are not suppressed."); const wchar_t* const names[2] = { L"one.cpp", L"two.cpp" };
  for (int i = 0; i < 2 && !escapes; i++) { putLine(0, names[i]); bool f = false; refBody(KFile, 1, 3, fileBody[i], f); if (escapes) break; files++; if (!f) passedFiles++; }
  if (!escapes) putSummary();
  UnitTestFile a("one.cpp", &file0), b("two.cpp", &file1); int64_t live = vs_live(); int result = -1; bool escaped = false;
  try { result = UnitTest::RunAndDisposeTests(mode == 0 ? 1 : 2, argv); } catch (...) { escaped = true; }
  A(escaped == escapes, "a failure leaves the run only if failures are not suppressed"); A(ranN == expectedN, "everything is run once"); for (int i = 0; i < ranN; i++) A(ran[i] == expected[i], "in order");
  if (!escaped) { A((result == 0) == (files == passedFiles), "the result is zero if and only if nothing failed"); A(fileRuns[0] == 1, "every file is run once"); A(fileRuns[1] == 1, "every file is run once"); A(vs_live() == live, "everything is released"); }
  A(printedN == wantedN, "what is reported"); for (int i = 0; i < printedN; i++) if (printed[i] != wanted[i]) A(false, "what is reported");
  if (escaped) vs_reach("escaped"); else if (result) vs_reach("failed"); else vs_reach("passed");
}
// a second run reports its own counts
VS_ENTRY(again) { // shards=4
  lowest = (int64_t)vs_u64("lowest"); budget = BOUND(3, 4); suppress = true; UnitTestFile a("one.cpp", &file0); wchar_t exe[] = L"t"; wchar_t* argv[] = { exe };
  putLine(0, L"Failures are suppressed."); putLine(0, L"one.cpp"); bool f = false; refBody(KFile, 1, 3, fileBody[0], f); files = 1; passedFiles = f ? 0 : 1; putSummary();
  for (int k = 0; k < 2; k++) { printedN = 0; ranN = 0; int r = UnitTest::RunAndDisposeTests(1, argv); A((r == 0) == !f, "the same result"); A(ranN == expectedN, "everything is run once"); A(sameText(), "the same report"); } vs_reach("again");
}
// outside a run nothing is accepted
VS_ENTRY(outsideRun) {
  int op = (int)vs_choice("op", 4); bool refused = false; try { switch (op) { case 0: TEST_CASE(L"a case") { A(false, "not run"); }); break; case 1: TEST_CATEGORY(L"a category") { A(false, "not run"); }); break; case 2: TEST_ASSERT(true); break; case 3: TEST_PRINT(L"text"); break; } } catch (const UnitTestConfigError&) { refused = true; } A(refused, "refused outside a run"); vs_reach("outside");
}
// which files run
static char name[2][5]; static wchar_t arg[2][8]; static wchar_t sym(const char* n, int lo = 33) { return (wchar_t)vs_range(n, lo, 126); }
static bool selects(const wchar_t* f, const char* n) { int fl = 0, nl = 0; while (f[fl]) fl++; while (n[nl]) nl++; if (fl > nl) return false; bool same = true; for (int i = 0; i < fl; i++) same = same & ((wchar_t)n[nl - fl + i] == f[i]); if (fl < nl) { char c = n[nl - fl - 1]; same = same & ((c == '/') | (c == '\\')); } return same; }
template<typename C> static void selection() {
  int argc = 1 + (int)vs_choice("args", 3); int m = BOUND(3, 4); static C text[3][10]; C* argv[3] = { text[0], text[1], text[2] }; wchar_t f[3][6]; text[0][0] = 't';
  for (int i = 0; i < 2; i++) { int n = 1 + (int)vs_choice("nameLength", m); for (int j = 0; j < n; j++) name[i][j] = (char)sym("name"); name[i][n] = 0; }
  for (int i = 1; i < argc; i++) { int n = 1 + (int)vs_choice("argLength", m - 1); text[i][0] = '/'; text[i][1] = 'F'; text[i][2] = ':'; for (int j = 0; j < n; j++) { f[i][j] = sym("arg"); text[i][3 + j] = (C)f[i][j]; } f[i][n] = 0; text[i][3 + n] = 0; }
  static char n0[5], n1[5]; UnitTestFile a(name[0], &file0), b(name[1], &file1); int r = UnitTest::RunAndDisposeTests(argc, argv); A(r == 0, "nothing failed");
  for (int k = 0; k < 2; k++) { bool want = argc == 1; for (int i = 1; i < argc; i++) want = want | selects(f[i], name[k]); A(fileRuns[k] == (want ? 1 : 0), "exactly the selected files are run, once"); } vs_reach("selection");
}
VS_ENTRY(filesWide) { record = false; selection<wchar_t>(); } // shards=4
VS_ENTRY(filesNarrow) { record = false; selection<char>(); } // shards=4
VS_ENTRY(unknown) { // shards=2
  record = false; int n = (int)vs_choice("length", BOUND(4, 5)); static wchar_t text[2][8]; for (int j = 0; j < n; j++) text[0][j] = sym("arg"); text[0][n] = 0; bool d = false, r = false, f = false; if (n == 2) { d = (text[0][0] == L'/') & (text[0][1] == L'D'); r = (text[0][0] == L'/') & (text[0][1] == L'R'); } if (n > 3) f = (text[0][0] == L'/') & (text[0][1] == L'F') & (text[0][2] == L':');
  int second = (int)vs_choice("second", 3); text[1][0] = L'/'; text[1][1] = second == 1 ? L'D' : L'R'; wchar_t exe[] = L"t"; wchar_t* argv[] = { exe, text[0], text[1] }; static char nm[] = "a"; UnitTestFile a(nm, &file0); int res = UnitTest::RunAndDisposeTests(second ? 3 : 2, argv);
  bool good = d | r | f; if (second == 1) good = good & !r; if (second == 2) good = good & !d; A((res == 0) == good, "unknown or contradicting options are refused"); if (!good) A(fileRuns[0] == 0, "and nothing is run"); vs_reach("unknown");
}
