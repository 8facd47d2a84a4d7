// sources: Basic.cpp Exception.cpp Strings/String.cpp Strings/LoremIpsum.cpp
// models: libc time
// bounds: words and sentences from every position of the word list, requested lengths -2 to 24 (thorough 48) and every negative length through one representative, all three casings; paragraphs of requested lengths up to 34 (thorough 60) for every outcome of the random source, from the first positions of the word list
// outside: longer texts; the choice of the words themselves; several threads
#include "vs.h"
#include "Strings/LoremIpsum.h"
using namespace vl;
extern "C" int rand() noexcept { return (int)vs_range("rand", 0, 0x7FFFFFFF); } // any random source
extern "C" void srand(unsigned) noexcept {}
static bool up(wchar_t c) { return c >= L'A' && c <= L'Z'; } static bool low(wchar_t c) { return c >= L'a' && c <= L'z'; }
static vint gap(vint a, vint b) { return a < b ? b - a : a - b; }
// b[i..e): words of letters separated by single spaces; returns the number of words
static int words(const wchar_t* b, vint i, vint e, bool firstUp, bool allUp) {
  int n = 0; if (i == e) return 0; A(b[i] != L' ', "no space in front"); A(b[e - 1] != L' ', "no space at the end");
  while (i < e) { bool u = allUp || (firstUp && n == 0); A(u ? up(b[i]) : low(b[i]), "casing of the first letter"); vint s = i++; while (i < e && b[i] != L' ') { A(low(b[i]) || (b[i] == L';' && i > s), "letters"); i++; } A(i - s <= 16, "words"); n++; if (i < e) { i++; A(i < e && b[i] != L' ', "single spaces between words"); } }
  return n;
}
VS_ENTRY(text) { // shards=8 tshards=16
  int64_t live = vs_live(); { int k = 0; while (k < 440 && vs_choice("later", 2)) { k++; WString w = LoremIpsum(1, LoremIpsumCasing::AllWordsLowerCase); A(words(w.Buffer(), 0, w.Length(), false, false) == 1, "one word"); }
  int c = (int)vs_choice("casing", 4); vint n = vs_choice("length", BOUND(27, 51)) - 2; WString s = c == 0 ? LoremIpsum(n, LoremIpsumCasing::AllWordsLowerCase) : c == 1 ? LoremIpsum(n, LoremIpsumCasing::FirstWordUpperCase) : c == 2 ? LoremIpsumTitle(n) : LoremIpsumSentence(n); vint e = s.Length(); const wchar_t* b = s.Buffer(); A(b[e] == 0, "terminated"); for (vint i = 0; i < e; i++) A(b[i] != 0, "no zero inside");
  if (c == 3) { A(e > 0 && b[e - 1] == L'.', "a sentence ends with a period"); e--; } words(b, 0, e, c != 0, c == 2);
  if (n <= 0) { A(e == 0, "nothing for nothing"); vs_reach("empty"); } else { A(e > 0, "something"); A(gap(e, n) <= 11, "close to the requested length"); vs_reach("text"); } }
  A(vs_live() == live, "everything is released");
}
VS_ENTRY(paragraph) { // shards=8 tshards=24
  int64_t live = vs_live(); { int k = (int)vs_choice("later", BOUND(2, 3)); for (int i = 0; i < k * 7; i++) LoremIpsum(1, LoremIpsumCasing::AllWordsLowerCase);
  vint n = vs_choice("length", BOUND(37, 63)) - 2; WString s = LoremIpsumParagraph(n); vint e = s.Length(); const wchar_t* b = s.Buffer(); A(b[e] == 0, "terminated");
  if (n <= 0) { A(e == 0, "nothing for nothing"); return; } A(e > 0 && b[e - 1] == L'.', "a paragraph ends with a period"); A(gap(e, n) <= 16, "close to the requested length");
  vint i = 0; bool firstUp = true; while (i < e) { vint j = i; while (j < e && b[j] != L'.' && b[j] != L',') j++; A(j < e, "terminators"); if (n > 1) A(j > i, "no empty sentence"); words(b, i, j, firstUp, false); firstUp = b[j] == L'.'; if (j + 1 == e) { A(firstUp, "the last clause ends with a period"); break; } A(b[j + 1] == L' ', "a space behind a terminator"); i = j + 2; A(i < e, "text behind a space"); }
  vs_reach("paragraph"); } A(vs_live() == live, "everything is released");
}
