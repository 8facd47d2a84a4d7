// Sizes well beyond the exhaustive bounds: concrete structure, one operation at a chosen place with symbolic values.
#pragma once
#include "vs.h"
static const int TALLS[] = {17, 33, 65, 129, 257, 100, 16, 24, 31, 32, 48, 64, 66, 127, 128, 130, 200, 255, 256, 300};
static inline int tall(int quick = 6, int thorough = 20) { return TALLS[vs_choice("size", TIER ? thorough : quick)]; }
static inline int spot(int n) { int s[5] = {n / 2, 0, n, n - 1, 1}; return s[vs_choice("spot", 5)]; }
static inline int spotIn(int n) { int s[4] = {n / 2, 0, n - 1, 1}; return s[vs_choice("spot", 4)]; }
