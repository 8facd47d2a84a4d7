// sources: Basic.cpp Exception.cpp
// bounds: byte map: every history of 1 to 3 set operations with arbitrary 8-bit keys for one of them and keys out of 2 or 16 (thorough 16) that share leading two-bit fragments in every way for the others, setting objects or nothing, followed by a look-up of an arbitrary key; two maps sharing one allocator; node blocks of 1, 2, 3 and 65536; all 256 keys in one map; allocator: up to 12 (thorough 40) creations with block sizes 1 to 5, looked up by every 64-bit index; 17 to 257 creations with blocks of 1, 16, 64 and 100
// outside: longer histories; running out of memory; block sizes below 1
#include "coll.h"
#include "tall.h"
typedef ByteObjectMap<Obj> Map;
static Obj* const NONE = nullptr;
// the map against a table kept by the harness: last set wins
struct Table { uint8_t k[16]; int o[16]; int n = 0; int64_t find(uint8_t key) const { int64_t r = -1; for (int i = 0; i < n; i++) r = vs_ite64(k[i] == key, o[i], r); return r; } };
static const int OBJS = 4;
static void look(Map& m, const Table& t, uint8_t key, Obj* objs) { Obj* p = m.Get(key); int64_t want = t.find(key); int64_t got = p ? p - objs : -1; A(got == want, "a key has exactly the object set last, other keys have none"); }
// keys: 0 all bytes, 1 bytes whose four two-bit fragments are 0 or 3, 2 fragments 1 or 2 (every way two keys can share their leading fragments), 3 and 4 a few fixed keys
static uint8_t key(int kind) { if (kind == 0) return vs_u8("key"); if (kind == 3) return (uint8_t)(vs_choice("corner", 4) * 0x55); if (kind == 4) return (uint8_t)(vs_choice("corner", 2) * 0xFF); uint8_t b = vs_u8("key"); vs_assume(b < 16); uint8_t s = (uint8_t)((b & 1) | ((b & 2) << 1) | ((b & 4) << 2) | ((b & 8) << 3)); return kind == 1 ? (uint8_t)(s * 3) : (uint8_t)(0x55 + s); }
static void histories(int N, int k0, int k1, int k2, int block, bool two) {
  int kinds[3] = { k0, k1, k2 }; int64_t live = vs_live(); { Obj objs[OBJS]; Map::Allocator al(block); Map m[2]; Table t[2]; A(m[0].Get(key(0)) == nullptr, "a new map is empty"); for (int i = 0; i < N; i++) { int w = two ? (int)vs_choice("map", 2) : 0; uint8_t k = key(kinds[i]); int o = i == 0 ? 0 : (int)vs_choice("object", 2) * (i + 1) - 1; m[w].Set(k, o < 0 ? nullptr : &objs[o], al); if (kinds[i] == 0) k = (uint8_t)vs_concretize(k); t[w].k[t[w].n] = k; t[w].o[t[w].n++] = o; look(m[w], t[w], k, objs); } uint8_t probe = vs_u8("probe"); look(m[0], t[0], probe, objs); if (two) look(m[1], t[1], probe, objs); for (auto& o : objs) A(o.get() == 0, "objects are not touched"); } A(vs_live() == live, "all nodes released once"); vs_reach("history");
}
VS_ENTRY(map1) { histories(1, 0, 0, 0, 1, false); }
VS_ENTRY(map2) { histories(2, BOUND(4, 1), 0, 0, 3, false); } // shards=8 tshards=24
VS_ENTRY(map3) { histories(3, BOUND(4, 1), 1, 1, 2, false); } // shards=8 tshards=24
VS_ENTRY(mapOther) { histories(BOUND(2, 3), BOUND(2, 3), 2, 2, 65536, false); } // shards=2 tshards=16
VS_ENTRY(mapShared) { histories(BOUND(2, 3), BOUND(1, 4), BOUND(1, 3), 1, 2, true); } // shards=4 tshards=24
// all 256 keys set, in an order chosen by two symbolic bytes, then one overwritten
VS_ENTRY(mapFull) { // tshards=8
  int64_t live = vs_live(); { static char objs[256]; ByteObjectMap<char> m; ByteObjectMap<char>::Allocator al(7); uint8_t mask = (uint8_t)(vs_choice("mask", 2) * 0xB1); for (int i = 0; i < 256; i++) m.Set((uint8_t)(i ^ mask), &objs[i], al); uint8_t k = vs_u8("k"), q = key(BOUND(1, 0)); A(m.Get(k) == &objs[(uint8_t)(k ^ mask)], "every key has its own object"); m.Set(k, nullptr, al); A(m.Get(k) == nullptr, "set to nothing"); if (q != k) A(m.Get(q) == &objs[(uint8_t)(q ^ mask)], "other keys keep their objects"); } A(vs_live() == live, "all nodes released once"); vs_reach("full"); }
VS_ENTRY(allocator) { // shards=2
  int64_t live = vs_live(); int64_t alive = Obj::alive; { int block = 1 + (int)vs_choice("block", 5), n = (int)vs_choice("n", BOUND(13, 41)); PushOnlyAllocator<Obj> al(block); Obj* p[64]; uint32_t v[64]; A(al.Get(0) == nullptr, "nothing yet");
    for (int i = 0; i < n; i++) { p[i] = al.Create(); A(p[i] != nullptr, "created"); A(p[i]->get() == 0, "default constructed"); for (int j = 0; j < i; j++) A(p[i] != p[j], "distinct"); v[i] = vs_u32("v"); p[i]->v = v[i]; for (int j = 0; j <= i; j++) { A(al.Get(j) == p[j], "stays at its address"); A(p[j]->get() == v[j], "keeps its value"); } A(al.Get(i + 1) == nullptr, "nothing beyond the last one"); }
    int64_t x = (int64_t)vs_u64("index"); Obj* g = al.Get(x); if ((x >= 0) & (x < n)) { A(g == p[vs_concretize(x)], "addressed by index"); } else A(g == nullptr, "no object outside"); A(Obj::alive - alive >= n, "all alive"); } A(Obj::alive == alive, "every object destroyed once"); A(vs_live() == live, "all storage released"); vs_reach("allocator");
}
VS_ENTRY(defaultBlocks) { PushOnlyAllocator<char> al; char* a = al.Create(); char* b = al.Create(); A(a != b, "distinct"); *a = 1; *b = 2; A(*al.Get(0) == 1, "value"); A(*al.Get(1) == 2, "value"); A(al.Get(2) == nullptr, "nothing"); vs_reach("default"); }
VS_ENTRY(tallAllocator) { // shards=2
  int64_t live = vs_live(); int64_t alive = Obj::alive; { int blocks[4] = {1, 16, 64, 100}; int block = blocks[vs_choice("block", 4)], n = tall(); PushOnlyAllocator<Obj> al(block); Obj* p[300]; for (int i = 0; i < n; i++) { p[i] = al.Create(); A(p[i]->get() == 0, "default constructed"); p[i]->v = 3 * i + 1; } for (int i = 0; i < n; i++) { A(al.Get(i) == p[i], "stays at its address"); A(p[i]->get() == 3 * i + 1, "keeps its value"); } int64_t x = (int64_t)vs_u64("index"); vs_assume((x < 0) | (x >= n)); A(al.Get(x) == nullptr, "no object outside"); } A(Obj::alive == alive, "every object destroyed once"); A(vs_live() == live, "all storage released"); vs_reach("tall");
}
