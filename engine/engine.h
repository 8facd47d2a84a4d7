#pragma once
#include "expr.h"
#include <set>
#include <functional>

struct V { uint64_t c = 0; E e = nullptr; };   // width is implied by the instruction

// ------------------------------------------------------------ memory objects
enum OKind : uint8_t { KGlobal, KStack, KMalloc, KNew, KNewArr, KExc, KFunc };
struct SymB { E e; uint8_t idx; };             // byte idx of expression e
static E const UNINIT = (E)(uintptr_t)8;
struct Object {
  int rc = 1; uint32_t size = 0; OKind kind; bool ro = false, allUninit = false; uint32_t site = 0, fillPhase = 0;
  std::vector<uint8_t> data; std::vector<SymB> sym;    // sym empty: all concrete (or all uninit)
};
struct ObjP {
  Object* p = nullptr;
  ObjP() {} explicit ObjP(Object* o) : p(o) {} ObjP(const ObjP& o) : p(o.p) { if (p) p->rc++; } ObjP(ObjP&& o) : p(o.p) { o.p = nullptr; }
  ObjP& operator=(const ObjP& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; }
  ObjP& operator=(ObjP&& o) { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
  ~ObjP() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
static const int CH = 64;
struct Chunk { int rc = 1; ObjP o[CH]; };
struct ChunkP { Chunk* p = nullptr; ChunkP() {} ChunkP(const ChunkP& o) : p(o.p) { if (p) p->rc++; } ChunkP(ChunkP&& o) : p(o.p) { o.p = nullptr; }
  ChunkP& operator=(const ChunkP& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } ~ChunkP() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } };

// ------------------------------------------------------------ compiled code
struct Edge { int32_t target; uint32_t ncopy; uint32_t copyBase; };  // copies: (dst, src) pairs in Fn::copies
struct Fn;
struct Ins {
  uint16_t op; uint8_t w, w2; int32_t dst; int32_t a, b, c; uint32_t x, y; const void* I; uint32_t line; uint32_t cnt;
};
struct FnImpl;

typedef std::vector<uint32_t> VC;
struct Frame {
  int rc = 1; FnImpl* fn; int32_t pc = 0; std::vector<V> regs; std::vector<uint32_t> allocas; uint64_t vaArea = 0; uint8_t onRet = 0; uint64_t retArg = 0;
};
struct FrameP { Frame* p = nullptr; FrameP() {} explicit FrameP(Frame* f) : p(f) {} FrameP(const FrameP& o) : p(o.p) { if (p) p->rc++; } FrameP(FrameP&& o) : p(o.p) { o.p = nullptr; }
  FrameP& operator=(const FrameP& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } FrameP& operator=(FrameP&& o) { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
  ~FrameP() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } };

struct ExcInfo { uint64_t tinfo = 0, dtor = 0; int handlers = 0; uint64_t adjusted = 0; bool rethrown = false; };
struct Thread { std::vector<FrameP> frames; std::vector<uint64_t> caught; bool done = false, blocked = false; VC vc; };
struct RaceInfo { std::map<int, std::pair<uint32_t, uint32_t>> acc; };  // tid -> (last write clock, last read clock)
struct Input { std::string name; E e; uint64_t c; uint8_t w; };
struct State {
  std::vector<ChunkP> mem; uint32_t nobj = 1; std::vector<Thread> th; int cur = 0;
  std::vector<E> path; AssignP model; uint32_t nvars = 0; std::vector<Input> inputs;
  std::map<uint64_t, ExcInfo> exc; std::vector<std::pair<uint64_t, uint64_t>> atexitL; std::vector<std::pair<uint64_t, uint64_t>> pending; size_t pendingPos = 0;
  int64_t live = 0; int64_t liveAll = 0; bool heapDesc = false; uint64_t steps = 0; bool schedPoint = false; uint64_t forks = 0; bool preempt = true; int preemptLeft = -1;
  std::map<std::pair<uint32_t, uint32_t>, RaceInfo> races; std::map<uint64_t, VC> atomVC;
  std::vector<std::string> trace; std::vector<int> sched; std::string note; bool shardDone = false; uint64_t shardAcc = 0, shardProd = 1;
};
