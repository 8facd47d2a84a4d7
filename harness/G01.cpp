// sources: Basic.cpp Exception.cpp GlobalStorage.cpp Strings/String.cpp
// models: libc
// bounds: every history of 5 (thorough 6) operations (use one of four storages, ask whether it is initialised, finalise one, finalise all, use one from inside another's or its own initialisation) with values of all contents; every order of first use, so of registration; storages registered directly and through the macros
// outside: a finaliser that uses another storage; several threads; storages that are themselves destroyed before the last finalisation; exceptions out of an initialiser
#include "vs.h"
#include "GlobalStorage.h"
using namespace vl;
static const int N = 4; static int inits[N], finals[N]; static bool on[N]; static uint64_t val[N]; static uint64_t limit; // the initialiser of B uses A when its value is below the limit
 static int order[16], orderN;
struct Held { int id; uint64_t v; Held(int i, uint64_t x) : id(i), v(x) {} ~Held() { v = ~v; } };
static void began(int i) { A(!on[i], "initialised once until finalised"); on[i] = true; inits[i]++; } static void ended(int i) { A(on[i], "finalised only when initialised"); on[i] = false; finals[i]++; if (orderN < 16) order[orderN++] = i; }
EXTERN_GLOBAL_STORAGE_CLASS(StA)
BEGIN_GLOBAL_STORAGE_CLASS(StB) Ptr<Held> held; INITIALIZE_GLOBAL_STORAGE_CLASS began(1); held = Ptr(new Held(1, val[1])); if (val[1] < limit) GetStA(); FINALIZE_GLOBAL_STORAGE_CLASS ended(1); held = nullptr; END_GLOBAL_STORAGE_CLASS(StB)
BEGIN_GLOBAL_STORAGE_CLASS(StA) Ptr<Held> held; INITIALIZE_GLOBAL_STORAGE_CLASS began(0); held = Ptr(new Held(0, val[0])); FINALIZE_GLOBAL_STORAGE_CLASS ended(0); held = nullptr; END_GLOBAL_STORAGE_CLASS(StA)
BEGIN_GLOBAL_STORAGE_CLASS(StC) Ptr<Held> held; WString text; INITIALIZE_GLOBAL_STORAGE_CLASS began(2); if (val[2] < limit) EnsureInitialized(); A(IsInitialized(), "not initialised again by its own initialiser"); held = Ptr(new Held(2, val[2])); FINALIZE_GLOBAL_STORAGE_CLASS ended(2); held = nullptr; END_GLOBAL_STORAGE_CLASS(StC)
struct Own : GlobalStorage { Ptr<Held> held; void InitializeResource() override { began(3); held = Ptr(new Held(3, val[3])); } void FinalizeResource() override { ended(3); held = nullptr; } };
static Own* own; static GlobalStorageDescriptor* ownDesc;
static Held* use(int i) { switch (i) { case 0: return GetStA().held.Obj(); case 1: return GetStB().held.Obj(); case 2: return GetStC().held.Obj(); default: own->EnsureInitialized(); return own->held.Obj(); } }
static GlobalStorage* raw(int i) { return i == 0 ? (GlobalStorage*)&GetStA() : i == 1 ? (GlobalStorage*)&GetStB() : i == 2 ? (GlobalStorage*)&GetStC() : own; }
VS_ENTRY(histories) { // shards=8 tshards=24
  for (int i = 0; i < N; i++) val[i] = vs_u64("value"); limit = vs_u64("limit"); vint base = vs_live(); own = new Own; ownDesc = new GlobalStorageDescriptor; ownDesc->globalStorage = own; int when = (int)vs_choice("registered", 3); if (when == 0) RegisterStorageDescriptor(ownDesc);
  bool want[N] = {}; int wi[N] = {}, wf[N] = {}; bool made[N] = { false, false, false, true }; auto touched = [&](int i) { made[i] = true; if (!want[i]) { want[i] = true; wi[i]++; return true; } return false; };
  for (int q = 0; q < BOUND(5, 6); q++) {
    if (q == 1 && when == 1) RegisterStorageDescriptor(ownDesc); if (q == 3 && when == 2) RegisterStorageDescriptor(ownDesc); bool reg = when == 0 || (when == 1 && q >= 1) || (when == 2 && q >= 3);
    int op = (int)vs_choice("op", 7);
    if (op < 4) { if (op == 3 && !reg) { A(!own->IsInitialized(), "not initialised before use"); continue; } Held* h = use(op); if (touched(op) && op == 1 && val[1] < limit) touched(0); A(h != nullptr, "available"); A(h->id == op, "the storage's own value"); A(h->v == val[op], "what it was initialised with"); A(raw(op)->IsInitialized(), "initialised after use"); }
    else if (op == 4) { int i = (int)vs_choice("which", N); if (!made[i]) continue; if (i == 3) { own->EnsureFinalized(); if (want[3]) { want[3] = false; wf[3]++; } A(!own->IsInitialized(), "not initialised after finalising"); } else { GlobalStorage* g = raw(i); if (touched(i) && i == 1 && val[1] < limit) touched(0); g->EnsureFinalized(); want[i] = false; wf[i]++; A(!g->IsInitialized(), "not initialised after finalising"); g->EnsureFinalized(); A(!g->IsInitialized(), "finalising twice"); } }
    else if (op == 5) { FinalizeGlobalStorage(); for (int i = 0; i < N; i++) if (want[i]) { want[i] = false; wf[i]++; } A(!own->IsInitialized(), "nothing stays initialised"); vs_reach("finalised"); }
    else { for (int i = 0; i < N; i++) val[i] = val[i] ^ (uint64_t)(want[i] ? 0 : 1 + i); } // later initialisations see later values
    for (int i = 0; i < N; i++) { A(inits[i] == wi[i], "initialised exactly when first used"); A(finals[i] == wf[i], "finalised exactly when it was initialised"); A(on[i] == want[i], "state"); }
  }
  FinalizeGlobalStorage(); for (int i = 0; i < N; i++) { A(!on[i], "everything is finalised"); A(inits[i] == finals[i], "finalised as often as initialised"); } FinalizeGlobalStorage(); for (int i = 0; i < N; i++) A(inits[i] == finals[i], "finalising twice");
  if (when != 0) { } A(vs_live() == base + 2, "what the storages hold is released"); vs_reach("histories");
}
