// Drives an enumerator of a known sequence through an arbitrary history of advancing, restarting and copying.
#pragma once
#include "coll.h"
#include "Collections/Operation.h"
template<typename T> struct Walker {
  IEnumerator<T>* p; int pos = -1;
  Walker(IEnumerator<T>* e) : p(e) {} ~Walker() { delete p; } Walker(const Walker&) = delete;
  template<typename F> void check(int n, F&& is) { if (pos >= 0 && pos < n) { A(p->Index() == pos, "running index"); is(p->Current(), pos); } }
  template<typename F> void next(int n, F&& is) { bool more = p->Next(); if (pos < n) pos++; A(more == (pos < n), "Next tells whether there is an element"); check(n, is); }
  void reset() { p->Reset(); pos = -1; }
  template<typename F> void drain(int n, F&& is) { check(n, is); for (int k = pos; k <= n + 1; k++) next(n, is); }
};
template<typename T, typename F> static void walk(const IEnumerable<T>& e, int n, F&& is, int steps) {
  int64_t live = vs_live(); {
  Walker<T>* w = new Walker<T>(e.CreateEnumerator()); Walker<T>* other = nullptr;
  for (int i = 0; i < steps; i++) switch ((int)vs_choice("enum", 4)) {
    case 0: w->next(n, is); break;
    case 1: w->reset(); break;
    case 2: { auto c = new Walker<T>(w->p->Clone()); c->pos = w->pos; delete w; w = c; w->check(n, is); break; }
    case 3: { delete other; other = w; w = new Walker<T>(other->p->Clone()); w->pos = other->pos; break; }
  }
  w->drain(n, is); if (other) { other->drain(n, is); } delete other; delete w; }
  A(vs_live() == live, "enumerators release what they hold"); vs_reach("walk");
}
// the same for long sequences: the copy is taken at one of few places
template<typename T, typename F> static void passFew(const IEnumerable<T>& e, int n, F&& is) {
  Walker<T> w(e.CreateEnumerator()); int at[4] = {n / 2, 0, n, 1}; int mid = at[vs_choice("mid", 4)]; for (int i = 0; i < mid; i++) w.next(n, is);
  { Walker<T> c(w.p->Clone()); c.pos = w.pos; c.drain(n, is); c.reset(); c.drain(n, is); } w.drain(n, is); w.reset(); w.drain(n, is); vs_reach("pass");
}
// one enumeration front to back, then once more after a restart, with a copy taken in the middle
template<typename T, typename F> static void pass(const IEnumerable<T>& e, int n, F&& is) {
  Walker<T> w(e.CreateEnumerator()); int mid = (int)vs_choice("mid", n + 2); for (int i = 0; i < mid; i++) w.next(n, is);
  { Walker<T> c(w.p->Clone()); c.pos = w.pos; c.drain(n, is); c.reset(); c.drain(n, is); } w.drain(n, is); w.reset(); w.drain(n, is); vs_reach("pass");
}
