// Cooperative scheduler: every scheduling decision is a vf_choice, bounded by a preemption budget.
#include <vector>
#include "vfabsl/sync.h"
namespace vfs {
struct T { uint32_t co = 0; bool (*ready)(void*) = nullptr; void* arg = nullptr; bool timeout = false, timed_out = false, fin = false; void (*fn)(void*) = nullptr; void* farg = nullptr; };
static std::vector<T*>* ts; static int cur; static int budget = -1; static bool in_eval;
static void init() { if (!ts) { ts = new std::vector<T*>; auto t = new T; t->co = vf_co_self(); ts->push_back(t); budget = (int)vf_param("preempt", 2); } }
int self() { return cur; }
static bool runnable(T* t) { if (t->fin) return false; if (!t->ready) return true; in_eval = true; bool r = t->ready(t->arg); in_eval = false; return r; }
static void go(int t) { int me = cur; if (t == me) return; cur = t; vf_co_switch((*ts)[t]->co); }
void point(const char*) {
  init(); if (in_eval || ts->size() == 1 || budget <= 0) return;
  int c[16], n = 0; c[n++] = cur;
  for (int i = 0; i < (int)ts->size() && n < 16; i++) if (i != cur && runnable((*ts)[i])) c[n++] = i;
  if (n == 1) return;
  uint32_t k = vf_choice((uint32_t)n, "schedule"); if (k == 0) return;
  budget--; go(c[k]);
}
static void sw(const char* what) {  // the current thread cannot continue by itself
  int c[32], n = 0; bool to[32];
  for (int i = 0; i < (int)ts->size() && n < 30; i++) { T* t = (*ts)[i]; if (runnable(t)) { to[n] = false; c[n++] = i; } else if (!t->fin && t->ready && t->timeout) { to[n] = true; c[n++] = i; } }
  if (!n) vf_fail("deadlock: no thread can make progress");
  uint32_t k = n > 1 ? vf_choice((uint32_t)n, "schedule") : 0;
  if (to[k]) (*ts)[c[k]]->timed_out = true;
  go(c[k]);
}
bool block(bool (*ready)(void*), void* arg, bool timeout, const char* what) {
  init(); T* t = (*ts)[cur];
  for (;;) {
    in_eval = true; bool r = ready(arg); in_eval = false; if (r) return true;
    t->ready = ready; t->arg = arg; t->timeout = timeout; t->timed_out = false;
    sw(what);
    t->ready = nullptr; if (t->timed_out) { t->timed_out = false; in_eval = true; bool q = ready(arg); in_eval = false; return q; }
  }
}
static void tramp(void* p) { T* t = (T*)p; t->fn(t->farg); t->fin = true; sw("exit"); vf_fail("finished thread resumed"); }
int spawn(void (*fn)(void*), void* arg) { init(); auto t = new T; t->fn = fn; t->farg = arg; ts->push_back(t); int id = (int)ts->size() - 1; t->co = vf_co_create(tramp, t); point("spawn"); return id; }
bool done(int t) { init(); return (*ts)[t]->fin; }
void join(int t) { init(); point("join"); block([](void* p) { return ((T*)p)->fin; }, (*ts)[t], false, "join"); }
void yield() { point("yield"); }
bool spurious() { static int left = (int)vf_param("spurious", 0); if (left <= 0 || !vf_choice(2, "spurious wake-up")) return false; left--; return true; }
}
