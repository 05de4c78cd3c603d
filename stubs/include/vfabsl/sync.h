// Synchronisation on cooperative threads. Every operation is a scheduling point; the scheduler
// (stubs/rt/sched.cc) lets the solver engine explore which runnable thread goes next.
#pragma once
#include "vfabsl/time.h"
namespace vfs {
int self();
void point(const char* what);                                    // possible preemption
bool block(bool (*ready)(void*), void* arg, bool timeout, const char* what);  // false: timed out
int spawn(void (*fn)(void*), void* arg);
bool done(int tid);
void join(int tid);
void yield();
bool spurious();                                                 // a condition variable wait ends without a signal
}
namespace absl {
class Condition {
 public:
  Condition(bool (*f)(void*), void* a) : f_([f, a] { return f(a); }) {}
  template <class T> Condition(bool (*f)(T*), T* a) : f_([f, a] { return f(a); }) {}
  template <class T> Condition(T* o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <class T> Condition(const T* o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  template <class T, class = decltype(&T::operator())> explicit Condition(const T* o) : f_([o] { return (*o)(); }) {}
  bool Eval() const { return f_(); }
 private: std::function<bool()> f_;
};
class Mutex {
 public:
  constexpr Mutex() {} explicit constexpr Mutex(ConstInitType) {} ~Mutex() {} Mutex(const Mutex&) = delete; Mutex& operator=(const Mutex&) = delete;
  void Lock() { vfs::point("lock"); if (w_ == vfs::self() + 1) vf_fail("deadlock: mutex locked again by its holder"); vfs::block([](void* p) { auto m = (Mutex*)p; return m->w_ == 0 && m->r_ == 0; }, this, false, "mutex"); w_ = vfs::self() + 1; }
  void Unlock() { if (w_ != vfs::self() + 1) vf_fail("mutex unlocked by a thread not holding it"); w_ = 0; vfs::point("unlock"); }
  bool TryLock() { vfs::point("trylock"); if (w_ || r_) return false; w_ = vfs::self() + 1; return true; }
  void ReaderLock() { vfs::point("rlock"); if (w_ == vfs::self() + 1) vf_fail("deadlock: reader lock while holding the writer lock"); vfs::block([](void* p) { return ((Mutex*)p)->w_ == 0; }, this, false, "reader mutex"); r_++; }
  void ReaderUnlock() { if (r_ <= 0) vf_fail("reader unlock without lock"); r_--; vfs::point("runlock"); }
  void WriterLock() { Lock(); } void WriterUnlock() { Unlock(); } bool WriterTryLock() { return TryLock(); }
  void lock() { Lock(); } void unlock() { Unlock(); } bool try_lock() { return TryLock(); } void lock_shared() { ReaderLock(); } void unlock_shared() { ReaderUnlock(); }
  void AssertHeld() const { if (w_ != vfs::self() + 1) vf_fail("AssertHeld"); } void AssertReaderHeld() const { if (w_ != vfs::self() + 1 && r_ == 0) vf_fail("AssertReaderHeld"); } void AssertNotHeld() const {}
  void Await(const Condition& c) { AwaitWithDeadline(c, InfiniteFuture()); }
  void LockWhen(const Condition& c) { Lock(); Await(c); } void WriterLockWhen(const Condition& c) { LockWhen(c); }
  bool AwaitWithTimeout(const Condition& c, Duration d) { return AwaitWithDeadline(c, Now() + d); }
  bool LockWhenWithTimeout(const Condition& c, Duration d) { Lock(); return AwaitWithTimeout(c, d); } bool LockWhenWithDeadline(const Condition& c, Time t) { Lock(); return AwaitWithDeadline(c, t); }
  bool AwaitWithDeadline(const Condition& c, Time dl) {
    if (c.Eval()) return true;
    struct A { Mutex* m; const Condition* c; } a{this, &c}; bool fin = dl != InfiniteFuture(); w_ = 0; vfs::point("await");
    bool ok = vfs::block([](void* p) { auto a = (A*)p; return a->m->w_ == 0 && a->m->r_ == 0 && a->c->Eval(); }, &a, fin, "await condition");
    if (!ok) { vfs::block([](void* p) { auto m = (Mutex*)p; return m->w_ == 0 && m->r_ == 0; }, this, false, "mutex"); if (vf::now < dl) vf::now = dl; }
    w_ = vfs::self() + 1; return ok || c.Eval();
  }
  void ForgetDeadlockInfo() {} void EnableDebugLog(const char*) {}
  int w_ = 0, r_ = 0;
};
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); } explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); } MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); } ~MutexLock() { m_->Unlock(); } MutexLock(const MutexLock&) = delete; private: Mutex* m_; };
class WriterMutexLock { public: explicit WriterMutexLock(Mutex* m) : m_(m) { m_->Lock(); } explicit WriterMutexLock(Mutex& m) : m_(&m) { m_->Lock(); } ~WriterMutexLock() { m_->Unlock(); } private: Mutex* m_; };
class ReaderMutexLock { public: explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); } explicit ReaderMutexLock(Mutex& m) : m_(&m) { m_->ReaderLock(); } ~ReaderMutexLock() { m_->ReaderUnlock(); } private: Mutex* m_; };
class MutexLockMaybe { public: explicit MutexLockMaybe(Mutex* m) : m_(m) { if (m_) m_->Lock(); } ~MutexLockMaybe() { if (m_) m_->Unlock(); } private: Mutex* m_; };
class ReleasableMutexLock { public: explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); } ~ReleasableMutexLock() { if (m_) m_->Unlock(); } void Release() { m_->Unlock(); m_ = nullptr; } private: Mutex* m_; };
class CondVar {
  struct W { bool go = false; W* next = nullptr; };
 public:
  void Wait(Mutex* m) { wait(m, false); }
  bool WaitWithDeadline(Mutex* m, Time t) { if (t == InfiniteFuture()) { wait(m, false); return false; } if (t <= Now()) { m->Unlock(); m->Lock(); return true; } bool to = wait(m, true); if (to && vf::now < t) vf::now = t; return to; }
  bool WaitWithTimeout(Mutex* m, Duration d) { return WaitWithDeadline(m, Now() + d); }
  void Signal() { vfs::point("signal"); size_t n = 0; for (W* w = h_; w; w = w->next) if (!w->go) n++; if (!n) return; size_t k = n > 1 ? vf_choice((uint32_t)n, "which waiter is signalled") : 0; for (W* w = h_; w; w = w->next) if (!w->go && k-- == 0) { w->go = true; return; } }
  void SignalAll() { vfs::point("signal"); for (W* w = h_; w; w = w->next) w->go = true; }
 private:
  bool wait(Mutex* m, bool to) {
    W w; w.next = h_; h_ = &w; if (m->w_ != vfs::self() + 1) vf_fail("condition variable wait without holding the mutex"); m->w_ = 0; vfs::point("wait");
    bool ok = vfs::spurious() || vfs::block([](void* p) { return ((W*)p)->go; }, &w, to, "condition variable");
    for (W** p = &h_; *p; p = &(*p)->next) if (*p == &w) { *p = w.next; break; }
    if (w.go) ok = true;
    vfs::block([](void* p) { auto m = (Mutex*)p; return m->w_ == 0 && m->r_ == 0; }, m, false, "mutex"); m->w_ = vfs::self() + 1; return !ok;
  }
  W* h_ = nullptr;
};
class Notification { public: Notification() {} bool HasBeenNotified() const { vfs::point("notified?"); return n_; } void Notify() { vfs::point("notify"); if (n_) vf_fail("Notify() called twice"); n_ = true; vfs::point("notified"); } void WaitForNotification() const { vfs::point("waitn"); vfs::block([](void* p) { return ((const Notification*)p)->n_; }, (void*)this, false, "notification"); }
  bool WaitForNotificationWithTimeout(Duration d) const { return WaitForNotificationWithDeadline(Now() + d); } bool WaitForNotificationWithDeadline(Time t) const { vfs::point("waitn"); if (n_) return true; if (t == InfiniteFuture()) { WaitForNotification(); return true; } bool ok = vfs::block([](void* p) { return ((const Notification*)p)->n_; }, (void*)this, true, "notification"); if (!ok && vf::now < t) vf::now = t; return n_; }
 private: bool n_ = false; };
class BlockingCounter { public: explicit BlockingCounter(int n) : n_(n) { if (n < 0) abort(); } bool DecrementCount() { vfs::point("dec"); if (n_ <= 0) vf_fail("BlockingCounter below zero"); --n_; bool z = n_ == 0; vfs::point("dec"); return z; } void Wait() { vfs::point("waitc"); vfs::block([](void* p) { return ((BlockingCounter*)p)->n_ == 0; }, this, false, "blocking counter"); } private: int n_; };
class Barrier { public: explicit Barrier(int n) : n_(n) {} bool Block() { bool l = --n_ == 0; vfs::block([](void* p) { return ((Barrier*)p)->n_ == 0; }, this, false, "barrier"); return l; } private: int n_; };
}
