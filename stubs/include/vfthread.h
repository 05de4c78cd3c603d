// std::thread, std::mutex and friends on cooperative threads.
#pragma once
#include <chrono>
#include <functional>
#include <memory>
#include <tuple>
#include <atomic>
#include "vfabsl/sync.h"
namespace std {
class thread {
 public:
  class id { public: id() : i(-1) {} explicit id(int x) : i(x) {} bool operator==(id o) const { return i == o.i; } bool operator!=(id o) const { return i != o.i; } bool operator<(id o) const { return i < o.i; } int i; };
  thread() noexcept : t_(-1) {} thread(thread&& o) noexcept : t_(o.t_) { o.t_ = -1; } thread(const thread&) = delete;
  template <class F, class... A, class = enable_if_t<!is_same<decay_t<F>, thread>::value>> explicit thread(F&& f, A&&... a) {
    struct B { decay_t<F> f; tuple<decay_t<A>...> a; };
    t_ = vfs::spawn([](void* p) { unique_ptr<B> b((B*)p); std::apply([&](auto&... x) { std::invoke(std::move(b->f), std::move(x)...); }, b->a); }, new B{std::forward<F>(f), tuple<decay_t<A>...>(std::forward<A>(a)...)});
  }
  thread& operator=(thread&& o) noexcept { if (t_ >= 0) vf_fail("std::terminate: joinable thread assigned"); t_ = o.t_; o.t_ = -1; return *this; }
  ~thread() { if (t_ >= 0) vf_fail("std::terminate: joinable thread destroyed"); }
  void join() { if (t_ < 0) vf_fail("join of a thread that is not joinable"); if (t_ == vfs::self()) vf_fail("deadlock: thread joins itself"); vfs::join(t_); t_ = -1; }
  void detach() { if (t_ < 0) vf_fail("detach of a thread that is not joinable"); t_ = -1; }
  bool joinable() const noexcept { return t_ >= 0; } id get_id() const noexcept { return id(t_); } static unsigned hardware_concurrency() { return 4; }
  void swap(thread& o) { int t = t_; t_ = o.t_; o.t_ = t; }
 private: int t_;
};
namespace this_thread { inline thread::id get_id() { return thread::id(vfs::self()); } inline void yield() { vfs::yield(); } template <class R, class P> void sleep_for(const chrono::duration<R, P>&) { vfs::yield(); } }
template <> struct hash<thread::id> { size_t operator()(thread::id i) const { return (size_t)i.i; } };
class mutex : public absl::Mutex { public: constexpr mutex() {} };
class recursive_mutex { public: void lock() { if (o_ == vfs::self() + 1) { n_++; return; } m_.Lock(); o_ = vfs::self() + 1; n_ = 1; } void unlock() { if (--n_ == 0) { o_ = 0; m_.Unlock(); } } bool try_lock() { if (o_ == vfs::self() + 1) { n_++; return true; } if (!m_.TryLock()) return false; o_ = vfs::self() + 1; n_ = 1; return true; } private: absl::Mutex m_; int o_ = 0, n_ = 0; };
class shared_mutex : public absl::Mutex { public: constexpr shared_mutex() {} bool try_lock_shared() { if (w_) return false; r_++; return true; } }; using timed_mutex = mutex;
struct defer_lock_t {}; struct try_to_lock_t {}; struct adopt_lock_t {}; inline constexpr defer_lock_t defer_lock{}; inline constexpr try_to_lock_t try_to_lock{}; inline constexpr adopt_lock_t adopt_lock{};
template <class M> class lock_guard { public: explicit lock_guard(M& m) : m_(m) { m_.lock(); } lock_guard(M& m, adopt_lock_t) : m_(m) {} ~lock_guard() { m_.unlock(); } lock_guard(const lock_guard&) = delete; private: M& m_; };
template <class... M> class scoped_lock { public: explicit scoped_lock(M&... m) : m_(m...) { std::apply([](auto&... x) { (x.lock(), ...); }, m_); } ~scoped_lock() { std::apply([](auto&... x) { (x.unlock(), ...); }, m_); } private: tuple<M&...> m_; };
template <class M> class unique_lock { public: unique_lock() : m_(nullptr), o_(false) {} explicit unique_lock(M& m) : m_(&m), o_(true) { m.lock(); } unique_lock(M& m, defer_lock_t) : m_(&m), o_(false) {} unique_lock(M& m, adopt_lock_t) : m_(&m), o_(true) {} unique_lock(M& m, try_to_lock_t) : m_(&m), o_(m.try_lock()) {} unique_lock(unique_lock&& x) : m_(x.m_), o_(x.o_) { x.m_ = nullptr; x.o_ = false; } unique_lock& operator=(unique_lock&& x) { if (o_) m_->unlock(); m_ = x.m_; o_ = x.o_; x.m_ = nullptr; x.o_ = false; return *this; } ~unique_lock() { if (o_) m_->unlock(); }
  void lock() { m_->lock(); o_ = true; } void unlock() { if (!o_) vf_fail("unlock of a lock not held"); m_->unlock(); o_ = false; } bool try_lock() { return o_ = m_->try_lock(); } bool owns_lock() const { return o_; } explicit operator bool() const { return o_; } M* mutex() const { return m_; } M* release() { M* m = m_; m_ = nullptr; o_ = false; return m; }
 private: M* m_; bool o_; };
template <class M> class shared_lock { public: explicit shared_lock(M& m) : m_(m) { m.lock_shared(); } ~shared_lock() { m_.unlock_shared(); } private: M& m_; };
struct once_flag { int s = 0; }; template <class F, class... A> void call_once(once_flag& o, F&& f, A&&... a) { vfs::point("call_once"); if (o.s == 2) return; if (o.s == 1) { vfs::block([](void* p) { return ((once_flag*)p)->s == 2; }, &o, false, "call_once"); return; } o.s = 1; std::invoke(std::forward<F>(f), std::forward<A>(a)...); o.s = 2; }
enum class cv_status { no_timeout, timeout };
class condition_variable {
 public:
  void notify_one() { c_.Signal(); } void notify_all() { c_.SignalAll(); }
  void wait(unique_lock<std::mutex>& l) { c_.Wait(l.mutex()); } template <class P> void wait(unique_lock<std::mutex>& l, P p) { while (!p()) wait(l); }
  template <class R, class Q> cv_status wait_for(unique_lock<std::mutex>& l, const chrono::duration<R, Q>& d) { return c_.WaitWithTimeout(l.mutex(), absl::FromChrono(chrono::duration_cast<chrono::nanoseconds>(d))) ? cv_status::timeout : cv_status::no_timeout; }
  template <class R, class Q, class P> bool wait_for(unique_lock<std::mutex>& l, const chrono::duration<R, Q>& d, P p) { while (!p()) if (wait_for(l, d) == cv_status::timeout) return p(); return true; }
 private: absl::CondVar c_;
};
using condition_variable_any = condition_variable;
}
