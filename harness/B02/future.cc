// Futures: delivery, abandonment, readiness, delivery through a scheduler.
#include <memory>
#include <optional>
#include "fcp/base/future.h"
#include "vfabsl/sync.h"
#include "vf.h"
using namespace fcp;
using thread::Future; using thread::MakeFuture; using thread::Promise;
struct Arg { Promise<std::unique_ptr<uint32_t>> p; uint32_t v; bool set; };
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  uint32_t v = vf_u32("value");
  if (mode == 0) {  // another thread sets or abandons the promise
    auto f = MakeFuture<std::unique_ptr<uint32_t>>();
    bool set = vf::flag("set");
    Arg a{std::move(f.promise), v, set};
    int t = vfs::spawn([](void* x) { Arg* a = (Arg*)x; Promise<std::unique_ptr<uint32_t>> p = std::move(a->p); if (a->set) std::move(p).Set(std::make_unique<uint32_t>(a->v)); }, &a);
    bool ready = false; if (vf::flag("wait first")) ready = f.future.Wait(absl::Seconds(1));
    Future<std::unique_ptr<uint32_t>> g = std::move(f.future);
    if (ready) vf_assert(g.Wait(absl::ZeroDuration()), "a value that was available stays available");
    auto r = std::move(g).Take();
    vf_assert(r.has_value() == set, "a value arrives exactly when one was set");
    if (set) vf_assert(**r == v, "the value is the one that was set");
    vfs::join(t); vf_reach(set ? "delivered" : "abandoned");
  } else if (mode == 1) {  // one thread, each order of events
    auto f = MakeFuture<uint32_t>();
    vf_assert(!f.future.Wait(absl::ZeroDuration()), "not ready before a value is set");
    if (vf::flag("set")) {
      std::move(f.promise).Set(v);
      vf_assert(f.future.Wait(absl::ZeroDuration()), "ready once a value is set");
      vf_assert(f.future.Wait(absl::ZeroDuration()), "waiting does not consume the value");
      auto r = std::move(f.future).Take(); vf_assert(r.has_value() && *r == v, "the value is the one that was set");
      vf_reach("delivered");
    } else {
      { Promise<uint32_t> gone = std::move(f.promise); }
      vf_assert(f.future.Wait(absl::ZeroDuration()), "an abandoned promise makes the future ready");
      vf_assert(!std::move(f.future).Take().has_value(), "an abandoned promise yields no value");
      vf_reach("abandoned");
    }
  } else if (mode == 2) {  // a promise is replaced by another one
    auto f = MakeFuture<uint32_t>(), g = MakeFuture<uint32_t>();
    f.promise = std::move(g.promise);
    vf_assert(f.future.Wait(absl::ZeroDuration()), "an abandoned promise makes the future ready");
    vf_assert(!std::move(f.future).Take().has_value(), "an abandoned promise yields no value");
    std::move(f.promise).Set(v);
    auto r = std::move(g.future).Take(); vf_assert(r.has_value() && *r == v, "the value is the one that was set");
    vf_reach("replaced");
  } else if (mode == 3) {  // the future is dropped first
    auto f = MakeFuture<uint32_t>();
    { Future<uint32_t> gone = std::move(f.future); }
    if (vf::flag("set")) std::move(f.promise).Set(v); else { Promise<uint32_t> gone = std::move(f.promise); }
    vf_reach("dropped");
  } else if (mode == 4) {  // computed on a scheduler
    auto pool = CreateThreadPoolScheduler((size_t)vf_param("threads", 1));
    static int calls; calls = 0;
    auto f = thread::ScheduleFuture<uint32_t>(pool.get(), [v] { calls++; vfs::point("compute"); return v; });
    auto g = thread::ScheduleFuture<uint32_t>(pool.get(), [v] { return v + 1; });
    auto r = std::move(f).Take(); vf_assert(r.has_value() && *r == v, "the value is the computed one");
    auto q = std::move(g).Take(); vf_assert(q.has_value() && *q == v + 1, "the value is the computed one");
    pool->WaitUntilIdle(); vf_assert(calls == 1, "the function is called once"); pool.reset();
    vf_reach("scheduled");
  } else {  // a scheduler that drops its tasks
    struct Drop : Scheduler { void Schedule(std::function<void()>) override {} void WaitUntilIdle() override {} } drop;
    auto f = thread::ScheduleFuture<uint32_t>(&drop, [v] { return v; });
    vf_assert(!std::move(f).Take().has_value(), "a dropped computation yields no value");
    vf_reach("droppedtask");
  }
}
