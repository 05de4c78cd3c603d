// Accumulators of partial results under every schedule within the preemption bound.
#include <deque>
#include <memory>
#include <vector>
#include "fcp/base/scheduler.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "vfabsl/sync.h"
#include "vf.h"
using namespace fcp; using namespace fcp::secagg;
static int live;  // threads that have not finished
typedef std::function<void()> Fn;
// Runs every task on a thread of its own.
struct Parallel : Scheduler {
  void Schedule(Fn f) override { live++; vfs::spawn([](void* p) { std::unique_ptr<Fn> f((Fn*)p); (*f)(); f.reset(); live--; }, new Fn(std::move(f))); vfs::point("parallel"); }
  void WaitUntilIdle() override { vfs::block([](void*) { return live == 0; }, nullptr, false, "idle"); }
};
// Runs tasks one after another.
struct Sequential : Scheduler {
  std::deque<Fn> q; bool running = false;
  void Schedule(Fn f) override {
    q.push_back(std::move(f));
    if (!running) { running = true; live++; vfs::spawn([](void* p) { auto s = (Sequential*)p; while (!s->q.empty()) { Fn f = std::move(s->q.front()); s->q.pop_front(); f(); f = nullptr; vfs::point("next"); } s->running = false; live--; }, this); }
    vfs::point("sequential");
  }
  void WaitUntilIdle() override { vfs::block([](void*) { return live == 0; }, nullptr, false, "idle"); }
};
static Parallel par; static Sequential seq;
static uint64_t value[6]; static int made[6], folds, folding, signals, signalled_at; static bool stop;
static std::unique_ptr<uint64_t> Make(int i) { vf_assert(!stop, "nothing is computed after cancellation"); vf_assert(++made[i] == 1, "each partial result is computed once"); vfs::point("generate"); vf_assert(!stop, "cancellation waits for running work"); return std::make_unique<uint64_t>(value[i]); }
static std::unique_ptr<uint64_t> Fold(const uint64_t& a, const uint64_t& b) { vf_assert(!stop, "nothing is combined after cancellation"); vf_assert(folding++ == 0, "results are combined one at a time"); uint64_t r = a + b; vfs::point("fold"); vf_assert(!stop, "cancellation waits for running work"); folding--; folds++; return std::make_unique<uint64_t>(r); }
static void Signal() { signals++; signalled_at = folds; }
static void check(Accumulator<uint64_t>& a, int k) {
  uint64_t want = 0; for (int i = 0; i < k; i++) { want += value[i]; vf_assert(made[i] == 1, "each partial result is computed once"); }
  vf_assert(folds == k, "each partial result is combined once"); vf_assert(a.IsIdle(), "finished work leaves the accumulator idle");
  auto r = a.GetResultAndCancel(); vf_assert(r && *r == want, "the total is the combination of all partial results");
}
extern "C" void vf_main() {
  int mode = vf_param("mode", 0), k = vf_param("tasks", 2);
  SimulatedClock clock(absl::FromUnixSeconds(100)); SecAggScheduler s(&par, &seq, &clock);
  for (int i = 0; i < 6; i++) value[i] = vf_u64("partial result");
  auto acc = s.CreateAccumulator<uint64_t>(std::make_unique<uint64_t>(0), Fold);
  vf_assert(acc->IsIdle(), "a new accumulator is idle");
  if (mode == 0) {
    // the observer is set after the work was scheduled
    vf_assert(!acc->SetAsyncObserver(Signal), "no work, no completion");
    for (int i = 0; i < k; i++) acc->Schedule([i] { return Make(i); });
    if (vf_param("poll", 0) && acc->IsIdle()) vf_assert(folds == k, "an idle accumulator has combined everything");
    vf_assert(acc->SetAsyncObserver(Signal), "scheduled work can be observed");
    s.WaitUntilIdle();
    vf_assert(signals == 1, "completion is signalled exactly once"); vf_assert(signalled_at == k, "completion is signalled after all work");
    vf_assert(!acc->SetAsyncObserver(Signal), "observed work is not signalled again");
    s.WaitUntilIdle(); vf_assert(signals == 1, "completion is signalled exactly once");
    check(*acc, k); vf_reach("complete");
  } else if (mode == 1) {
    // two batches
    for (int i = 0; i < k; i++) acc->Schedule([i] { return Make(i); });
    vf_assert(acc->SetAsyncObserver(Signal), "scheduled work can be observed");
    s.WaitUntilIdle(); vf_assert(signals == 1 && signalled_at == k, "the first batch is signalled");
    for (int i = k; i < k + 1; i++) acc->Schedule([i] { return Make(i); });
    vf_assert(acc->SetAsyncObserver(Signal), "the second batch can be observed");
    s.WaitUntilIdle(); vf_assert(signals == 2 && signalled_at == k + 1, "the second batch is signalled");
    check(*acc, k + 1); vf_reach("complete");
  } else if (mode == 2) {
    // cancellation while work is under way
    for (int i = 0; i < k; i++) acc->Schedule([i] { return Make(i); });
    if (vf::flag("observed")) acc->SetAsyncObserver(Signal);
    acc->Cancel();
    stop = true; vf_assert(folding == 0, "cancellation waits for running work"); int f = folds;
    if (vf::flag("again")) acc->Cancel();
    s.WaitUntilIdle();
    vf_assert(folds == f, "nothing is combined after cancellation"); vf_assert(signals <= 1, "completion is signalled at most once"); if (signals) vf_assert(signalled_at == k, "completion is signalled only after all work");
    for (int i = 0; i < k; i++) vf_assert(made[i] <= 1, "each partial result is computed at most once");
    vf_reach(f == k ? "late" : "early");
  } else if (mode == 3) {
    // work that is scheduled with a delay
    acc->Schedule([] { return Make(0); }, absl::Seconds(5)); acc->Schedule([] { return Make(1); });
    vf_assert(acc->SetAsyncObserver(Signal), "scheduled work can be observed");
    s.WaitUntilIdle(); vf_assert(signals == 0 && made[0] == 0 && made[1] == 1 && !acc->IsIdle(), "delayed work is waited for");
    clock.AdvanceTime(absl::Seconds(4)); s.WaitUntilIdle(); vf_assert(made[0] == 0, "work is delayed as long as asked");
    clock.AdvanceTime(absl::Seconds(1)); s.WaitUntilIdle();
    vf_assert(signals == 1 && signalled_at == 2, "completion is signalled exactly once, after all work"); check(*acc, 2); vf_reach("complete");
  } else if (mode == 4) {
    // the observer's callback schedules more work, as the next round of the protocol does
    static std::shared_ptr<Accumulator<uint64_t>> a2; a2 = acc; static int n; n = k;
    for (int i = 0; i < k; i++) acc->Schedule([i] { return Make(i); });
    vf_assert(acc->SetAsyncObserver([] { Signal(); vf_assert(folds == n, "completion is signalled after all work"); a2->Schedule([] { return Make(n); }); a2->SetAsyncObserver(Signal); }), "scheduled work can be observed");
    s.WaitUntilIdle(); vf_assert(signals == 2 && signalled_at == k + 1, "each batch is signalled once"); check(*acc, k + 1); a2.reset(); vf_reach("complete");
  } else {
    // callbacks run one at a time with the combination of results
    static int in = 0; for (int i = 0; i < k; i++) acc->Schedule([i] { return Make(i); });
    static int ran = 0; s.ScheduleCallback([] { vf_assert(folding == 0 && in++ == 0, "callbacks do not overlap other sequential work"); vfs::point("callback"); vf_assert(folding == 0, "callbacks do not overlap other sequential work"); in--; ran++; });
    s.WaitUntilIdle(); vf_assert(ran == 1, "a callback runs once"); check(*acc, k); vf_reach("complete");
  }
}
