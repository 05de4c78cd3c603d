// Thread pool and workers under every schedule within the preemption bound.
#include <memory>
#include <vector>
#include "fcp/base/scheduler.h"
#include "vfabsl/sync.h"
#include "vf.h"
using namespace fcp;
static int ran[8], active, order[8], norder; static bool in_worker[2];
static void body(int i) { active++; vfs::point("task"); vf_assert(i >= 0 && i < 8, "task"); ran[i]++; vf_assert(ran[i] == 1, "a task runs at most once"); active--; }
static void idle(int n, const char* msg) { vf_assert(active == 0, "no task is running when the pool is idle"); for (int i = 0; i < n; i++) vf_assert(ran[i] == 1, msg); }
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), threads = (int)vf_param("threads", 2), n = (int)vf_param("tasks", 3);
  auto pool = CreateThreadPoolScheduler(threads);
  if (mode == 0) {  // independent tasks
    for (int i = 0; i < n; i++) pool->Schedule([i] { body(i); });
    pool->WaitUntilIdle(); idle(n, "every scheduled task has run once the pool is idle");
    if (vf_param("again", 0)) { pool->Schedule([n] { body(n); }); pool->WaitUntilIdle(); idle(n + 1, "every scheduled task has run once the pool is idle"); }
    vf_reach("idle");
  } else if (mode == 1) {  // tasks that schedule tasks
    Scheduler* p = pool.get();
    p->Schedule([p, n] { body(0); for (int i = 1; i < n; i++) p->Schedule([i] { body(i); }); });
    p->WaitUntilIdle(); idle(n, "tasks scheduled by tasks have run once the pool is idle");
    vf_reach("idle");
  } else if (mode == 2) {  // one worker: strict order, no overlap
    auto w = pool->CreateWorker();
    for (int i = 0; i < n; i++) w->Schedule([i] { vf_assert(!in_worker[0], "tasks of a worker do not overlap"); in_worker[0] = true; body(i); order[norder++] = i; in_worker[0] = false; });
    pool->WaitUntilIdle(); idle(n, "every task of a worker has run once the pool is idle");
    for (int i = 0; i < n; i++) vf_assert(order[i] == i, "tasks of a worker run in submission order");
    w.reset(); vf_reach("idle");
  } else if (mode == 3) {  // a worker's task adds to its own worker, the caller adds too
    auto w = pool->CreateWorker(); Worker* q = w.get();
    q->Schedule([q] { in_worker[0] = true; body(0); q->Schedule([] { vf_assert(!in_worker[0], "tasks of a worker do not overlap"); body(1); }); vfs::point("task"); in_worker[0] = false; });
    q->Schedule([] { vf_assert(!in_worker[0], "tasks of a worker do not overlap"); in_worker[0] = true; body(2); vfs::point("task"); in_worker[0] = false; });
    pool->WaitUntilIdle(); idle(3, "every task of a worker has run once the pool is idle");
    w.reset(); vf_reach("idle");
  } else if (mode == 4) {  // two workers, each in order
    auto a = pool->CreateWorker(), b = pool->CreateWorker(); static int last[2] = {-1, -1};
    for (int i = 0; i < n; i++) { int k = i % 2; (k ? b : a)->Schedule([i, k] { vf_assert(!in_worker[k], "tasks of a worker do not overlap"); in_worker[k] = true; body(i); vf_assert(last[k] < i, "tasks of a worker run in submission order"); last[k] = i; in_worker[k] = false; }); }
    pool->WaitUntilIdle(); idle(n, "every task of the workers has run once the pool is idle");
    a.reset(); b.reset(); vf_reach("idle");
  } else {  // tasks submitted from two threads
    Scheduler* p = pool.get(); struct A { Scheduler* p; } arg{p};
    int t = vfs::spawn([](void* a) { Scheduler* p = ((A*)a)->p; p->Schedule([] { body(0); }); p->Schedule([] { body(1); }); }, &arg);
    p->Schedule([] { body(2); });
    vfs::join(t); p->WaitUntilIdle(); idle(3, "tasks of all submitters have run once the pool is idle");
    vf_reach("idle");
  }
  pool.reset();
  vf_reach("destroyed");
}
