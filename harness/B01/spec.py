BOUNDS = "pools of 1..3 threads, up to 5 tasks, up to two workers, tasks that schedule tasks, two submitting threads; every schedule with at most 2 preemptions (1 for pools of 3 threads, thorough up to 4) at synchronisation points and every choice at blocking points; up to one spurious wake-up"
OUTSIDE = "more threads, tasks or preemptions; weak memory effects"
ASSUMPTIONS = ["threads interleave at synchronisation operations (mutex, condition variable, thread start and end) and at marked points inside tasks", "sequentially consistent memory"]
UNITS = {"sched": dict(harness="sched.cc", sources=["fcp/base/scheduler.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
JOBS = []
def add(name, tier="both", **p):
    JOBS.append(dict(unit="sched", name=name + "".join(" %s=%d" % x for x in p.items() if x[0] != "mode"), params=p, reach=["idle", "destroyed"], tier=tier, timeout=300 if tier == "both" else 3000))
for t in (1, 2, 3):
    add("independent tasks", mode=0, threads=t, tasks=3, preempt=2 if t < 3 else 1)
    add("tasks scheduling tasks", mode=1, threads=t, tasks=3, preempt=2 if t < 3 else 1)
    add("one worker", mode=2, threads=t, tasks=3, preempt=2 if t < 3 else 1)
add("one worker, more tasks", mode=2, threads=2, tasks=5, preempt=1)
add("one worker, more tasks", mode=2, threads=2, tasks=4, preempt=2)
add("worker scheduling on itself", mode=3, threads=2, preempt=2)
add("worker scheduling on itself", mode=3, threads=3, preempt=1)
add("two workers", mode=4, threads=2, tasks=4, preempt=2)
add("two submitters", mode=5, threads=1, preempt=2)
add("two submitters", mode=5, threads=2, preempt=2)
add("second batch", mode=0, threads=2, tasks=2, again=1, preempt=2)
add("spurious wake-up", mode=0, threads=2, tasks=2, preempt=1, spurious=1)
add("spurious wake-up", mode=0, threads=1, tasks=1, preempt=1, spurious=1)
for t in (2, 3):
    add("independent tasks", "thorough", mode=0, threads=t, tasks=4, preempt=4)
    add("one worker", "thorough", mode=2, threads=t, tasks=4, preempt=3)
    add("worker scheduling on itself", "thorough", mode=3, threads=t, preempt=3)
    add("two workers", "thorough", mode=4, threads=t, tasks=4, preempt=3)
