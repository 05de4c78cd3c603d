BOUNDS = "one or two promises, one other thread or a pool of 1..2 threads, symbolic value; every schedule with at most 3 preemptions at synchronisation points"
OUTSIDE = "more threads or preemptions; weak memory effects"
ASSUMPTIONS = ["threads interleave at synchronisation operations", "sequentially consistent memory"]
UNITS = {"future": dict(harness="future.cc", sources=["fcp/base/scheduler.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
JOBS = [dict(unit="future", name="two threads", params=dict(mode=0, preempt=3), reach=["delivered", "abandoned"]),
        dict(unit="future", name="one thread", params=dict(mode=1), reach=["delivered", "abandoned"]),
        dict(unit="future", name="replaced promise", params=dict(mode=2), reach=["replaced"]),
        dict(unit="future", name="dropped future", params=dict(mode=3), reach=["dropped"]),
        dict(unit="future", name="scheduled, one thread", params=dict(mode=4, threads=1, preempt=2), reach=["scheduled"]),
        dict(unit="future", name="scheduled, two threads", params=dict(mode=4, threads=2, preempt=2), reach=["scheduled"]),
        dict(unit="future", name="dropped task", params=dict(mode=5), reach=["droppedtask"])]
