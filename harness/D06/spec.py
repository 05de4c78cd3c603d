BOUNDS = "one run with up to 3 polls (thorough 4), and two runs one after another; interruption requested at any poll; with a grace period of 30 s or none; work that reacts to the abort, ignores it or is stuck until asked; every schedule with at most 2 preemptions and every choice of timed waits expiring"
OUTSIDE = "more preemptions and polls"
ASSUMPTIONS = ["threads interleave at synchronisation operations and at marked points inside the work", "a timed wait may expire at any time, which advances the clock by its length"]
UNITS = {"u": dict(harness="run.cc", sources=["fcp/client/interruptible_runner.cc", "fcp/base/scheduler.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier)
R = ["own result", "interrupted", "not started", "done"]
JOBS = [j("one run", R + ["gave up"], preempt=2, polls=2), j("one run, longer work", R, preempt=1, polls=2, steps=3), j("no grace period", R, preempt=1, polls=1, grace=0), j("two runs", R, preempt=1, polls=1, runs=2),
        j("one run, deeper", R, "thorough", preempt=3, polls=3, steps=2), j("two runs, deeper", R, "thorough", preempt=2, polls=2, runs=2)]
