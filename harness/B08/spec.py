BOUNDS = "up to 3 overlapping scopes, 6 operations (thorough 8) in every order with arbitrary whole seconds (0..65535) plus 0.375 s between them; two threads with at most 3 preemptions"
OUTSIDE = "longer histories; clocks that move backwards"
ASSUMPTIONS = ["threads interleave at synchronisation operations"]
UNITS = {"watch": dict(harness="watch.cc", sources=["fcp/base/wall_clock_stopwatch.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, tier="both", **p): return dict(unit="watch", name=name, params=p, reach=["total"], tier=tier)
JOBS = [j("scopes", mode=0, steps=6), j("scopes, long", "thorough", mode=0, steps=8), j("no-op", mode=1, steps=3), j("two threads", mode=2, preempt=3)]
