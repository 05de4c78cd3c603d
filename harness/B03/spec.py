BOUNDS = "up to 3 timers with deadlines of -128..127 ns around the start and advances of 0..255 ns, up to 5 operations in every order; callbacks that register a timer or advance the clock; two threads with at most 3 preemptions; the real-time clock with up to 3 timers and at most 1 preemption"
OUTSIDE = "more timers, operations, threads or preemptions; setting the simulated time backwards"
ASSUMPTIONS = ["threads interleave at synchronisation operations", "the real clock advances only while the timer thread sleeps"]
UNITS = {"clock": dict(harness="clock.cc", sources=["fcp/base/simulated_clock.cc", "fcp/base/clock.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, tier="both", **p): return dict(unit="clock", name=name, params=p, reach=["settled"], tier=tier, timeout=300 if tier == "both" else 3000)
JOBS = [j("registrations and advances", mode=0, n=2, steps=4), j("registrations and advances, 3 timers", mode=0, n=3, steps=4), j("registrations and advances, long", "thorough", mode=0, n=3, steps=6),
        j("callback registers", mode=1), j("callback advances", mode=2), j("two threads", mode=3, preempt=3), j("two threads, callback registers", mode=3, preempt=3, then=1),
        j("real-time clock, 1 timer", mode=4, n=1, preempt=2), j("real-time clock, 2 timers", mode=4, n=2, preempt=1), j("real-time clock, 3 timers", mode=4, n=3, preempt=0), j("real-time clock, 3 timers, preempted", "thorough", mode=4, n=3, preempt=2)]
