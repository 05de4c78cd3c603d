import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saserver_src import SRC, QUIET
BOUNDS = "up to 3 partial results per batch with any 64-bit values, two batches, delayed work, cancellation at any point; parallel tasks on threads of their own, one sequential thread and the owner; every schedule with at most 3 preemptions (1 with three tasks; thorough up to 4) at synchronisation points. In a server session of 3 clients: every order of the queued tasks of round 2 and of the last step, the observer set and the session aborted (and possibly destroyed) after any number of them"
OUTSIDE = "more tasks or preemptions; weak memory effects; the combination functions used by the server (S05)"
ASSUMPTIONS = ["the sequential scheduler runs one task at a time in order (B01)", "sequentially consistent memory"]
UNITS = {"acc": dict(harness="acc.cc", sources=["fcp/secagg/server/secagg_scheduler.cc", "fcp/base/scheduler.cc", "fcp/base/clock.cc", "fcp/base/simulated_clock.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]),
         "server": dict(harness="server.cc", sources=SRC, rt=["crypto.cc"], incl_first=QUIET)}
JOBS = []
def add(name, tier="both", reach=["complete"], **p):
    JOBS.append(dict(unit="acc", name=name + "".join(" %s=%d" % x for x in p.items() if x[0] != "mode"), params=p, reach=reach, tier=tier, timeout=300 if tier == "both" else 3000))
for k in (1, 2):
    add("observed", mode=0, tasks=k, preempt=4 if k == 1 else 3, poll=1)
    add("two batches", mode=1, tasks=k, preempt=3 if k == 1 else 2)
    add("cancelled", reach=["early", "late"], mode=2, tasks=k, preempt=4 if k == 1 else 3)
    add("chained", mode=4, tasks=k, preempt=3 if k == 1 else 2)
    add("callback", mode=5, tasks=k, preempt=3 if k == 1 else 2)
add("observed", mode=0, tasks=3, preempt=1)
add("delayed", mode=3, preempt=3)
add("observed", "thorough", mode=0, tasks=2, preempt=4); add("observed", "thorough", mode=0, tasks=3, preempt=2); add("cancelled", "thorough", ["early", "late"], mode=2, tasks=2, preempt=4); add("chained", "thorough", mode=4, tasks=2, preempt=3)

for r in (2, 3): JOBS.append(dict(unit="server", name="server, round %d" % r, params=dict(round=r), reach=["told", "aborted"], tier="both", timeout=400))
