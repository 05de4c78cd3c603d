import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saserver_src import SRC, QUIET
BOUNDS = "3 clients (thorough 4), minimum 2 or 3; from the start of every round, every sequence of 3 or 4 (thorough 5) events among advancing, running or aborting, expected, repeated and misplaced messages, clients leaving and being dropped, and every sequence of 6 (thorough 7) up to renaming of clients without drops and misplaced messages; any 32-bit client number; round 2 in or out of line"
OUTSIDE = "more clients and longer sequences; contents of messages (S05, S09)"
ASSUMPTIONS = ["events reach the server one at a time"]
UNITS = {"count": dict(harness="count.cc", sources=SRC, rt=["crypto.cc"], incl_first=QUIET)}
JOBS = []
def add(name, tier="both", reach=("end",), **p):
    JOBS.append(dict(unit="count", name=name, params={k.rstrip("_"): v for k, v in p.items()}, reach=list(reach), tier=tier, timeout=400 if tier == "both" else 3000))
R = {0: ("end", "aborted"), 1: ("end", "aborted"), 2: ("end", "aborted"), 3: ("end", "aborted"), 4: ("end", "completed")}
for st in range(5):
    add("from round %d" % st, n=3, t=2, start=st, steps=4 if st in (2, 3) else 3, reach=R[st] if st > 1 else ("end", "aborted"))
    add("long, from round %d" % st, n=3, t=2, start=st, steps=6, few=1, sym=1, reach=R[st] + (("completed",) if st == 3 else ()))
    add("any client, from round %d" % st, n=3, t=2, start=st, steps=2, anyid=1, reach=("known", "unknown"))
    add("from round %d, deeper" % st, "thorough", n=3, t=2, start=st, steps=5)
    add("from round %d, 4 clients" % st, "thorough", n=4, t=3, start=st, steps=4)
    add("longer, from round %d" % st, "thorough", n=4, t=2, start=st, steps=7, few=1, sym=1)
add("asynchronous, from round 2", n=3, t=2, start=2, steps=4, async_=1, few=1, reach=R[2])
add("all needed, from round 3", n=3, t=3, start=3, steps=3, reach=("end", "aborted"))
add("asynchronous, from round 2, deeper", "thorough", n=3, t=2, start=2, steps=5, async_=1, reach=R[2])
