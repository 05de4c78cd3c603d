import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saserver_src import SRC, QUIET
BOUNDS = ("one hostile client of 3 (thorough: 4), any of them, sending one message of each of the six kinds in each of the five stages of a session; the others follow the protocol, before or after it, and one more client may leave. "
          "Messages: keys of 0, 32, 33, 64, 65 or 100 bytes; 0..n+1 encrypted shares of 0 or 1 byte; up to three vectors of 0..4 bytes of any content; 0..n+1 key shares, one of them of any kind and of seven lengths around the expected one; abort notices with 0..1 bytes")
OUTSIDE = "several hostile clients at once; messages longer than the bounds; more than one odd key share per response; wire parsing of the protocol buffers"
ASSUMPTIONS = ["ideal cryptography (harness/common, stubs/include/openssl)", "protocol buffer messages are the generated stand-ins of tools/protogen.py", "tracing does nothing"]
UNITS = {"hostile": dict(harness="hostile.cc", sources=SRC, rt=["crypto.cc"], incl_first=QUIET)}
JOBS = []
def add(name, tier="both", reach=("dropped",), **p):
    JOBS.append(dict(unit="hostile", name=name, params={k.rstrip("_"): v for k, v in p.items()}, reach=list(reach), tier=tier, timeout=400 if tier == "both" else 3000))
for r in range(5):
    for k in range(6):
        if r == 4 and k not in (0, 4, 5): continue
        add("round %d, message %d" % (r, k), n=3, t=2, round=r, kind=k, reach=("dropped", "accepted") if k == r + 1 and k < 5 else ("dropped",))
for r in range(4):
    add("round %d, own message last" % r, n=3, t=2, round=r, kind=r + 1, late=1, reach=("dropped", "accepted"))
for at in (0, 1, 2):
    add("round 3, one lost in round %d" % at, n=4 if at < 2 else 3, t=2, round=3, kind=4, lost=1, lost_at=at, reach=("dropped", "accepted"), tier="both" if at == 2 else "thorough")
add("round 3, one lost in round 3", n=3, t=2, round=3, kind=4, lost=1, lost_at=3, reach=("dropped",))
add("asynchronous, round 2", n=3, t=2, round=2, kind=3, async_=1, reach=("dropped", "accepted"))
add("asynchronous, round 3", n=3, t=2, round=3, kind=4, async_=1, reach=("dropped", "accepted"))
for r in range(4):
    for k in range(1, 5):
        add("4 clients, round %d, message %d" % (r, k), n=4, t=2, round=r, kind=k, tier="thorough", reach=("dropped", "accepted") if k == r + 1 else ("dropped",))
