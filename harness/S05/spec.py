import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saserver_src import ALL, QUIET
BOUNDS = "2 to 4 clients with a complete graph and 5 with a ring (thorough 5 and 6), every client staying, falling silent before any of its messages, leaving right after it or (messages 3 and 4; thorough all) instead of it; rounds ended as soon as possible or after all messages; round 2 in or out of line, work of the queues in any order; one or two vectors of one to three elements, moduli 2, 2^8, 2^16, 2^20, 2^32, 2^62, 10 and 127, every input and the first key stream bytes symbolic"
OUTSIDE = "more clients (the removal of masks on its own is checked for up to 100 keys); other moduli and longer vectors (S02, S03); several threads at once (S11 covers the accumulators)"
ASSUMPTIONS = ["AES-GCM, AES-CTR, SHA-256 and P-256 are ideal; key streams are arbitrary bytes fixed by key and IV", "generated keys are fixed distinct values", "clients follow the protocol (S09 covers those that do not)"]
UNITS = {"keys": dict(harness="keys.cc", sources=ALL, rt=["crypto.cc"], incl_first=QUIET), "sum": dict(harness="sum.cc", sources=ALL, rt=["crypto.cc"], incl_first=QUIET)}
JOBS = []
def add(name, tier="both", reach=("all", "some"), flags=(), **p):
    JOBS.append(dict(unit="sum", name=name, params={k.rstrip('_'): v for k, v in p.items()}, flags=list(flags), reach=list(reach), tier=tier, timeout=400 if tier == "both" else 3000))
for m in (1, 8, 32, 62):
    add("3 clients, 2^%d" % m, n=3, t=2, modulus=m, hi=8, reach=("all", "some", "aborted", "waiting"))
add("3 clients, modulus 10", flags=["--int"], n=3, t=2, first=0, pow2=0, modulus=10, hi=1)
add("2 clients, modulus 10", flags=["--int"], n=2, t=2, pow2=0, modulus=10, hi=1, reach=("all", "waiting"))
add("3 clients, modulus 127", flags=["--int"], n=3, t=2, first=0, pow2=0, modulus=127, hi=1)
add("3 clients, all needed", n=3, t=3, modulus=16, reach=("all", "aborted", "waiting"))
add("3 clients, two vectors", n=3, t=2, modulus=20, hi=16, len=2, vectors=2)
def seen(f, small): return ("some",) if f in (1, 2, 3, 5, 6, 9, 11, 12) else ("all",) if f == 7 or f in (4, 10) and small else ("all", "some")
for f in range(11):
    add("4 clients, first leaves %d" % f, n=4, t=2 + f % 2, first=f, reach=seen(f, False))
    add("3 clients, rounds end early, %d" % f, n=3, t=2, eager=1, first=f, reach=seen(f, True))
    add("3 clients, asynchronous, %d" % f, n=3, t=2, async_=1, order=1, first=f, reach=seen(f, True))
    add("3 clients, work in any order, %d" % f, n=3, t=2, late_order=1, first=f, reach=seen(f, True))
for f in range(5):
    add("5 clients, ring, %d" % f, n=5, t=2, sub=1, first=f, kinds=5, reach=("some", "too few neighbours") if f else ("all", "some", "too few neighbours"))
for f in range(13):
    add("4 clients, first leaves %d, all ways" % f, "thorough", n=4, t=2, first=f, kinds=13, reach=())
    add("5 clients, first leaves %d" % f, "thorough", n=5, t=3, first=f, kinds=9, reach=())
    add("4 clients, rounds end early, %d" % f, "thorough", n=4, t=2, eager=1, first=f, reach=())
    add("5 clients, ring, %d, all ways" % f, "thorough", n=5, t=2, sub=1, first=f, reach=())
    add("6 clients, ring, %d" % f, "thorough", n=6, t=3, sub=1, first=f, kinds=5, reach=())
add("4 clients, modulus 10", "thorough", flags=["--int"], n=4, t=2, first=0, kinds=5, pow2=0, modulus=10, hi=1)
for a, b in ((0, 31), (0, 32), (0, 33), (1, 65), (31, 1), (32, 2), (33, 64), (65, 3), (35, 100)):
    JOBS.append(dict(unit="keys", name="%d masks to add and %d to remove" % (a, b), params=dict(add=a, sub=b), reach=["removed"], tier="both", timeout=400))
