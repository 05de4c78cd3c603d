import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saclient_src import SRC
BOUNDS = "2 to 4 clients (5 in the thorough check), every position, thresholds 2 and 3, every set of peers gone at key exchange or share distribution, the input provided in any round; one or two vectors of one to three elements, moduli 2, 2^8, 2^32 and 2^62 and two others, every input and the first bytes of every mask symbolic; every sequence of 5 (thorough 7) events of a session; an abort at any synchronisation point while a message is handled"
OUTSIDE = "more clients; other moduli and longer vectors (S02 and S03 cover vector packing and mask expansion on their own)"
ASSUMPTIONS = ["AES-GCM, AES-CTR, SHA-256 and P-256 are ideal; key streams are arbitrary bytes fixed by key and IV", "generated keys are fixed distinct values"]
UNITS = {"masked": dict(harness="masked.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
def up(n, t, tier="both", **p):
    JOBS.append(dict(unit="masked", name="upload, %d clients, threshold %d, %s" % (n, t, ", ".join("%s %s" % x for x in p.items())), params=dict(mode=0, n=n, t=t, **p), flags=[] if p.get("pow2", 1) else ["--int"], reach=["uploaded"] + (["few keys", "few shares"] if t > 1 else []) + (["shared"] if n > t else ["own share"]), tier=tier, timeout=300 if tier == "both" else 3000))
up(2, 2, modulus=8); up(3, 2, modulus=8); up(3, 2, modulus=1); up(3, 3, modulus=32); up(3, 2, modulus=62)
up(3, 2, modulus=8, vectors=2, len=1); up(4, 2, modulus=8); up(4, 3, modulus=8)
up(3, 2, pow2=0, modulus=10, hi=1); up(3, 2, pow2=0, modulus=127, hi=1)
up(5, 3, "thorough", modulus=8); up(4, 2, "thorough", modulus=62, len=2, hi=16); up(4, 3, "thorough", pow2=0, modulus=10, hi=1)
for first in (0, 1, 3):
    for second in range(9):
        if first in (0, 1) and second in (0, 1, 2, 3, 4, 7, 8) or second == 0:
            JOBS.append(dict(unit="masked", name="events from %d, %d" % (first, second), params=dict(mode=1, steps=5, first=first, second=second), reach=["completed" if second == 8 else "aborted"]))
            JOBS.append(dict(unit="masked", name="more events from %d, %d" % (first, second), params=dict(mode=1, steps=7, first=first, second=second), reach=["completed" if second == 8 else "aborted"], tier="thorough", timeout=3000))
for at in (1, 2, 3):
    JOBS.append(dict(unit="masked", name="abort during round %d" % at, params=dict(mode=2, at=at), reach=["answered", "stopped"]))
