import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saclient_src import SRC
BOUNDS = "key requests of 0 to 4 entries that are valid, missing, half missing, of another size, repeated, swapped or have any first and last byte, with any session id length around 32; share requests of 0 to 4 entries that are valid, empty, damaged, from another peer, or open to any plaintext of up to 4 bytes; two messages (thorough 3) of any type in any round with small arbitrary contents"
OUTSIDE = "more entries per message, larger arbitrary fields; parsing of the wire format (the protobuf library)"
ASSUMPTIONS = ["AES-GCM and P-256 are ideal: a point is valid exactly if its prefix is 2 or 3"]
UNITS = {"hostile": dict(harness="hostile.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
for n, x, t in [(2, 0, "both"), (2, 1, "both"), (3, 0, "both"), (3, 1, "thorough")]:
    JOBS.append(dict(unit="hostile", name="keys, %d clients%s" % (n, ", any number" if x else ""), params=dict(mode=0, n=n, extra=x), reach=["refused", "accepted"], tier=t, timeout=400 if t == "both" else 3000))
    JOBS.append(dict(unit="hostile", name="shares, %d clients%s" % (n, ", any number" if x else ""), params=dict(mode=1, n=n, extra=x), reach=["refused", "accepted"], tier=t, timeout=400 if t == "both" else 3000))
for r in range(4):
    JOBS.append(dict(unit="hostile", name="any messages, round %d" % r, params=dict(mode=2, round=r, steps=1 if r in (1, 2) else 2), reach=["out of turn", "handled"]))
    JOBS.append(dict(unit="hostile", name="more messages, round %d" % r, params=dict(mode=2, round=r, steps=2), reach=["out of turn", "handled"], tier="thorough", timeout=3000))
