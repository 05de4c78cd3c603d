import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
from saclient_src import SRC
BOUNDS = "2 to 5 clients (6 in the thorough check), every position and threshold, every set of peers gone at key exchange or at share distribution, unmasking requests naming up to 3 clients by any 32-bit numbers, followed by another request; two bytes of every share symbolic"
OUTSIDE = "more clients or more names per request; how the server obtains or combines the shares (S05)"
ASSUMPTIONS = ["AES-GCM and P-256 are ideal and the generated keys are fixed distinct values"]
UNITS = {"unmask": dict(harness="unmask.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = [dict(unit="unmask", name="%d clients, up to %d named" % (n, k), params=dict(n=n, ids=k, early=e), reach=["live", "refused"] + (["dead"] if n > 2 else []), tier=t, timeout=300 if t == "both" else 3000)
        for n, k, e, t in [(2, 2, 1, "both"), (3, 3, 1, "both"), (4, 2, 1, "both"), (4, 3, 0, "both"), (5, 1, 1, "both"), (5, 2, 0, "both"), (4, 3, 1, "thorough"), (5, 2, 1, "thorough"), (5, 3, 0, "thorough"), (6, 2, 0, "thorough")]]
