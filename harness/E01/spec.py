BOUNDS = "any session nonce; 4 (thorough: 6) messages from the start of a session, from any counter value and around the largest one; presented nonces: any bytes of the right length, any bytes of five other lengths, any of the next nonces, none at all, unencrypted messages in between"
OUTSIDE = "more messages in a row; the random source (session nonces are arbitrary values)"
ASSUMPTIONS = ["protocol buffer messages are the generated stand-ins of tools/protogen.py"]
SRC = ["fcp/confidentialcompute/crypto.cc", "fcp/confidentialcompute/cose.cc", "fcp/base/digest.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
UNITS = {"nonce": dict(harness="nonce.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
def add(name, reach, tier="both", **p):
    JOBS.append(dict(unit="nonce", name=name, params={k.rstrip("_"): v for k, v in p.items()}, reach=list(reach), tier=tier, timeout=400 if tier == "both" else 3000))
for f, n in ((0, "from the start"), (1, "from any message"), (2, "near the end")):
    add("in order, " + n, ("accepted", "end") + (("exhausted",) if f == 2 else ()), mode=0, from_=f, steps=4)
    add("any nonce, " + n, ("accepted", "refused", "end"), mode=1, from_=f, steps=2)
    add("any nonce, longer, " + n, ("accepted", "refused", "end"), tier="thorough", mode=1, from_=f, steps=4)
    add("other session, " + n, ("refused", "end"), mode=2, from_=f)
add("any nonce, three steps", ("accepted", "refused", "end"), mode=1, from_=0, steps=3)
add("in order, long", ("accepted", "end"), tier="thorough", mode=0, from_=1, steps=8)
