BOUNDS = "keys with any 64-bit numbers and up to 2 (symmetric: 3) bytes per string; tokens with any subset of their fields; every pair of such tokens for the signed part; maps of up to 2 entries with any label and any value type; tokens with any number of elements up to 5, one arbitrary element, header entry, claim or signature part; any single byte appended, every prefix; all strings of up to 4 bytes"
OUTSIDE = "longer strings, several arbitrary elements at once, semantic tags and indefinite-length items; times outside +-2^50 s"
ASSUMPTIONS = ["the CBOR library behaves as its stand-in (stubs/include/libcppbor): RFC 8949 without tags, shortest heads on encoding", "serialised configuration properties follow tools/protogen.py"]
UNITS = {"cose": dict(harness="cose.cc", sources=["fcp/confidentialcompute/cose.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
JOBS = []
def add(name, reach, tier="both", **p):
    JOBS.append(dict(unit="cose", name=name, params=p, reach=list(reach), tier=tier, timeout=400 if tier == "both" else 3000))
add("public keys survive", ["accepted"], mode=0)
add("symmetric keys survive", ["accepted"], mode=1)
add("damaged public keys", ["refused"], mode=0, damage=1, wide=0, len=1)
add("damaged symmetric keys", ["accepted"], mode=1, damage=1, wide=0)
for f in (3, 5, 6, 8, 17, 48, 9, 33, 20):
    add("tokens survive, fields %d" % f, ["accepted"], mode=2, fields=f)
add("damaged tokens", ["accepted"], mode=2, fields=32 + 4, damage=1, wide=0)
add("damaged tokens with key", ["accepted"], mode=2, fields=8 + 1, damage=1, wide=0)
add("tokens survive, all fields", ["accepted"], tier="thorough", mode=2, fields=63, wide=0)
for f in (1, 2, 4, 8, 16, 6, 7):
    add("signed part, fields %d" % f, ["equal", "different"], mode=3, fields=f, wide=0 if f in (8, 6, 7) else 1)
add("signed part, all fields", ["equal", "different"], tier="thorough", mode=3, fields=31, wide=0)
for s in (0, 1):
    add("arbitrary entries, %s key" % ("public", "symmetric")[s], ["accepted", "refused"], mode=4, sym=s)
    add("three arbitrary entries, %s key" % ("public", "symmetric")[s], ["accepted", "refused"], tier="thorough", mode=4, sym=s, entries=3)
for m in (0, 1):
    for o in (0, 1, 2, 3, 9, 10, 11, 12):
        if (not m and o >= 10) or (m and o == 3): continue
        add("tokens, %s, odd %d" % (("one signature", "several signatures")[m], o), ["refused"] + (["accepted"] if o in (1, 3, 9, 10, 11, 12) else []), mode=5, many=m, odd=o)
for h in (0, 1):
    add("arbitrary %s" % ("claims", "headers")[h], ["accepted", "refused"], mode=6, head=h)
    add("two arbitrary %s" % ("claims", "headers")[h], ["accepted", "refused"], mode=6, head=h, entries=2)
add("any bytes", ["accepted", "refused"], mode=7, len=4)
add("any bytes, longer", ["accepted", "refused"], tier="thorough", mode=7, len=6)
