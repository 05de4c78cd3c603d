BOUNDS = "any message and associated data of up to 2 (thorough: 4) bytes; every single part of an encrypted message with any one byte changed, one byte removed or one added; keys re-wrapped once; any signer algorithm number; signatures with any data of up to 2 bytes and made-up signatures of 0..129 bytes"
OUTSIDE = "longer messages; several changes at once; the strength of the primitives"
ASSUMPTIONS = ["ideal cryptography: only produced ciphertexts open, only with the same key, nonce and associated data; only produced signatures verify; fresh keys differ (stubs/rt/crypto.cc)", "the CBOR library behaves as its stand-in"]
SRC = ["fcp/confidentialcompute/crypto.cc", "fcp/confidentialcompute/cose.cc", "fcp/base/digest.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
UNITS = {"crypt": dict(harness="crypt.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
def add(name, reach, tier="both", **p):
    JOBS.append(dict(unit="crypt", name=name, params=p, reach=list(reach), tier=tier, timeout=400 if tier == "both" else 3000))
for t, l in (("both", 2), ("thorough", 4)):
    x = "" if t == "both" else ", longer"
    add("messages" + x, ["opened"], t, mode=0, len=l)
    for i, w in enumerate(("ciphertext", "data of the message", "wrapped key", "data of the key", "encapsulated key")):
        add("changed %s%s" % (w, x), ["refused"], t, mode=1, what=i, len=l)
    add("re-wrapped keys" + x, ["opened", "refused"], t, mode=2, len=l)
    add("signatures" + x, ["opened", "refused"], t, mode=5, len=l)
add("any signature", ["opened", "refused", "any signature"], mode=5, len=1, symbolic=1)
add("published keys", ["opened", "refused"], mode=3)
add("unsuitable recipients", ["refused"], mode=4)
add("verification keys", ["refused"], mode=6)
add("keys for another use", ["refused"], mode=7, len=1)
