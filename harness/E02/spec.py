BOUNDS = "header fields of up to 2 arbitrary bytes and one of up to 300, ciphertexts of up to 3 arbitrary bytes; decoding: every string of up to 4 bytes and every marked string with up to 6 further bytes (thorough 7), every truncation of an encoded payload"
OUTSIDE = "longer strings"
ASSUMPTIONS = ["the message library is replaced by a stand-in with the same wire format"]
UNITS = {"p": dict(harness="payload.cc", sources=["fcp/confidentialcompute/client_payload.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="p", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("round trip", ["round trip"], mode=0), j("round trip, two-byte length", ["round trip"], mode=0, big=130), j("round trip, long header", ["round trip"], mode=0, big=300), j("any bytes", ["accepted", "refused"], mode=1, len=6), j("truncation", ["refused"], mode=2), j("any bytes, longer", ["accepted", "refused"], "thorough", mode=1, len=7)]
