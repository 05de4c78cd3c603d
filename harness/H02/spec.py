BOUNDS = "both address prefixes with any one or two bytes replaced, cut short, and any address of up to 8 bytes; every method; up to two headers with arbitrary values; bodies of up to 5 arbitrary bytes read in up to 6 pieces of 1 to 3 bytes"
OUTSIDE = "longer bodies and addresses"
ASSUMPTIONS = ["compression is replaced by a marked copy (the compressor itself is N01)"]
UNITS = {"r": dict(harness=["req.cc", "../common/runner.cc", "../common/gzip.cc"], sources=["fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="r", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("addresses", ["accepted", "refused"], mode=0), j("bodies and headers", ["built", "refused"], mode=1), j("reading in pieces", ["end"], mode=2, reads=6)]
