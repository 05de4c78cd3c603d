BOUNDS = "up to 2 resources with caching and 3 without (thorough one more each), each inline (plain, compressed, damaged) or remote with every cache state and every answer; arbitrary content bytes, lifetimes (0..255 s) and traffic counts"
OUTSIDE = "more resources; addresses that are not accepted (H02)"
ASSUMPTIONS = ["compression is replaced by a marked copy", "the interruptible runner is replaced by one that runs in the caller's thread (the real one is D06)"]
UNITS = {"r": dict(harness=["fetch.cc", "../common/runner.cc", "../common/gzip.cc"], sources=["fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="r", name=name, params=p, reach=reach, tier=tier)
R = ["fetched", "client failed"]
JOBS = [j("nothing to fetch", R, n=0), j("one resource", R, n=1), j("two resources", R, n=2), j("three resources without identifiers", R, n=3, cache=0), j("three resources", R, "thorough", n=3), j("four resources without identifiers", R, "thorough", n=4, cache=0)]
