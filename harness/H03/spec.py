BOUNDS = "every 32-bit response code; content lengths absent, 0..3, beyond both 64-bit ranges, negative and any text of up to 2 bytes; up to 3 pieces of up to 2 arbitrary bytes; every transport error at every point; encodings present or absent with any one-byte value"
OUTSIDE = "longer bodies; success codes other than 200 and 2xx are not required to deliver"
ASSUMPTIONS = ["the transport calls the callbacks in the documented order"]
UNITS = {"r": dict(harness=["resp.cc", "../common/runner.cc", "../common/gzip.cc"], sources=["fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="r", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("codes", ["delivered", "error", "no headers", "broken body"], mode=0), j("lengths", ["delivered", "refused", "too much", "error"], mode=1), j("encodings", ["delivered", "refused"], mode=2)]
