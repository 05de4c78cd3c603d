BOUNDS = "names of up to 4 arbitrary bytes (thorough 5); bases and suffixes of up to 4 arbitrary bytes each"
OUTSIDE = "longer names (each byte is encoded independently of the others)"
ASSUMPTIONS = []
UNITS = {"u": dict(harness="uri.cc", sources=["fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("single segment", ["encoded", "refused"], mode=0, len=4), j("several segments", ["encoded", "refused"], mode=1, len=4), j("upload address", ["upload"], mode=2, len=3), j("joining", ["joined", "refused"], mode=3, len=4),
        j("single segment, longer", ["encoded"], "thorough", mode=0, len=5), j("several segments, longer", ["encoded"], "thorough", mode=1, len=5)]
