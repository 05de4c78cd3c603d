import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../pysym"))
HARNESS = "http_h.py"
PROTOS = ["fcp/protos/federatedcompute/common.proto", "fcp/protos/federatedcompute/eligibility_eval_tasks.proto"]
TECHNIQUE = "Symbolic execution of the Python sources by re-execution on proxy values; every branch and assertion decided by Z3 for all paths and bodies within the bounds; counterexamples replayed on concrete values"
BOUNDS = "every path of up to 8 (10 in the thorough check) characters with both methods against six patterns; the fixed end of a service path with any one character replaced by one or two others; names of up to 2 characters; bodies plain, compressed, in an unsupported encoding, cut at every point or with any one byte damaged"
OUTSIDE = "longer paths other than those listed; damage to more than one byte of a compressed body; requests without a valid Content-Length"
ASSUMPTIONS = ["urllib.parse.unquote is modelled for ASCII text and two bytes beyond ASCII", "the real protobuf and gzip libraries decode bodies", "http.server delivers method, path, headers and body as sent"]
JOBS = [dict(name="path-%d" % n, entry="path", params={"n": n}, tier="both" if n <= 8 else "thorough", timeout=600 if n <= 8 else 5000,
             reach=["notfound"] + (["suffix"] if n >= 3 else []) + (["dot"] if n == 4 else []) + (["get1", "post1"] if n >= 4 else []) + (["get2"] if n >= 5 else []) + (["query"] if n >= 7 else []),
             what="any path of %d characters" % n) for n in range(11)] + [
    dict(name="path-wide", entry="path", params={"n": 5, "wide": 1}, reach=["get1", "suffix"], what="paths beyond ASCII"),
    dict(name="bodies", entry="bodies", reach=["undecodable", "proto", "post1", "query", "notfound"], what="encoded, compressed and damaged bodies"),
    dict(name="errors", entry="errors", reach=["error", "notfound"], what="actions that fail"),
    dict(name="suffix", entry="suffix", reach=["notfound", "proto"], what="changed service paths"),
]


def run(pid, tier, seed, ev_path):
    import pydriver
    return pydriver.run(sys.modules[__name__] if __name__ in sys.modules else _self(), pid, tier, seed, ev_path)


def _self():
    import types
    m = types.SimpleNamespace(**globals())
    return m
