import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../pysym"))
HARNESS = "agg_h.py"
PROTOS = ["fcp/protos/federatedcompute/common.proto", "fcp/protos/federatedcompute/aggregations.proto", "fcp/protos/plan.proto",
          "tensorflow/core/framework/tensor.proto", "tensorflow/core/framework/tensor_shape.proto", "tensorflow/core/framework/types.proto", "tensorflow/core/protobuf/saver.proto", "tensorflow/core/protobuf/struct.proto"]
TECHNIQUE = "Symbolic execution of the Python sources by re-execution on proxy values; every branch and assertion decided by Z3 for all identifiers, counts and protocol outcomes within the bounds; counterexamples replayed on concrete values"
BOUNDS = "up to 2 clients (3 in the thorough check) with every outcome of each, minimum 0..3; 2 sessions with 2 (3) requests whose identifiers are any 4 characters, as long as every identifier handed out; 2 waiters with conditions 0..3"
OUTSIDE = "requests handled at the same time; more clients, sessions or waiters"
ASSUMPTIONS = ["the aggregation protocol library is replaced by one that includes each input, keeps it for later or discards it, and may fail at every operation", "uuid.uuid4 never repeats and cannot be guessed", "requests are plain records with the message's fields"]
JOBS = [
    dict(name="contributions-1", entry="contributions", params={"clients": 1}, reach=["misnamed", "left", "nothing", "included", "kept for later", "released", "failed", "withheld"], what="one client with every outcome"),
    dict(name="contributions-2", entry="contributions", params={"clients": 2}, reach=["included", "released", "failed", "withheld"], what="two clients with every outcome"),
    dict(name="contributions-3", entry="contributions", params={"clients": 3}, tier="thorough", reach=["released"], timeout=8000, what="three clients"),
    *[dict(name="strangers-" + n, entry="strangers", params={"ops": 2, "first": i}, reach=["started", "submitted", "left", "aborted"], what="requests with any identifiers") for i, n in enumerate(["start", "submit", "leave", "abort"])],
    dict(name="strangers-deep", entry="strangers", params={"ops": 3}, tier="thorough", reach=["started", "submitted", "left", "aborted"], timeout=8000, what="requests with any identifiers"),
    dict(name="waiting", entry="waiting", params={"clients": 2}, reach=["released", "kept", "aborted", "completed"], what="waiters"),
]


def run(pid, tier, seed, ev_path):
    import pydriver
    import types
    return pydriver.run(types.SimpleNamespace(**globals()), pid, tier, seed, ev_path)
