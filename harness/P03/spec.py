import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../pysym"))
HARNESS = "tasks_h.py"
_D = "fcp/protos/"
PROTOS = [_D + "federatedcompute/" + p + ".proto" for p in ("common", "aggregations", "task_assignments", "eligibility_eval_tasks")] + [
    _D + "plan.proto", _D + "population_eligibility_spec.proto", _D + "federated_api.proto", "fcp/secagg/shared/secagg_messages.proto",
    "tensorflow/core/framework/tensor.proto", "tensorflow/core/framework/tensor_shape.proto", "tensorflow/core/framework/types.proto", "tensorflow/core/protobuf/saver.proto", "tensorflow/core/protobuf/struct.proto"]
TECHNIQUE = "Symbolic execution of the Python sources by re-execution on proxy values; every branch and assertion decided by Z3 for all task, session and population names within the bounds; counterexamples replayed on concrete values"
BOUNDS = "every sequence of 4 (5 in the thorough check) operations that starts with adding a task, with symbolic task names of 2 characters, population names of 3 and removed session names of 5; up to 2 names per request; with 3 operations also requested names of 1 to 3 characters and populations of 2 to 4"
OUTSIDE = "longer histories; requests handled at the same time"
ASSUMPTIONS = ["the aggregation service hands out a new authorization per request (see P02)", "requests are plain records with the message's fields"]
JOBS = [
    dict(name="assign", entry="history", params={"ops": 3, "lengths": 1}, reach=["assigned", "rejected", "removed", "multiple", "otherpop"], what="tasks added, removed and assigned"),
    dict(name="assign-4", entry="history", params={"ops": 4}, tier="both", reach=["assigned", "rejected", "removed", "multiple", "otherpop"], what="tasks added, removed and assigned"),
    dict(name="assign-5", entry="history", params={"ops": 5}, tier="thorough", timeout=9000, reach=["assigned"], what="tasks added, removed and assigned"),
    dict(name="announce", entry="announced", params={"ops": 4}, reach=["announced", "otherpop"], what="tasks announced to clients"),
]


def run(pid, tier, seed, ev_path):
    import pydriver
    import types
    return pydriver.run(types.SimpleNamespace(**globals()), pid, tier, seed, ev_path)
