import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../pysym"))
HARNESS = "media_h.py"
PROTOS = ["fcp/protos/federatedcompute/common.proto"]
TECHNIQUE = "Symbolic execution of the Python sources by re-execution on proxy values; every branch and assertion decided by Z3 for all names, data and schedules within the bounds; counterexamples replayed on concrete values"
BOUNDS = "every sequence of 4 (5 in the thorough check) upload operations and of 4 (6) download operations, with caller-supplied names of 4 symbolic characters, as long as every identifier handed out, and 0..1 symbolic bytes of data; 2 groups; up to 4 threads with up to 2 preemptions at any line (1 when finalising at the same time, 3 in the thorough check)"
OUTSIDE = "longer histories; more groups; names of other lengths"
ASSUMPTIONS = ["uuid.uuid4 never repeats (the generator is replaced by one that gives different identifiers)", "threading.Lock is mutually exclusive; other threads can be scheduled at every line and lock operation"]
JOBS = [
    dict(name="uploads", entry="uploads", params={"ops": 4}, tier="quick", reach=["registered", "uploaded", "refused", "finalised"], what="histories of registering, uploading and finalising"),
    dict(name="uploads-deep", entry="uploads", params={"ops": 5}, tier="thorough", reach=["registered", "uploaded", "refused", "finalised"], timeout=5000),
    dict(name="downloads", entry="downloads", params={"ops": 4}, tier="quick", reach=["added", "closed", "downloaded", "notfound"], what="histories of groups, files and downloads"),
    dict(name="downloads-deep", entry="downloads", params={"ops": 5}, tier="thorough", reach=["added", "duplicate", "closed", "downloaded", "notfound"], timeout=5000),
    dict(name="race-uploads", entry="race_uploads", params={"preempt": 2, "finalise": 0}, reach=["accepted"], what="two uploads at the same time"),
    dict(name="race-finalise", entry="race_uploads", params={"preempt": 1, "finalise": 1}, reach=["accepted", "none"], what="two uploads and a finalisation at the same time"),
    dict(name="race-finalise-twice", entry="race_uploads", params={"preempt": 1, "finalise": 2}, reach=["accepted", "none"], what="two uploads and two finalisations at the same time"),
    dict(name="race-finalise-deep", entry="race_uploads", params={"preempt": 3, "finalise": 1}, tier="thorough", reach=["accepted", "none"], timeout=5000),
    dict(name="race-downloads", entry="race_downloads", params={"preempt": 2}, reach=["closed", "seen"], what="additions, a download and the end of the group at the same time"),
]


def run(pid, tier, seed, ev_path):
    import pydriver
    return pydriver.run(sys.modules[__name__] if __name__ in sys.modules else _self(), pid, tier, seed, ev_path)


def _self():
    import types
    m = types.SimpleNamespace(**globals())
    return m
