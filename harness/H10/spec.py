import importlib.util, os
_s = importlib.util.spec_from_file_location("h08", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "H08", "spec.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
BOUNDS = "one session with one task of each kind of aggregation or with 2 to 3 of mixed kinds, an arbitrary result byte, every outcome, with and without compression; up to 1 (thorough 2) requests, operations, verifications or encryptions fail at every point with an arbitrary error code; answers without addresses or without a name for the client"
OUTSIDE = "interruption by the caller (D06); the contents of the secure aggregation rounds (S05, S07, D07, H09); the strength of the encryption (E04)"
ASSUMPTIONS = _m.ASSUMPTIONS
UNITS = {"u": dict(_m.UNITS["u"], harness=["../H08/session.cc", "../common/runner.cc", "../common/gzip.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=dict(p, what=1, reals=2), reach=reach, tier=tier)
JOBS = [j("plain upload", ["uploaded", "aborted", "not begun", "submission failed", "not completed"]), j("confidential upload", ["uploaded encrypted", "aborted", "not begun", "submission failed", "not completed"], kind=2), j("secure aggregation", ["secure aggregation", "not completed"], kind=1), j("secure aggregation with a plain part", ["secure aggregation"], kind=1, mixed=1, faults=0), j("pending operations", ["uploaded encrypted", "aborted"], kind=2, pending=1), j("compressed requests", ["uploaded", "aborted"], compress=1), j("several tasks", ["assigned several", "uploaded encrypted", "secure aggregation"], multi=2, single=0), j("three tasks", ["assigned several", "uploaded", "uploaded encrypted", "secure aggregation"], multi=2, faults=0), j("without confidential aggregation", ["uploaded", "secure aggregation"], multi=1, faults=0, confidential=0),
        j("incomplete answers", ["uploaded", "not begun", "no token", "aborted"], odd_start=1), j("incomplete answers, confidential", ["uploaded encrypted", "not begun"], kind=2, odd_start=1, faults=0),
        j("confidential upload, two failures", ["uploaded encrypted", "aborted"], "thorough", kind=2, faults=2, pending=1), j("several tasks, two failures", ["assigned several", "uploaded encrypted"], "thorough", multi=2, single=0, faults=2)]
