BOUNDS = "one session: eligibility check-in (6 answers), optionally an assignment of 2 tasks, optionally a single assignment, then every outcome of every report, for the three kinds of aggregation; up to 1 (thorough 2) requests, operations, verifications, encryptions or secure aggregations fail at every point with an arbitrary error code"
OUTSIDE = "interruption by the caller (D06); sessions of more than 3 tasks; the choice of a time inside a window (H07): windows here have equal ends"
ASSUMPTIONS = ["the interruptible runner is replaced by one that runs in the caller's thread (the real one is D06)", "compression, message encryption (E04), attestation and the secure aggregation rounds (S05, D07) are replaced by stand-ins that may fail", "hash containers are replaced by ordered ones"]
SRC = ["fcp/client/http/http_federated_protocol.cc", "fcp/client/http/protocol_request_helper.cc", "fcp/client/http/http_secagg_send_to_server_impl.cc", "fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/client/federated_protocol_util.cc", "fcp/confidentialcompute/client_payload.cc", "fcp/base/digest.cc", "fcp/base/random_token.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc", "fcp/base/time_util.cc", "fcp/base/clock.cc", "fcp/base/wall_clock_stopwatch.cc"]
UNITS = {"u": dict(harness=["session.cc", "../common/runner.cc", "../common/gzip.cc"], rt=["crypto.cc"], sources=SRC)}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=dict(p, reals=2), reach=reach, tier=tier)
JOBS = [j("check-in", ["check-in failed", "rejected"], odd=1, single=0), j("one task", ["assignment failed", "assignment rejected", "assigned", "reported", "aborted"]), j("one confidential task", ["assigned", "reported", "aborted"], kind=2), j("one secure aggregation", ["assigned", "reported"], kind=1), j("several tasks", ["assigned several", "reported"], multi=2, single=0),
        j("pending operations", ["assigned", "reported"], pending=1), j("damaged tasks", ["assigned several", "task failed", "assignment failed"], multi=2, broken=1, faults=0), j("several tasks and one more", ["assigned several", "assigned", "reported"], multi=1, kind=0, faults=1), j("without confidential aggregation", ["assigned several", "assigned", "reported"], multi=1, faults=0, confidential=0),
        j("one task, two failures", ["aborted", "reported"], "thorough", faults=2), j("one confidential task, two failures", ["aborted", "reported"], "thorough", faults=2, kind=2, pending=1), j("several tasks, two failures", ["assigned several", "reported"], "thorough", multi=2, single=0, faults=2)]
