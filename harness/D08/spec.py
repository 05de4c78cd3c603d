BOUNDS = "up to 2 (thorough 3) keys out of 4, 4 templates, 2 serving ids, arbitrary slice bytes and traffic counts, every failing slice and kind of failure, closing after every step, up to 1 failing storage operation reported at once or when the stream is closed"
OUTSIDE = "more keys; addresses that are not accepted (H02); several iterators at once; a scratch file that cannot be deleted"
ASSUMPTIONS = ["the file system is the in-memory one of stubs/rt/fs.cc", "the interruptible runner is replaced by one that runs in the caller's thread (the real one is D06)", "compression is replaced by a marked copy"]
UNITS = {"t": dict(harness=["select.cc", "../common/runner.cc", "../common/gzip.cc"], sources=["fcp/client/federated_select.cc", "fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/wall_clock_stopwatch.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["fs.cc"])}
JOBS = [dict(unit="t", name="two keys", params=dict(keys=2), reach=["disabled", "refused", "failed", "delivered", "end", "closed"]), dict(unit="t", name="one key, failing storage", params=dict(keys=1, faults=1), reach=["storage failed", "end"]), dict(unit="t", name="three keys", params=dict(keys=3), reach=["end", "failed"], tier="thorough"), dict(unit="t", name="two keys, failing storage", params=dict(keys=2, faults=1), reach=["storage failed", "end"], tier="thorough")]
