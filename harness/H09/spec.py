BOUNDS = "6 server addresses, 4 paths with an arbitrary letter, up to 2 parameters and 2 server headers with arbitrary short values, every short key, content, compression and format setting; every secure aggregation message with arbitrary content, with and without a plain result, and every answer (right, failed, foreign, refused, unreadable, pending first)"
OUTSIDE = "longer texts (their encoding is H02); more headers and parameters; polling more than once (H06)"
ASSUMPTIONS = ["compression is replaced by a marked copy", "the interruptible runner is replaced by one that runs in the caller's thread (the real one is D06)"]
UNITS = {"r": dict(harness=["req.cc", "../common/runner.cc", "../common/gzip.cc"], sources=["fcp/client/http/protocol_request_helper.cc", "fcp/client/http/http_secagg_send_to_server_impl.cc", "fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc", "fcp/base/time_util.cc", "fcp/base/clock.cc", "fcp/base/wall_clock_stopwatch.cc"])}
JOBS = [dict(unit="r", name="requests", params=dict(mode=0), reach=["no address", "refused", "created"]), dict(unit="r", name="rounds", params=dict(mode=1), reach=["missing address", "finished", "interrupted", "upload failed", "failed", "answered"])]
