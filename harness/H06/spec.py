BOUNDS = "an initial operation and up to 3 (thorough 4) server replies, each a pending or finished operation with 6 kinds of names and 7 kinds of metadata, a refused or failed request, an unreadable or encoded reply; every interval of up to 11 days in either direction with every nanosecond field, and two extreme ones"
OUTSIDE = "longer polling histories; other operation names (their encoding is H02); interruption while waiting"
ASSUMPTIONS = ["waiting only records the duration", "the interruptible runner is replaced by one that runs in the caller's thread (the real one is D06)"]
UNITS = {"r": dict(harness=["poll.cc", "../common/runner.cc", "../common/gzip.cc"], sources=["fcp/client/http/protocol_request_helper.cc", "fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc", "fcp/base/time_util.cc", "fcp/base/clock.cc", "fcp/base/wall_clock_stopwatch.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="r", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("no polling", ["finished", "refused"], steps=0, odd=9), j("one poll, any interval", ["finished", "refused", "failed", "server's interval", "own interval"], steps=1, odd=0),
        j("two polls, any second interval", ["finished", "refused", "failed", "own interval"], steps=2, odd=1), j("three polls", ["finished", "failed"], steps=3, odd=9),
        j("three polls, any third interval", ["finished", "failed"], "thorough", steps=3, odd=2), j("four polls", ["finished", "failed"], "thorough", steps=4, odd=9)]
