BOUNDS = "every sequence of 3 (thorough 4) stores, lookups and restarts over 2 (thorough 3) identifiers with arbitrary contents, elapsed times and ages and sizes of 1, 3, 4 and (one job) 0 to 5 bytes in a cache of 8 bytes; four stores of four identifiers, and two stores, a look-up and a store, with every size; with up to 1 failing storage operation (at once or when the file is closed), or power loss at every storage operation"
OUTSIDE = "larger caches; concurrent use; expired entries looked up before the next store or restart may still be served"
ASSUMPTIONS = ["the file system is the in-memory one of stubs/rt/fs.cc", "the message store keeps one message per file; an interrupted write leaves the old message or an unreadable file"]
SRC = ["fcp/client/cache/file_backed_resource_cache.cc", "fcp/base/platform.cc", "fcp/base/time_util.cc", "fcp/base/simulated_clock.cc", "fcp/base/clock.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
UNITS = {"u": dict(harness="cache.cc", rt=["fs.cc"], sources=SRC)}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier, flags=["--int"])
JOBS = [j("working disk", ["stored", "hit", "miss"], ops=3), j("sizes", ["stored", "too large"], ops=2, large=1), j("three identifiers", ["stored", "evicted"], ops=3, ids=3), j("eviction after use", ["stored", "evicted"], ops=4, ids=3, script=1), j("several evictions", ["stored", "evicted"], ops=4, ids=4, script=2), j("failing operations", ["not stored", "hit after failure"], ops=2, faults=1), j("power loss", ["restarted", "hit after failure"], ops=2, crashes=1), j("relative directories", ["relative"], relative=1),
        j("working disk, longer", ["stored", "hit", "miss", "evicted"], "thorough", ops=4, ids=3), j("failing operations, longer", ["not stored", "hit after failure"], "thorough", ops=3, faults=1), j("power loss, longer", ["restarted", "hit after failure"], "thorough", ops=3, crashes=1)]
