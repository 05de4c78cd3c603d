BOUNDS = "every sequence of 3 (thorough 4) updates (new entry in either format, or one more event for the newest), reopenings and damages of the file, with arbitrary elapsed times of 1 s to 3000 s against a retention of 1000 s; sizes around a limit of 40 bytes; up to one failing storage call at every point; two threads under every schedule with up to 2 preemptions"
OUTSIDE = "entries without any event, which are dropped at the next update and then set the time since which the history is complete to the start of the retention period; times are whole seconds (the code compares whole seconds); entries are appended in order of time, as the logger does; the size limit is claimed for the entries, not for the few bytes of the time since which the history is complete"
ASSUMPTIONS = ["the file system is the in-memory one of stubs/rt/fs.cc", "the message store keeps one message per file; a failed write leaves the old message or an unreadable file"]
D = ["open=d2_open", "close=d2_close", "flock=d2_flock"]
UNITS = {"u": dict(harness="db.cc", rt=["fs.cc"], sources=["fcp/client/opstats/pds_backed_opstats_db.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], defs=D, flags=["-include", "unistd.h"])}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier, flags=["--int"])
JOBS = [j("updates", ["updated", "dropped"], ops=3, max=1000), j("updates at the size limit", ["updated", "pruned"], ops=3, sizes=1), j("entries without events", ["updated"], ops=2, odd=1, max=1000), j("failing storage", ["updated", "failed", "damaged"], ops=2, faults=1, max=1000), j("opening", ["opened", "refused", "elsewhere"], mode=1), j("relative directories", ["relative"], mode=2), j("two threads", ["one", "both"], mode=3, preempt=2, max=1000),
        j("updates, longer", ["updated", "dropped"], "thorough", ops=4, max=1000), j("updates at the size limit, longer", ["updated", "pruned"], "thorough", ops=4, sizes=1), j("failing storage, longer", ["updated", "failed", "damaged"], "thorough", ops=3, faults=1, max=1000)]
