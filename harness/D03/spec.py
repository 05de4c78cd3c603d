BOUNDS = "every sequence of 4 logging operations (thorough 5) of 11 kinds with and without phases, arbitrary event kinds, counts and totals, 0 to 2 earlier runs, one failing commit (3 operations); two phases with their tasks followed by any 2 operations"
OUTSIDE = "longer sequences; concurrent logging threads"
ASSUMPTIONS = ["network totals never decrease", "a failing commit leaves the stored history as it was"]
UNITS = {"u": dict(harness="oplog.cc", sources=["fcp/client/opstats/opstats_logger_impl.cc", "fcp/base/time_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("with phases", ["committed", "final"], phases=1, ops=4), j("without phases", ["committed", "final"], phases=0, ops=3), j("failing commits", ["failed", "final"], phases=1, ops=3, fails=1), j("failing commits, without phases", ["failed", "final"], phases=0, ops=3, fails=1), j("several tasks", ["committed", "final"], phases=1, ops=6, tasks=1),
        j("with phases, longer", ["committed", "final"], "thorough", phases=1, ops=5), j("without phases, longer", ["committed", "final"], "thorough", phases=0, ops=4), j("failing commits, longer", ["failed", "final"], "thorough", phases=1, ops=4, fails=2)]
