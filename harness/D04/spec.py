BOUNDS = "histories of 2 runs (thorough 3) in every mix of formats, each per-phase run with 0 to 2 tasks from one assignment or up to 3 from two, every upload outcome, arbitrary times, counts and policy indexes, 3 task names, an arbitrary time range"
OUTSIDE = "per-phase runs whose phases are out of order (an upload without a computation, tasks without an assignment); pattern matching itself, which is the re2 library's"
ASSUMPTIONS = ["hash containers are replaced by ordered ones", "the re2 library is replaced by a matcher for literals, '.', '*', '+' and '?'"]
UNITS = {"u": dict(harness="look.cc", sources=["fcp/client/opstats/opstats_utils.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, tier="both", reach=["found", "none"], **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier, flags=["--int"])
JOBS = [j("both formats"), j("per-phase format, two assignments", runs=1, format=1, groups=2, reach=["found", "none", "task"]), j("all statistics", runs=1, rich=1), j("three runs, old format", runs=3, format=0), j("time range", range=1, reach=["in range"]), j("time range, three runs, old format", runs=3, format=0, range=1, reach=["in range"]),
        j("all statistics, two assignments", runs=1, rich=1, format=1, groups=2, tier="thorough"), j("three runs", "thorough", runs=3), j("time range, all statistics", "thorough", runs=1, rich=1, range=1, reach=["in range"])]
