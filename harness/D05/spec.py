import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
import phaselog_src
REPO = os.environ.get("VF_REPO", "/repo")
BOUNDS = "2 tasks; one policy of every kind and version with all its options, or 2 policies (thorough) of any kinds, assigned to the tasks in every way; histories of up to 2 contributions with arbitrary times and indexes, aborted ones included; arbitrary current time, periods, indexes and example counts; every iterator and evaluation outcome"
OUTSIDE = "more tasks or policies; several policies with one name; times beyond 2^32 seconds; the evaluation of custom policies itself"
ASSUMPTIONS = ["hash containers are replaced by ordered ones", "the re2 library is replaced by a matcher for literals, '.', '*', '+' and '?'", "tensors are opaque"]
UNITS = {"u": dict(harness="elig.cc", rt=["crypto.cc"], generate=phaselog_src.make(REPO), sources=["fcp/client/eligibility_decider.cc", "fcp/client/opstats/opstats_utils.cc", "fcp/client/engine/common.cc", "fcp/base/digest.cc", "fcp/base/time_util.cc", "fcp/base/simulated_clock.cc", "fcp/base/clock.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, tier="both", reach=["eligible", "not eligible"], **p): return dict(unit="u", name=name, params=p, reach=reach, tier=tier, flags=["--int"])
JOBS = [j("data availability", type=0, history=0), j("sampling without replacement", type=1), j("minimum separation", type=2), j("custom policies", type=3, history=0), j("unknown policies", type=4, history=0), j("two policies", policies=2, history=1), j("two policies, longer history", "thorough", policies=2, history=2)]
