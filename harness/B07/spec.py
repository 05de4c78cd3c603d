BOUNDS = "2..4 threads taking 1..3 identifiers each with at most 3 preemptions at the accesses to the counter; every token value (printable form: one arbitrary byte at every position)"
OUTSIDE = "wrap-around of the 64-bit counter; weak memory effects"
ASSUMPTIONS = ["threads interleave at synchronisation and atomic operations", "the random generator returns arbitrary bytes"]
UNITS = {"ids": dict(harness="ids.cc", sources=["fcp/base/process_unique_id.cc", "fcp/base/random_token.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["crypto.cc"])}
def j(name, reach, **p): return dict(unit="ids", name=name, params=p, reach=[reach])
JOBS = [j("identifiers on 2 threads", "ids", mode=0, threads=2, each=3, preempt=4), j("identifiers on 3 threads", "ids", mode=0, threads=3, each=2, preempt=3), j("identifiers on 4 threads", "ids", mode=0, threads=4, each=1, preempt=2),
        j("token conversion", "token", mode=1), j("two tokens", "token", mode=2), j("printable form", "token", mode=3), j("generated tokens", "token", mode=4)]
JOBS[-1]["vacuous_ok"] = True
