BOUNDS = "chains of up to three steps with every combination of outcomes and every 32-bit value, consumed or kept; every alternative, truth value and status code for each expectation helper"
OUTSIDE = "value types other than those instantiated (counting values, 32-bit and 64-bit integers); longer chains"
ASSUMPTIONS = ["trace tables are built by the stand-in for the table builder"]
SRC = ["tracing_span_impl.cc", "tracing_recorder_impl.cc", "tracing_span_ref.cc", "tracing_span_id.cc", "tracing_traits.cc", "text_tracing_recorder_impl.cc", "text_tracing_span_impl.cc"]
UNITS = {"r": dict(harness="result.cc", sources=["fcp/tracing/" + s for s in SRC] + ["fcp/base/result.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["fs.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="r", name=name, params=p, reach=[reach], tier=tier)
JOBS = [j("chains", "chain", mode=0), j("early return", "try", mode=1), j("access", "access", mode=2), j("expectations", "expect", mode=3)]
