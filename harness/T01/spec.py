BOUNDS = "every sequence of 6 operations (thorough 7) opening, closing, detaching and tracing; identifiers at any two ages of the process below 2^62 and on 2..3 threads; every four-character tag; every sequence of 6 installations and removals of two recorders"
OUTSIDE = "spans nested across threads and thread-local recorders of several threads; the table encoding itself"
ASSUMPTIONS = ["trace tables are built by the stand-in for the table builder"]
SRC = ["tracing_span_impl.cc", "tracing_recorder_impl.cc", "tracing_span_ref.cc", "tracing_span_id.cc", "tracing_traits.cc", "text_tracing_recorder_impl.cc", "text_tracing_span_impl.cc"]
UNITS = {"t": dict(harness="trace.cc", sources=["fcp/tracing/" + s for s in SRC] + ["fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["fs.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="t", name=name, params=p, reach=[reach], tier=tier)
JOBS = [j("nesting", "nested", mode=0, steps=6), j("text recorder", "nested", mode=1, steps=5), j("identifiers on 2 threads", "ids", mode=2, threads=2, each=3, preempt=4), j("identifiers on 3 threads", "ids", mode=2, threads=3, each=2, preempt=3),
        j("identifiers at any age", "ids", mode=3), j("traits", "traits", mode=4), j("installing recorders", "installed twice", mode=5, steps=6), j("nesting, long", "nested", "thorough", mode=0, steps=7)]
