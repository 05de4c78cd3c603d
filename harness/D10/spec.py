BOUNDS = "every sequence of up to 5 (thorough 6) operations on up to 3 queries with arbitrary one-byte collection names and criteria; two threads with up to 2 (thorough 3) preemptions at synchronisation points"
OUTSIDE = "longer sequences; counts beyond 2^31"
ASSUMPTIONS = ["threads switch at synchronisation points only"]
UNITS = {"t": dict(harness="rec.cc", sources=["fcp/client/example_iterator_query_recorder.cc"])}
JOBS = [dict(unit="t", name="five operations", params=dict(ops=5), reach=["listed", "finished"]), dict(unit="t", name="threads", params=dict(threads=1, preempt=2), reach=["threads"]), dict(unit="t", name="six operations", params=dict(ops=6), reach=["listed", "finished"], tier="thorough"), dict(unit="t", name="threads, more preemptions", params=dict(threads=1, preempt=3), reach=["threads"], tier="thorough")]
