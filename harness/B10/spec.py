BOUNDS = "contents of up to 3 arbitrary bytes to a new file, an existing one and one without a directory; up to 1 (thorough 2) failing storage operations, reported at once or when the stream is closed; paths of up to 3 characters"
OUTSIDE = "longer contents; read errors; power loss during a write"
ASSUMPTIONS = ["the file system is the in-memory one of stubs/rt/fs.cc; a failing write is reported at once or, as buffered streams do, on flush or close"]
UNITS = {"t": dict(harness="file.cc", sources=["fcp/base/platform.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["fs.cc"])}
JOBS = [dict(unit="t", name="files", params=dict(mode=0), reach=["written", "write failed", "read", "nothing to read"]), dict(unit="t", name="paths", params=dict(mode=1), reach=["paths"]), dict(unit="t", name="files, two failures", params=dict(mode=0, faults=2), reach=["written", "write failed"], tier="thorough")]
