BOUNDS = "up to two leftovers, three temporary files of two name shapes, random file numbers colliding in every way (three values), at most one failing disk operation"
OUTSIDE = "failures of the directory listing (it has no error path); prefixes containing path separators; other processes changing the directory at the same time"
ASSUMPTIONS = ["the file system is the in-memory one of stubs/rt/fs.cc"]
FS = ["open=vffs_open", "close=vffs_close", "__errno_location=vf_errno_location"]
UNITS = {"t": dict(harness="temp.cc", sources=["fcp/client/cache/temp_files.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"], rt=["fs.cc"], defs=FS)}
def j(name, reach, **p): return dict(unit="t", name=name, params=p, reach=reach)
JOBS = [j("life of the directory", ["done"], mode=0, steps=3), j("failing disk", ["done", "failed"], mode=1, steps=2, faults=1), j("failing clean-up", ["done"], mode=1, steps=3, endfaults=1), j("relative directory", ["refused"], mode=2)]
