BOUNDS = "every value of every pair of the eight integer types of 8 to 64 bits; every start, size, pointer, element size and count"
OUTSIDE = "128-bit and user-defined integer types"
ASSUMPTIONS = ["the integer model is the x86-64 one (64-bit pointers)"]
UNITS = {"b": dict(harness="bounds.cc", sources=["fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, **p): return dict(unit="b", name=name, params=p, reach=[reach])
JOBS = [j("integer conversions", "cast", mode=0), j("address mapping", "map", mode=1), j("native address space", "map", mode=2), j("product", "map", mode=3)]
