BOUNDS = "every bit width 1..62 with four moduli each (the largest, the smallest, one below the largest and one in between) and, at selected widths, every modulus of that width (symbolic); vectors of 1, 2, 3, 5, 9 and 17 elements and of just over 160 bits in total with symbolic values (33 and 70 in the thorough check); addition of vectors of 2 elements (6 in the thorough check); packed addition (which divides) for 19 moduli"
OUTSIDE = "longer vectors (in particular total sizes whose bit count exceeds 32 bits); moduli other than those listed at the widths without a symbolic modulus"
ASSUMPTIONS = ["a failed FCP_CHECK (process abort) counts as rejecting a vector"]
SRC = ["fcp/secagg/shared/secagg_vector.cc", "fcp/secagg/shared/map_of_masks.cc", "fcp/secagg/shared/input_vector_specification.cc", "fcp/secagg/shared/aes_key.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
UNITS = {"vec": dict(harness="vec.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
def add(name, reach, tier="both", weight=1, **p):
    JOBS.append(dict(unit="vec", name=name, params=p, reach=reach, tier=tier, timeout=400 if tier == "both" else 3000, weight=weight))
for n in (1, 2, 3, 5, 9, 17, 33, 70):
    for lo in range(1, 63, 8):
        add("round trip n=%d widths %d.." % (n, lo), ["packed"], "both" if n <= 17 else "thorough", n, mode=0, n=n, lo=lo, hi=min(62, lo + 7))
for lo in list(range(1, 9)) + list(range(9, 63, 6)):
    hi = lo if lo < 9 else min(62, lo + 5)
    add("long round trip widths %d.." % lo, ["packed"], "both", 30, mode=0, n=0, lo=lo, hi=hi)
    add("long any bytes widths %d.." % lo, ["decoded"], "both", 30, mode=3, n=0, lo=lo, hi=hi)
for lo in range(1, 63, 4):
    add("addition widths %d.." % lo, ["added"], "both", lo, mode=1, n=2, lo=lo, hi=min(62, lo + 3))
    add("addition n=6 widths %d.." % lo, ["added"], "thorough", 10, mode=1, n=6, lo=lo, hi=min(62, lo + 3))
for n in (1, 4, 9, 20):
    for lo in range(1, 63, 16):
        add("any bytes n=%d widths %d.." % (n, lo), ["decoded"], "both" if n < 20 else "thorough", n, mode=3, n=n, lo=lo, hi=min(62, lo + 15))
for w in range(2, 63):
    q = "both" if w in (2, 5, 8, 13, 31, 32, 33, 62) else "thorough"
    add("any modulus of width %d" % w, ["packed"], q, 5, mode=0, n=2, lo=w, hi=w, symbolic=1)
    add("any bytes, any modulus of width %d" % w, ["decoded"], q, 5, mode=3, n=3, lo=w, hi=w, symbolic=1)
add("packed addition", ["added"], mode=2, n=2)
add("rejects values", [], mode=4, n=2)
add("rejects sizes", ["right size"], mode=5, n=3, lo=1, hi=62)
