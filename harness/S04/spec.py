BOUNDS = "complete graphs of 1..16 nodes and every threshold; ring graphs of 1..10 and 16 (thorough: 1..16) nodes, every odd degree and threshold, with the identity renaming; every renaming of up to 4 (thorough: 6) nodes; the factory's random renaming of up to 4 nodes"
OUTSIDE = "larger graphs; even degrees (refused by the factory)"
ASSUMPTIONS = ["the random generator used for the renaming returns one of twelve evenly spread values, which reaches every renaming of four nodes"]
SRC = ["fcp/secagg/server/secret_sharing_harary_graph.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
UNITS = {"graph": dict(harness="graph.cc", sources=SRC, rt=["crypto.cc"])}
JOBS = []
def add(name, reach=("neighbours", "listed"), tier="both", **p):
    JOBS.append(dict(unit="graph", name=name, params=p, reach=list(reach), tier=tier, timeout=300 if tier == "both" else 3000))
for n in range(1, 17):
    add("complete graph of %d" % n, mode=0, n=n)
    add("ring graph of %d" % n, mode=2, n=n, tier="both" if n < 11 or n == 16 else "thorough")
for n in range(1, 7):
    add("renamed ring graph of %d" % n, mode=1, n=n, tier="both" if n < 5 else "thorough")
for n in range(1, 5):
    add("shuffled ring graph of %d" % n, mode=3, n=n)
