BOUNDS = "thresholds 2..6 with up to 8 shares and every subset; thresholds up to 20 (51 in the thorough check) with up to 1000 shares and four ways to pick the participants; every pair of subsets in a row for up to 6 shares; secrets of 1..8 bytes and 32 bytes for the full protocol and 1..64 bytes for packing; up to one rejected random draw per run"
OUTSIDE = "other subsets when there are more than 8 shares; secrets longer than 64 bytes; two or more rejected random draws"
ASSUMPTIONS = ["RAND_bytes returns arbitrary bytes", "an FCP_CHECK failure (process abort) counts as refusing inconsistent share sizes, as the code documents"]
UNITS = {"shamir": dict(harness="share.cc", rt=["crypto.cc"], sources=["fcp/secagg/shared/shamir_secret_sharing.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
JOBS = []
def add(t, n, ln, tier="both", **kw):
    JOBS.append(dict(unit="shamir", name="share t=%d n=%d len=%d%s" % (t, n, ln, "".join(" %s=%s" % x for x in kw.items())), params=dict(t=t, n=n, len=ln, **kw), flags=["--int"], tier=tier,
                     reach=["reconstructed"] + (["too few"] if not kw.get("mask") else []), timeout=500 if tier == "both" else 3000))
for n in range(2, 6):
    for t in range(2, n + 1):
        add(t, n, 4)
add(2, 3, 1); add(2, 3, 3); add(2, 3, 5); add(3, 4, 8); add(2, 3, 32); add(3, 4, 32); add(2, 3, 4, retries=1); add(2, 3, 31); add(2, 3, 8, same=1)
for n in range(6, 9):
    for t in range(2, 7):
        add(t, n, 4, tier="thorough")
for ln in range(1, 65):
    add(2, 3, ln, tier="thorough", same=0)
for ln in list(range(1, 41)) + [62, 63, 64]:
    JOBS.append(dict(unit="shamir", name="packing len=%d" % ln, params=dict(mode=1, len=ln), reach=["packed"]))
JOBS.append(dict(unit="shamir", name="share sizes", params=dict(mode=2, t=2, n=3, len=4, maxlen=9), reach=["refused", "accepted"]))
JOBS.append(dict(unit="shamir", name="share sizes t=3", params=dict(mode=2, t=3, n=3, len=4, maxlen=9), reach=["refused", "accepted"]))
for t, n in [(2, 4), (3, 5), (4, 5), (3, 6)]:
    JOBS.append(dict(unit="shamir", name="two reconstructions t=%d n=%d" % (t, n), params=dict(mode=3, t=t, n=n, len=4), flags=["--int"], reach=["reconstructed"]))
for t, n, tier in [(5, 9, "both"), (8, 40, "both"), (12, 60, "both"), (20, 30, "both"), (51, 100, "both"), (10, 300, "both"), (100, 250, "thorough"), (3, 1000, "both")]:
    JOBS.append(dict(unit="shamir", name="many participants t=%d n=%d" % (t, n), params=dict(mode=5, t=t, n=n, len=4), flags=["--int"], reach=["reconstructed"], tier=tier))
for t, n in [(2, 2), (2, 3), (3, 3), (3, 4)]:
    JOBS.append(dict(unit="shamir", name="interpolation t=%d n=%d" % (t, n), params=dict(mode=4, t=t, n=n), flags=["--int"], reach=["interpolated"]))
for t, n in [(2, 6), (4, 40), (7, 60), (12, 100), (30, 60)]:
    JOBS.append(dict(unit="shamir", name="polynomial t=%d n=%d" % (t, n), params=dict(mode=6, t=t, n=n), flags=[], reach=["evaluated"]))
