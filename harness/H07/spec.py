BOUNDS = "ranges: every lower bound from 200 to 2^40 seconds, and 13 others including negative ones, with 4 fractions of a second, 11 widths (negative ones included) and 9 random fractions including both ends; target delays: 16 delays, 7 jitter settings including out-of-range ones, 9 random fractions; retry times: every instant within 2^40 seconds of now"
OUTSIDE = "other widths, jitter settings and random fractions: products of two unknown floating-point numbers are out of the solver's reach, so these are case-split over representative values"
ASSUMPTIONS = ["rounding of up to one microsecond is accepted for jittered delays"]
UNITS = {"r": dict(harness="retry.cc", sources=["fcp/client/federated_protocol_util.cc", "fcp/base/time_util.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
def j(name, reach, tier="both", **p): return dict(unit="r", name=name, params=p, reach=reach, tier=tier)
JOBS = [j("range", ["picked"], mode=0, bits=40, reals=1, **{"from": 200}), j("range, chosen bounds", ["picked"], mode=0, split=1, reals=1), j("target", ["window"], mode=1, reals=1), j("retry time", ["past", "future"], mode=2)]
