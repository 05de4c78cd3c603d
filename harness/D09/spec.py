BOUNDS = "vocabularies missing, empty or of up to 3 distinct tokens of 1 or 2 arbitrary bytes, each special id unset or 0..3, up to 2 (thorough 3) arbitrary block list ids, lookups of an arbitrary token and an arbitrary 32-bit id"
OUTSIDE = "repeated or empty tokens and negative special ids, which the description must not contain; larger vocabularies"
ASSUMPTIONS = ["hash containers are replaced by ordered ones"]
UNITS = {"t": dict(harness="dict.cc", sources=["fcp/dictionary/dictionary.cc", "fcp/base/monitoring.cc", "fcp/base/base_name.cc"])}
JOBS = [dict(unit="t", name="lookups", params=dict(tokens=3), reach=["no vocabulary", "bad block list", "unknown", "no token", "dictionary"]), dict(unit="t", name="longer block lists", params=dict(tokens=2, blocked=3), reach=["unknown", "dictionary"], tier="thorough")]
