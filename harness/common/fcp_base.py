BASE = ["fcp/base/monitoring.cc", "fcp/base/base_name.cc"]
