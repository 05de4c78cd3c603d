// Log manager that only counts.
#pragma once
#include "fcp/client/log_manager.h"
struct VfLog : fcp::client::LogManager {
  int prod = 0, debug = 0, hist = 0;
  void LogDiag(fcp::client::ProdDiagCode) override { prod++; }
  void LogDiag(fcp::client::DebugDiagCode) override { debug++; }
  void LogToLongHistogram(fcp::client::HistogramCounters, int, int, fcp::client::engine::DataSourceType, int64_t) override { hist++; }
  void SetModelIdentifier(const std::string&) override {}
};
