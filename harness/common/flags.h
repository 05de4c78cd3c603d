// Flags with defaults for everything that has none.
#pragma once
#include "fcp/client/flags.h"
struct VfFlags : fcp::client::Flags {
  int64_t condition_polling_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return false; }
};
