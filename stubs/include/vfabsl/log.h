// Logging: operands are evaluated, the message is dropped; FATAL aborts.
#pragma once
#include "vfabsl/ios.h"
#include <cstdlib>
namespace vfabsl {
class LogSink { public: explicit LogSink(bool fatal) : fatal_(fatal) {} ~LogSink() { if (fatal_) abort(); } LogSink& WithVerbosity(int) { return *this; } LogSink& stream() { return *this; }
  template <class T> LogSink& operator<<(const T& v) { return *this; }
  LogSink& operator<<(const char* v) { return *this; }
  LogSink& operator<<(std::ostream& (*m)(std::ostream&)) { return *this; }
  template <class... A> LogSink& at(A&&...) { return *this; } LogSink& WithPerror() { return *this; }
 private: bool fatal_; };
struct Voidify { void operator&&(LogSink&) const {} void operator&&(LogSink&&) const {} };
}
#define VF_LOG_INFO ::vfabsl::LogSink(false)
#define VF_LOG_WARNING ::vfabsl::LogSink(false)
#define VF_LOG_ERROR ::vfabsl::LogSink(false)
#define VF_LOG_FATAL ::vfabsl::LogSink(true)
#define VF_LOG_DFATAL ::vfabsl::LogSink(false)
#define VF_LOG_QFATAL ::vfabsl::LogSink(true)
#define ABSL_LOG(s) VF_LOG_##s
#define ABSL_LOG_IF(s, c) switch (0) case 0: default: !(c) ? (void)0 : ::vfabsl::Voidify() && VF_LOG_##s
#define ABSL_VLOG(n) VF_LOG_INFO
#define ABSL_CHECK(c) ABSL_LOG_IF(FATAL, !(c))
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#ifndef LOG
#define LOG(s) ABSL_LOG(s)
#define LOG_IF(s, c) ABSL_LOG_IF(s, c)
#define VLOG(n) ABSL_VLOG(n)
#define CHECK(c) ABSL_CHECK(c)
#define DCHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define CHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define CHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define CHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define CHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define CHECK_OK(s) ABSL_CHECK_OK(s)
#endif
