// Minimal logging macros: the installed abseil has no absl/log.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
#include "absl/strings/string_view.h"
#include "absl/base/optimization.h"
namespace demolog {
struct Sink { bool fatal; std::ostringstream s; explicit Sink(bool f) : fatal(f) {} ~Sink() { if (fatal) { std::cerr << s.str() << std::endl; std::abort(); } } template <class T> Sink& operator<<(const T& v) { s << v; return *this; } Sink& operator<<(std::ostream& (*m)(std::ostream&)) { return *this; } Sink& WithVerbosity(int) { return *this; } Sink& AtLocation(const char*, int) { return *this; } Sink& AtLocation(absl::string_view, int) { return *this; } };
struct Voidify { void operator&&(Sink&) {} void operator&&(Sink&&) {} };
constexpr bool kINFO = false, kWARNING = false, kERROR = false, kFATAL = true;
}
#define ABSL_LOG(sev) ::demolog::Sink(::demolog::k##sev)
#define ABSL_LOG_IF(sev, c) switch (0) case 0: default: !(c) ? (void)0 : ::demolog::Voidify() && ::demolog::Sink(::demolog::k##sev)
#define ABSL_CHECK(c) ABSL_LOG_IF(FATAL, !(c))
