// Time helpers of the message library.
#pragma once
#include "google/protobuf/duration.pb.h"
#include "google/protobuf/timestamp.pb.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
namespace google { namespace protobuf {
// Seconds and nanoseconds combined; nanoseconds are below one second in magnitude.
inline void vf_norm(int64_t s, int64_t n, bool stamp, int64_t* so, int32_t* no) {
  if (n <= -1000000000 || n >= 1000000000) { s += n / 1000000000; n %= 1000000000; }
  if (n < 0 && (stamp || s > 0)) { s--; n += 1000000000; }
  if (!stamp && s < 0 && n > 0) { s++; n -= 1000000000; }
  *so = s; *no = (int32_t)n;
}
inline Duration vf_dur(int64_t s, int64_t n) { int64_t a; int32_t b; vf_norm(s, n, false, &a, &b); Duration d; d.set_seconds(a); d.set_nanos(b); return d; }
inline Timestamp vf_ts(int64_t s, int64_t n) { int64_t a; int32_t b; vf_norm(s, n, true, &a, &b); Timestamp d; d.set_seconds(a); d.set_nanos(b); return d; }
#define VF_CMP(T) inline bool operator<(const T& a, const T& b) { return a.seconds() != b.seconds() ? a.seconds() < b.seconds() : a.nanos() < b.nanos(); } inline bool operator>(const T& a, const T& b) { return b < a; } inline bool operator<=(const T& a, const T& b) { return !(b < a); } inline bool operator>=(const T& a, const T& b) { return !(a < b); } inline bool operator==(const T& a, const T& b) { return a.seconds() == b.seconds() && a.nanos() == b.nanos(); } inline bool operator!=(const T& a, const T& b) { return !(a == b); }
VF_CMP(Duration) VF_CMP(Timestamp)
#undef VF_CMP
inline Duration operator+(const Duration& a, const Duration& b) { return vf_dur(a.seconds() + b.seconds(), (int64_t)a.nanos() + b.nanos()); }
inline Duration operator-(const Duration& a, const Duration& b) { return vf_dur(a.seconds() - b.seconds(), (int64_t)a.nanos() - b.nanos()); }
inline Duration operator-(const Duration& a) { return vf_dur(-a.seconds(), -(int64_t)a.nanos()); }
inline Duration& operator+=(Duration& a, const Duration& b) { a = a + b; return a; }
inline Duration& operator-=(Duration& a, const Duration& b) { a = a - b; return a; }
inline Timestamp operator+(const Timestamp& a, const Duration& b) { return vf_ts(a.seconds() + b.seconds(), (int64_t)a.nanos() + b.nanos()); }
inline Timestamp operator-(const Timestamp& a, const Duration& b) { return vf_ts(a.seconds() - b.seconds(), (int64_t)a.nanos() - b.nanos()); }
inline Duration operator-(const Timestamp& a, const Timestamp& b) { return vf_dur(a.seconds() - b.seconds(), (int64_t)a.nanos() - b.nanos()); }
namespace util {
class TimeUtil {
 public:
  static Timestamp GetCurrentTime() { absl::Duration d = absl::Now() - absl::UnixEpoch(); return vf_ts(d.hi, d.lo / 4); }
  static Timestamp GetEpoch() { return Timestamp(); }
  static Timestamp SecondsToTimestamp(int64_t s) { return vf_ts(s, 0); }
  static Timestamp MillisecondsToTimestamp(int64_t m) { return vf_ts(m / 1000, m % 1000 * 1000000); }
  static Timestamp NanosecondsToTimestamp(int64_t n) { return vf_ts(n / 1000000000, n % 1000000000); }
  static Duration SecondsToDuration(int64_t s) { return vf_dur(s, 0); }
  static Duration MinutesToDuration(int64_t s) { return vf_dur(s * 60, 0); }
  static Duration HoursToDuration(int64_t s) { return vf_dur(s * 3600, 0); }
  static Duration MillisecondsToDuration(int64_t m) { return vf_dur(m / 1000, m % 1000 * 1000000); }
  static Duration NanosecondsToDuration(int64_t n) { return vf_dur(n / 1000000000, n % 1000000000); }
  static int64_t TimestampToSeconds(const Timestamp& t) { return t.seconds(); }
  static int64_t TimestampToMilliseconds(const Timestamp& t) { return t.seconds() * 1000 + t.nanos() / 1000000; }
  static int64_t TimestampToMicroseconds(const Timestamp& t) { return t.seconds() * 1000000 + t.nanos() / 1000; }
  static int64_t TimestampToNanoseconds(const Timestamp& t) { return t.seconds() * 1000000000 + t.nanos(); }
  static int64_t DurationToSeconds(const Duration& d) { return d.seconds(); }
  static int64_t DurationToMilliseconds(const Duration& d) { return d.seconds() * 1000 + d.nanos() / 1000000; }
  static int64_t DurationToNanoseconds(const Duration& d) { return d.seconds() * 1000000000 + d.nanos(); }
};
} } }
