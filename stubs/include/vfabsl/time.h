// Durations and times with the real library's representation (seconds + quarter-nanosecond ticks)
// and saturating arithmetic.
#pragma once
#include <chrono>
#include <ctime>
#include <cmath>
#include <sys/time.h>
#include "vfabsl/strings.h"
namespace absl {
class Duration;
constexpr Duration vf_mk(int64_t hi, uint32_t lo);
class Duration {
 public:
  int64_t hi; uint32_t lo;
  constexpr Duration() : hi(0), lo(0) {}
  constexpr Duration(int64_t h, uint32_t l, int) : hi(h), lo(l) {}
  Duration& operator+=(Duration r); Duration& operator-=(Duration r); Duration& operator*=(int64_t r); Duration& operator*=(double r); Duration& operator/=(int64_t r); Duration& operator/=(double r); Duration& operator%=(Duration r);
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, int64_t>::value, int> = 0> Duration& operator*=(T r) { return *this *= (int64_t)r; }
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, int64_t>::value, int> = 0> Duration& operator/=(T r) { return *this /= (int64_t)r; }
  Duration& operator*=(float r) { return *this *= (double)r; } Duration& operator/=(float r) { return *this /= (double)r; }
};
constexpr Duration vf_mk(int64_t hi, uint32_t lo) { return Duration(hi, lo, 0); }
constexpr int64_t kTps = 4000000000LL;
constexpr Duration ZeroDuration() { return Duration(); }
constexpr Duration InfiniteDuration() { return vf_mk(INT64_MAX, ~0u); }
constexpr bool vf_inf(Duration d) { return d.lo == ~0u; }
constexpr bool operator<(Duration a, Duration b) { return a.hi != b.hi ? a.hi < b.hi : a.hi == INT64_MIN ? a.lo + 1 < b.lo + 1 : a.lo < b.lo; }
constexpr bool operator==(Duration a, Duration b) { return (a.hi == b.hi) & (a.lo == b.lo); }
constexpr bool operator>(Duration a, Duration b) { return b < a; } constexpr bool operator>=(Duration a, Duration b) { return !(a < b); } constexpr bool operator<=(Duration a, Duration b) { return !(b < a); } constexpr bool operator!=(Duration a, Duration b) { return !(a == b); }
constexpr Duration operator-(Duration d) { return d.lo == 0 ? (d.hi == INT64_MIN ? InfiniteDuration() : vf_mk(-d.hi, 0)) : vf_inf(d) ? (d.hi < 0 ? InfiniteDuration() : vf_mk(INT64_MIN, ~0u)) : vf_mk(~d.hi, (uint32_t)(kTps - d.lo)); }
inline Duration& Duration::operator+=(Duration r) {
  if (vf_inf(*this)) return *this; if (vf_inf(r)) return *this = r;
  int64_t o = hi; hi = (int64_t)((uint64_t)hi + (uint64_t)r.hi);
  if (lo >= kTps - r.lo) { hi = (int64_t)((uint64_t)hi + 1); lo -= (uint32_t)kTps; }
  lo += r.lo; if (r.hi < 0 ? hi > o : hi < o) return *this = r.hi < 0 ? -InfiniteDuration() : InfiniteDuration(); return *this;
}
inline Duration& Duration::operator-=(Duration r) {
  if (vf_inf(*this)) return *this; if (vf_inf(r)) return *this = r.hi >= 0 ? -InfiniteDuration() : InfiniteDuration();
  int64_t o = hi; hi = (int64_t)((uint64_t)hi - (uint64_t)r.hi);
  if (lo < r.lo) { hi = (int64_t)((uint64_t)hi - 1); lo += (uint32_t)kTps; }
  lo -= r.lo; if (r.hi < 0 ? hi < o : hi > o) return *this = r.hi >= 0 ? -InfiniteDuration() : InfiniteDuration(); return *this;
}
inline unsigned __int128 vf_abs_ticks(Duration d) { __int128 t = (__int128)d.hi * kTps + d.lo; return t < 0 ? (unsigned __int128)-t : (unsigned __int128)t; }
inline Duration vf_from_ticks(unsigned __int128 t, bool neg) {
  unsigned __int128 s = t / (unsigned __int128)kTps; uint32_t lo = (uint32_t)(t % (unsigned __int128)kTps);
  if (s > (unsigned __int128)INT64_MAX) { if (neg && s == (unsigned __int128)INT64_MAX + 1 && lo == 0) return vf_mk(INT64_MIN, 0); return neg ? -InfiniteDuration() : InfiniteDuration(); }
  Duration d = vf_mk((int64_t)s, lo); return neg ? -d : d;
}
inline Duration& Duration::operator*=(int64_t r) {
  bool neg = (hi < 0) != (r < 0); if (vf_inf(*this)) return *this = neg ? -InfiniteDuration() : InfiniteDuration();
  unsigned __int128 a = vf_abs_ticks(*this), b = r < 0 ? (unsigned __int128)(-(__int128)r) : (unsigned __int128)r;
  if (b != 0 && a > (~(unsigned __int128)0) / b) return *this = neg ? -InfiniteDuration() : InfiniteDuration();
  return *this = vf_from_ticks(a * b, neg);
}
inline Duration& Duration::operator/=(int64_t r) {
  bool neg = (hi < 0) != (r < 0); if (vf_inf(*this) || r == 0) return *this = neg ? -InfiniteDuration() : InfiniteDuration();
  unsigned __int128 a = vf_abs_ticks(*this), b = r < 0 ? (unsigned __int128)(-(__int128)r) : (unsigned __int128)r; return *this = vf_from_ticks(a / b, neg);
}
inline Duration vf_scale(Duration d, double r, bool mul) {
  d = vf_mk((int64_t)vf_unique((uint64_t)d.hi), (uint32_t)vf_unique(d.lo));
  double hd = mul ? (double)d.hi * r : (double)d.hi / r, ld = mul ? (double)d.lo * r : (double)d.lo / r;
  double hi_int = __builtin_trunc(hd), hi_frac = hd - hi_int;
  ld = ld / kTps + hi_frac; double lo_int = __builtin_trunc(ld), lo_frac = ld - lo_int;
  int64_t lt = (int64_t)__builtin_round(lo_frac * kTps);
  double t = hi_int + lo_int; if (t >= 9223372036854775808.0) return InfiniteDuration(); if (t <= -9223372036854775808.0) return -InfiniteDuration();
  int64_t h = (int64_t)hi_int; double li = lo_int; int64_t h2 = h + (int64_t)li;
  h2 += lt / kTps; lt %= kTps; if (lt < 0) { h2--; lt += kTps; } return vf_mk(h2, (uint32_t)lt);
}
inline Duration& Duration::operator*=(double r) { if (vf_inf(*this) || !(r - r == 0)) { bool neg = (r < 0) != (hi < 0); return *this = neg ? -InfiniteDuration() : InfiniteDuration(); } return *this = vf_scale(*this, r, true); }
inline Duration& Duration::operator/=(double r) { if (vf_inf(*this) || !(r == r) || r == 0) { bool neg = (r < 0) != (hi < 0); return *this = neg ? -InfiniteDuration() : InfiniteDuration(); } return *this = vf_scale(*this, r, false); }
inline int64_t vf_idiv(bool sat, Duration n, Duration d, Duration* rem) {
  bool nn = n.hi < 0, dn = d.hi < 0, qn = nn != dn;
  if (vf_inf(n) || d == ZeroDuration()) { *rem = nn ? -InfiniteDuration() : InfiniteDuration(); return qn ? INT64_MIN : INT64_MAX; }
  if (vf_inf(d)) { *rem = n; return 0; }
  if (n.hi > INT64_MIN + 1 && (d.hi == 0 || (d.hi == 1 && d.lo == 0))) {  // whole seconds, or both below a second: the same result with narrow arithmetic
    Duration m = nn ? -n : n;
    if (d.hi == 1) { *rem = nn ? -vf_mk(0, m.lo) : vf_mk(0, m.lo); return nn ? -m.hi : m.hi; }
    if (m.hi == 0) { uint32_t k = m.lo / d.lo, r = m.lo % d.lo; *rem = nn ? -vf_mk(0, r) : vf_mk(0, r); return nn ? -(int64_t)k : (int64_t)k; }
  }
  unsigned __int128 a = vf_abs_ticks(n), b = vf_abs_ticks(d), q = a / b;
  if (sat && q > (unsigned __int128)INT64_MAX) q = qn ? (unsigned __int128)INT64_MAX + 1 : (unsigned __int128)INT64_MAX;
  *rem = vf_from_ticks(a - q * b, nn);
  if (!qn || q == 0) return (int64_t)(uint64_t)(q & INT64_MAX); return -(int64_t)(uint64_t)((q - 1) & INT64_MAX) - 1;
}
inline Duration& Duration::operator%=(Duration r) { Duration m; vf_idiv(false, *this, r, &m); return *this = m; }
inline int64_t IDivDuration(Duration n, Duration d, Duration* rem) { return vf_idiv(true, n, d, rem); }
inline double FDivDuration(Duration n, Duration d) { if (vf_inf(n) || d == ZeroDuration()) return (n.hi < 0) == (d.hi < 0) ? __builtin_inf() : -__builtin_inf(); if (vf_inf(d)) return 0.0; double a = (double)n.hi * kTps + n.lo, b = (double)d.hi * kTps + d.lo; return a / b; }
inline Duration operator+(Duration a, Duration b) { return a += b; } inline Duration operator-(Duration a, Duration b) { return a -= b; }
template <class T> Duration operator*(Duration a, T r) { return a *= r; } template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> Duration operator*(T r, Duration a) { return a *= r; } template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> Duration operator/(Duration a, T r) { return a /= r; }
inline int64_t operator/(Duration a, Duration b) { Duration r; return vf_idiv(true, a, b, &r); } inline Duration operator%(Duration a, Duration b) { return a %= b; }
inline Duration Trunc(Duration d, Duration u) { return d - (d % u); } inline Duration Floor(Duration d, Duration u) { Duration t = Trunc(d, u); return t <= d ? t : t - (u < ZeroDuration() ? -u : u); } inline Duration Ceil(Duration d, Duration u) { Duration t = Trunc(d, u); return t >= d ? t : t + (u < ZeroDuration() ? -u : u); }
inline Duration AbsDuration(Duration d) { return d < ZeroDuration() ? -d : d; }
inline Duration vf_sub(int64_t v, int64_t per) { int64_t h = v / per, l = v % per; if (l < 0) { h--; l += per; } return vf_mk(h, (uint32_t)(l * (kTps / per))); }
inline Duration vf_mulsec(int64_t v, int64_t k) { return v <= INT64_MAX / k && v >= INT64_MIN / k ? vf_mk(v * k, 0) : v > 0 ? InfiniteDuration() : -InfiniteDuration(); }
inline Duration vf_dsec(double n) { if (n >= 0) { if (n >= 9223372036854775808.0) return InfiniteDuration(); int64_t h = (int64_t)n; int64_t t = (int64_t)((n - (double)h) * kTps + 0.5); return t < kTps ? vf_mk(h, (uint32_t)t) : vf_mk(h + 1, (uint32_t)(t - kTps)); } if (n != n) return __builtin_signbit(n) ? -InfiniteDuration() : InfiniteDuration(); if (n <= -9223372036854775808.0) return -InfiniteDuration(); return -vf_dsec(-n); }
#define VF_DUR(N, EI, ED) template <class T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, int> = 0> Duration N(T v) { return EI; } template <class T, std::enable_if_t<std::is_floating_point<T>::value, int> = 0> Duration N(T v) { return ED; }
VF_DUR(Nanoseconds, vf_sub((int64_t)v, 1000000000), vf_dsec(v * 1e-9)) VF_DUR(Microseconds, vf_sub((int64_t)v, 1000000), vf_dsec(v * 1e-6)) VF_DUR(Milliseconds, vf_sub((int64_t)v, 1000), vf_dsec(v * 1e-3)) VF_DUR(Seconds, vf_mk((int64_t)v, 0), vf_dsec(v)) VF_DUR(Minutes, vf_mulsec((int64_t)v, 60), vf_dsec(v * 60)) VF_DUR(Hours, vf_mulsec((int64_t)v, 3600), vf_dsec(v * 3600))
#undef VF_DUR
inline int64_t vf_toint(Duration d, int64_t per, int sh) { if (d.hi >= 0 && d.hi >> sh == 0) return d.hi * per + d.lo / (uint32_t)(kTps / per); Duration r; return vf_idiv(true, d, vf_mk(0, (uint32_t)(kTps / per)), &r); }
inline int64_t ToInt64Nanoseconds(Duration d) { return vf_toint(d, 1000000000, 33); } inline int64_t ToInt64Microseconds(Duration d) { return vf_toint(d, 1000000, 43); } inline int64_t ToInt64Milliseconds(Duration d) { return vf_toint(d, 1000, 53); }
inline int64_t ToInt64Seconds(Duration d) { int64_t h = d.hi; if (vf_inf(d)) return h; if (h < 0 && d.lo != 0) ++h; return h; }
inline int64_t ToInt64Minutes(Duration d) { int64_t h = d.hi; if (vf_inf(d)) return h; if (h < 0 && d.lo != 0) ++h; return h / 60; } inline int64_t ToInt64Hours(Duration d) { int64_t h = d.hi; if (vf_inf(d)) return h; if (h < 0 && d.lo != 0) ++h; return h / 3600; }
inline double ToDoubleSeconds(Duration d) { return FDivDuration(d, Seconds(1)); } inline double ToDoubleMilliseconds(Duration d) { return FDivDuration(d, Milliseconds(1)); } inline double ToDoubleMinutes(Duration d) { return FDivDuration(d, Minutes(1)); } inline double ToDoubleHours(Duration d) { return FDivDuration(d, Hours(1)); } inline double ToDoubleMicroseconds(Duration d) { return FDivDuration(d, Microseconds(1)); } inline double ToDoubleNanoseconds(Duration d) { return FDivDuration(d, Nanoseconds(1)); }
inline std::chrono::seconds ToChronoSeconds(Duration d) { return std::chrono::seconds(ToInt64Seconds(d)); } inline std::chrono::milliseconds ToChronoMilliseconds(Duration d) { return std::chrono::milliseconds(ToInt64Milliseconds(d)); } inline std::chrono::nanoseconds ToChronoNanoseconds(Duration d) { return std::chrono::nanoseconds(ToInt64Nanoseconds(d)); } inline std::chrono::microseconds ToChronoMicroseconds(Duration d) { return std::chrono::microseconds(ToInt64Microseconds(d)); }
inline Duration FromChrono(const std::chrono::nanoseconds& d) { return Nanoseconds(d.count()); } inline Duration FromChrono(const std::chrono::microseconds& d) { return Microseconds(d.count()); } inline Duration FromChrono(const std::chrono::milliseconds& d) { return Milliseconds(d.count()); } inline Duration FromChrono(const std::chrono::seconds& d) { return Seconds(d.count()); } inline Duration FromChrono(const std::chrono::minutes& d) { return Minutes(d.count()); } inline Duration FromChrono(const std::chrono::hours& d) { return Hours(d.count()); }
inline std::string FormatDuration(Duration d) { return vf_inf(d) ? (d.hi < 0 ? "-inf" : "inf") : vfabsl::fmtI(d.hi) + "." + vfabsl::fmtU(d.lo) + "s"; }
inline std::ostream& operator<<(std::ostream& o, Duration d) { return o << FormatDuration(d); }
inline bool ParseDuration(string_view s, Duration* d) { int64_t v; if (s.empty() || s.back() != 's') return false; s.remove_suffix(1); if (!SimpleAtoi(s, &v)) return false; *d = Seconds(v); return true; }
inline timespec ToTimespec(Duration d) { timespec t; t.tv_sec = d.hi; t.tv_nsec = d.lo / 4; return t; }
inline Duration DurationFromTimespec(timespec t) { return Seconds(t.tv_sec) + Nanoseconds(t.tv_nsec); }

class Time {
 public:
  constexpr Time() {} Time& operator+=(Duration d) { rep += d; return *this; } Time& operator-=(Duration d) { rep -= d; return *this; }
  Duration rep;
  struct Breakdown { int64_t year; int month, day, hour, minute, second; Duration subsecond; };
};
inline constexpr Time vf_time(Duration d) { Time t; t.rep = d; return t; }
constexpr bool operator<(Time a, Time b) { return a.rep < b.rep; } constexpr bool operator>(Time a, Time b) { return b < a; } constexpr bool operator<=(Time a, Time b) { return !(b < a); } constexpr bool operator>=(Time a, Time b) { return !(a < b); } constexpr bool operator==(Time a, Time b) { return a.rep == b.rep; } constexpr bool operator!=(Time a, Time b) { return !(a == b); }
inline Time operator+(Time a, Duration d) { return a += d; } inline Time operator+(Duration d, Time a) { return a += d; } inline Time operator-(Time a, Duration d) { return a -= d; } inline Duration operator-(Time a, Time b) { return a.rep - b.rep; }
constexpr Time UnixEpoch() { return Time(); } constexpr Time InfiniteFuture() { return vf_time(vf_mk(INT64_MAX, ~0u)); } constexpr Time InfinitePast() { return vf_time(vf_mk(INT64_MIN, ~0u)); }
inline Time FromUnixNanos(int64_t v) { return vf_time(Nanoseconds(v)); } inline Time FromUnixMicros(int64_t v) { return vf_time(Microseconds(v)); } inline Time FromUnixMillis(int64_t v) { return vf_time(Milliseconds(v)); } inline Time FromUnixSeconds(int64_t v) { return vf_time(Seconds(v)); } inline Time FromTimeT(time_t v) { return vf_time(Seconds(v)); }
inline Time UniversalEpoch() { return vf_time(vf_mk(-62135596800LL, 0)); } inline Time FromUniversal(int64_t u) { return UniversalEpoch() + 100 * Nanoseconds(u); }
inline Time FromUDate(double u) { return vf_time(Milliseconds(u)); } inline double ToUDate(Time t) { return FDivDuration(t.rep, Milliseconds(1)); }
inline int64_t vf_tofloor(Duration d, int64_t per, int sh) { if (d.hi >= 0 && d.hi >> sh == 0) return d.hi * per + d.lo / (uint32_t)(kTps / per); Duration r; int64_t q = vf_idiv(true, d, vf_mk(0, (uint32_t)(kTps / per)), &r); return (q > 0 || r >= ZeroDuration() || q == INT64_MIN) ? q : q - 1; }
inline int64_t ToUnixNanos(Time t) { return vf_tofloor(t.rep, 1000000000, 33); } inline int64_t ToUnixMicros(Time t) { return vf_tofloor(t.rep, 1000000, 43); } inline int64_t ToUnixMillis(Time t) { return vf_tofloor(t.rep, 1000, 53); } inline int64_t ToUnixSeconds(Time t) { return t.rep.hi; } inline time_t ToTimeT(Time t) { return t.rep.hi; }
inline timespec ToTimespec(Time t) { return ToTimespec(t.rep); } inline timeval ToTimeval(Time t) { timeval v; v.tv_sec = t.rep.hi; v.tv_usec = t.rep.lo / 4000; return v; } inline Time TimeFromTimespec(timespec t) { return vf_time(DurationFromTimespec(t)); } inline Time TimeFromTimeval(timeval t) { return vf_time(Seconds(t.tv_sec) + Microseconds(t.tv_usec)); }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(ToUnixNanos(t))); } inline Time FromChrono(const std::chrono::system_clock::time_point& t) { return vf_time(Nanoseconds(t.time_since_epoch().count())); }
class TimeZone { public: Time At(Time t) const { return t; } };
inline TimeZone UTCTimeZone() { return {}; } inline TimeZone LocalTimeZone() { return {}; } inline TimeZone FixedTimeZone(int) { return {}; } inline bool LoadTimeZone(string_view, TimeZone*) { return true; }
static constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez"; static constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
inline std::string FormatTime(Time t) { return "T" + FormatDuration(t.rep); } inline std::string FormatTime(string_view f, Time t, TimeZone) { return std::string(f) + "T" + FormatDuration(t.rep); } inline std::string FormatTime(Time t, TimeZone) { return FormatTime(t); }
inline std::ostream& operator<<(std::ostream& o, Time t) { return o << FormatTime(t); }
}
namespace vf { extern absl::Time now; extern absl::Time (*now_fn)(); void slept(absl::Duration d); }
namespace absl {
inline Time Now() { return vf::now_fn ? vf::now_fn() : vf::now; }
inline int64_t GetCurrentTimeNanos() { return ToUnixNanos(Now()); }
inline void SleepFor(Duration d) { vf::slept(d); }
}
