// Retry delays.
#include "fcp/base/time_util.h"
#include "fcp/client/federated_protocol_util.h"
#include "vf.h"
using namespace fcp; using namespace fcp::client;
static absl::Duration dur(const google::protobuf::Duration& d) { return absl::Seconds(d.seconds()) + absl::Nanoseconds(d.nanos()); }
static google::protobuf::Duration proto(int64_t s, int32_t n) { google::protobuf::Duration d; d.set_seconds(s); d.set_nanos(n); return d; }
// Seconds within +-2^bits; nanoseconds of the same sign from a few values.
static google::protobuf::Duration any(const char* n, int bits, bool frac) {
  int64_t s = (int64_t)vf_u64(n); vf_assume(s >= -(1ll << bits) && s <= (1ll << bits)); int32_t ns = 0;
  if (frac) { static const int32_t v[] = {0, 1, 500000000, 999999999}; ns = v[vf_choice(4, "nanoseconds")]; if (s < 0) ns = -ns; }
  return proto(s, ns);
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), bits = (int)vf_param("bits", 20); absl::BitGen g; 
  if (mode == 0) {
    // Every lower bound; the width of the range is one of a few, negative ones included.
    static const int64_t ws[] = {0, 1, 2, 7, 59, 3600, 86400, 31536000, 1000000007, -1, -100}; static const int32_t ns[] = {0, 1, 500000000, 999999999};
    int64_t s; if (vf_param("split", 0)) { static const int64_t ss[] = {0, 1, 2, 3, 10, 61, 3600, 86399, 604800, 1ll << 33, -1, -2, -3600}; s = ss[vf_choice(13, "min")]; } else { s = (int64_t)vf_u64("min"); vf_assume(s >= vf_param("from", 0) && s <= (1ll << bits)); }
    int64_t wd = ws[vf_choice(11, "width")]; int32_t n1 = ns[vf_choice(4, "ns")], n2 = ns[vf_choice(4, "ns")];
    if (s < 0) n1 = -n1; if (s + wd < 0) n2 = -n2;
    auto lo = proto(s, n1), hi = proto(s + wd, n2); absl::Time t0 = absl::Now(); absl::Time t = PickRetryTimeFromRange(lo, hi, g); absl::Duration d = t - t0;
    absl::Duration l = dur(lo), h = dur(hi); if (l < absl::ZeroDuration()) l = absl::ZeroDuration(); if (h < l) h = l;
    vf_assert(d >= l, "the delay is not below the lower bound nor negative"); vf_assert(d <= h, "the delay is not above the upper bound"); vf_reach("picked");
  } else if (mode == 1) {
    static const int64_t ss[] = {0, 1, 2, 3, 5, 10, 59, 61, 900, 3600, 14400, 86400, 604800, 31536000, 1ll << 33, -1}; int64_t s = ss[vf_choice(16, "delay")]; absl::Duration target = absl::Seconds(s) + absl::Nanoseconds(vf_choice(2, "ns") * 1234567); if (target < absl::ZeroDuration()) target = absl::ZeroDuration() - absl::Milliseconds(100);
    static const double js[] = {0.0, 0.125, 0.2, 0.5, 1.0, -1.0, 3.0}; double j = js[vf_choice(7, "jitter")], c = j < 0 ? 0 : j > 1 ? 1 : j;
    auto w = GenerateRetryWindowFromTargetDelay(target, j, g); if (target < absl::ZeroDuration()) target = absl::ZeroDuration(); absl::Duration a = dur(w.delay_min()), b = dur(w.delay_max());
    vf_assert(a == b, "minimum and maximum are equal"); vf_assert(a >= absl::ZeroDuration(), "not negative");
    // Slack of one microsecond for rounding.
    vf_assert(a >= target * (1.0 - c) - absl::Microseconds(1), "the delay is not below the jittered target"); vf_assert(a <= target * (1.0 + c) + absl::Microseconds(1), "the delay is not above the jittered target"); vf_reach("window");
  } else {
    auto x = any("time", 40, true); absl::Duration d = dur(x); absl::Time now = absl::Now();
    auto w = GenerateRetryWindowFromRetryTime(now + d); absl::Duration a = dur(w.delay_min()), b = dur(w.delay_max());
    vf_assert(a == b, "minimum and maximum are equal"); vf_assert(a == (d < absl::ZeroDuration() ? absl::ZeroDuration() : d), "the window is the remaining time, and zero once the time has passed"); vf_assert(w.retry_token().empty(), "no token is made up"); vf_reach(d < absl::ZeroDuration() ? "past" : "future");
  }
}
