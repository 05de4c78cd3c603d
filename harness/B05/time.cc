// Times and durations to messages and back.
#include "fcp/base/time_util.h"
#include "vf.h"
using namespace fcp;
static int64_t sec(int64_t lo, int64_t hi) { int64_t s = (int64_t)vf_u64("seconds"); vf_assume(s >= lo && s <= hi); return s; }
static uint32_t ticks() { uint32_t t = vf_u32("ticks"); vf_assume(t < 4000000000u); return t; }
static const int64_t kMinT = -62135596800ll, kMaxT = 253402300799ll, kMaxD = 315576000000ll;
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  if (mode == 0) {  // time -> message -> time
    absl::Time t = absl::FromUnixSeconds(sec(kMinT, kMaxT)) + absl::Duration(0, ticks(), 0);
    auto p = TimeUtil::ConvertAbslToProtoTimestamp(t);
    vf_assert(p.nanos() >= 0 && p.nanos() <= 999999999, "the nanoseconds are normalised");
    absl::Time u = TimeUtil::ConvertProtoToAbslTime(p);
    vf_assert(u - t < absl::Nanoseconds(1) && t - u < absl::Nanoseconds(1), "the same instant to the nanosecond");
    if (t.rep.lo % 4 == 0) vf_assert(u == t, "whole nanoseconds are kept exactly");
    vf_reach("time");
  } else if (mode == 1) {  // message -> time -> message
    google::protobuf::Timestamp p; int64_t s = sec(kMinT, kMaxT); uint32_t n = vf_u32("nanos"); vf_assume(n <= 999999999); p.set_seconds(s); p.set_nanos((int32_t)n);
    absl::Time t = TimeUtil::ConvertProtoToAbslTime(p);
    vf_assert(absl::ToUnixSeconds(t) == s, "the seconds are kept");
    auto q = TimeUtil::ConvertAbslToProtoTimestamp(t);
    vf_assert(q.seconds() == s && q.nanos() == (int32_t)n, "the message is kept");
    vf_reach("time");
  } else if (mode == 2) {  // duration -> message -> duration
    absl::Duration d = absl::Duration(sec(0, vf_param("max", kMaxD)), ticks(), 0); bool neg = vf_param("neg", 0); if (neg) d = -d;
    auto p = TimeUtil::ConvertAbslToProtoDuration(d);
    vf_assert(p.nanos() <= 999999999 && p.nanos() >= -999999999, "the nanoseconds are normalised");
    if (p.seconds() > 0) vf_assert(p.nanos() >= 0, "seconds and nanoseconds have the same sign");
    if (p.seconds() < 0) vf_assert(p.nanos() <= 0, "seconds and nanoseconds have the same sign");
    if (d >= absl::ZeroDuration()) vf_assert(p.seconds() >= 0 && p.nanos() >= 0, "the sign is kept"); else vf_assert(p.seconds() <= 0 && p.nanos() <= 0, "the sign is kept");
    absl::Duration e = TimeUtil::ConvertProtoToAbslDuration(p);
    vf_assert(e - d < absl::Nanoseconds(1) && d - e < absl::Nanoseconds(1), "the same span to the nanosecond");
    if (d.lo % 4 == 0) vf_assert(e == d, "whole nanoseconds are kept exactly");
    vf_reach("span");
  } else {  // message -> duration -> message
    google::protobuf::Duration p; int64_t s = sec(0, kMaxD); uint32_t n = vf_u32("nanos"); vf_assume(n <= 999999999);
    bool neg = vf_param("neg", 0); if (neg) { s = -s; } int32_t m = neg ? -(int32_t)n : (int32_t)n;
    p.set_seconds(s); p.set_nanos(m);
    auto q = TimeUtil::ConvertAbslToProtoDuration(TimeUtil::ConvertProtoToAbslDuration(p));
    vf_assert(q.seconds() == s && q.nanos() == m, "the message is kept");
    vf_reach("span");
  }
}
