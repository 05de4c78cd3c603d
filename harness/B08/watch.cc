// Stopwatch over nested and repeated scopes.
#include <memory>
#include <vector>
#include "fcp/base/wall_clock_stopwatch.h"
#include "vfabsl/sync.h"
#include "vf.h"
using namespace fcp;
typedef WallClockStopwatch::Handle H;
static std::unique_ptr<H> open(WallClockStopwatch* w) { return std::unique_ptr<H>(new H(w->Start())); }
static absl::Duration step() { absl::Duration d(vf_u16("elapsed"), 1500000000u, 0); vf::now += d; return d; }
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), steps = (int)vf_param("steps", 5);
  vf::now = absl::FromUnixSeconds(5000);
  auto w = mode == 1 ? WallClockStopwatch::CreateNoop() : WallClockStopwatch::Create();
  if (mode < 2) {
    std::unique_ptr<H> h[3]; int nopen = 0; absl::Duration want = absl::ZeroDuration();
    for (int s = 0; s < steps; s++) {
      absl::Duration d = step(); if (nopen && mode == 0) want += d;
      int i = vf_choice(4, "operation");
      if (i < 3) { if (h[i]) { h[i].reset(); nopen--; } else { h[i] = open(w.get()); nopen++; } }
      absl::Duration got = w->GetTotalDuration();
      vf_assert(got == want, "the total is the time during which a scope was open");
      vf_assert(w->GetTotalDuration() == got, "querying does not change the total");
    }
    for (auto& x : h) x.reset();
    vf_assert(w->GetTotalDuration() == want, "the total is the time during which a scope was open");
    vf_reach("total");
  } else {  // scopes on two threads; time moves by one second inside each scope
    int t = vfs::spawn([](void* p) { auto w = (WallClockStopwatch*)p; H h = w->Start(); vf::now += absl::Seconds(1); vfs::point("work"); }, w.get());
    { H h = w->Start(); vf::now += absl::Seconds(1); vfs::point("work"); }
    vfs::join(t);
    vf_assert(w->GetTotalDuration() == absl::Seconds(2), "time counts once however scopes overlap");
    vf::now += absl::Seconds(7);
    vf_assert(w->GetTotalDuration() == absl::Seconds(2), "time outside scopes does not count");
    vf_reach("total");
  }
}
