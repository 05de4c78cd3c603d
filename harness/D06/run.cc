// Interruptible work on a real thread pool under every schedule.
#include "../common/logm.h"
#include "fcp/client/interruptible_runner.h"
#include "vfabsl/sync.h"
#include "vf.h"
using fcp::client::InterruptibleRunner;
static int started, finished, aborts, polls, said; static bool stop_seen; static absl::Time aborted_at;
static void slow_exit() {
  vf_assert(aborts == 1, "the process ends only after the work was asked to stop");
  vf_assert(absl::Now() - aborted_at >= absl::Seconds((int)vf_param("grace", 30) + 500), "the process ends only after both shutdown periods"); vf_reach("gave up"); vf_end();
}
extern "C" void exit(int) noexcept { slow_exit(); vf_end(); }
extern "C" void vf_main() {
  int maxpolls = (int)vf_param("polls", 2), runs = (int)vf_param("runs", 1), steps = (int)vf_param("steps", 1); bool cooperative = vf::flag("work reacts to the abort");
  VfLog log; static bool stop; stop = false;
  {
    InterruptibleRunner r(&log, [&] { polls++; if (polls > maxpolls * runs + runs) vf_end(); if (vf::flag("interrupt")) { said++; return true; } return false; }, {absl::Seconds(5), absl::Seconds((int)vf_param("grace", 30)), absl::Seconds(500)}, {});
    for (int k = 0; k < runs; k++) {
      started = finished = aborts = said = 0; stop = false; int code = 1 + vf_choice(2, "code"); bool ok = vf::flag("ok");
      absl::Status s = r.Run([&]() { started++; vfs::point("work"); for (int i = 0; i < steps && !(cooperative && stop); i++) vfs::point("work"); if (!cooperative && vf::flag("stuck")) vfs::block([](void*) { return stop; }, nullptr, false, "stuck work"); finished++; return ok ? absl::OkStatus() : absl::Status((absl::StatusCode)(absl::StatusCode::kOutOfRange), std::string(code, 'x')); },
                             [&] { aborts++; aborted_at = absl::Now(); vf_assert(said > 0, "work is only asked to stop after an interruption was requested"); if (vf::flag("abort works")) stop = true; });
      vf_assert(started == finished, "control does not return while the work is running"); vf_assert(started <= 1 && aborts <= 1, "the work runs once and is asked to stop at most once");
      if (said == 0) { vf_assert(started == 1 && aborts == 0, "without interruption the work runs undisturbed"); vf_assert(ok ? s.ok() : s.code() == absl::StatusCode::kOutOfRange && s.message() == std::string(code, 'x'), "without interruption the result is the work's own"); vf_reach("own result"); }
      else { vf_assert(s.code() == absl::StatusCode::kCancelled, "an interrupted run reports cancellation"); if (started) { vf_assert(aborts == 1, "interrupted work is asked to stop"); vf_reach("interrupted"); } else { vf_assert(aborts == 0, "work that never started is not asked to stop"); vf_reach("not started"); } }
    }
  }
  vf_assert(started == finished, "the runner is not destroyed while work is running"); vf_reach("done");
}
