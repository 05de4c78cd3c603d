// Timers on the simulated and the real-time clock.
#include <memory>
#include <vector>
#include "fcp/base/simulated_clock.h"
#include "vfabsl/sync.h"
#include "vf.h"
using namespace fcp;
static Clock* clk; static int fired[8]; static absl::Time due[8]; static int seq[16], nseq;
static absl::Time base() { return absl::FromUnixSeconds(1000); }
struct W : Clock::Waiter {
  int id; int then; absl::Duration d; SimulatedClock* adv = nullptr;
  W(int i, int t = -1) : id(i), then(t) {}
  void WakeUp() override {
    vf_assert(clk->Now() >= due[id], "a timer never fires before its deadline");
    fired[id]++; vf_assert(fired[id] == 1, "a timer fires at most once"); seq[nseq++] = id;
    vfs::point("callback");
    if (adv) adv->AdvanceTime(d);
    if (then >= 0) clk->WakeupWithDeadline(due[then], std::make_shared<W>(then));
  }
};
static absl::Duration amount(const char* n) { uint8_t v = vf_u8(n); return absl::Nanoseconds(v) * 1; }
static absl::Time deadline(const char* n) { int8_t v = (int8_t)vf_u8(n); return absl::Time(base() + absl::Nanoseconds((int)v)); }
static void settled(SimulatedClock& c, int n, const bool* registered) {
  absl::Time now = c.Now();
  for (int i = 0; i < n; i++) if (registered[i]) {
    if (due[i] <= now) vf_assert(fired[i] == 1, "a timer has fired once the clock has reached its deadline"); else vf_assert(fired[i] == 0, "a timer never fires before its deadline");
  }
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), n = (int)vf_param("n", 3);
  SimulatedClock c(base()); clk = &c;
  bool reg[8] = {};
  if (mode == 0) {  // registrations and advances in every order
    int steps = (int)vf_param("steps", 4), k = 0;
    for (int s = 0; s < steps; s++) {
      int first = nseq; absl::Time before = c.Now();
      if (k < n && vf::flag("register")) { due[k] = deadline("deadline"); reg[k] = true; c.WakeupWithDeadline(due[k], std::make_shared<W>(k)); k++; vf_assert(c.Now() == before, "registering does not move the clock"); }
      else { absl::Duration d = amount("advance"); if (vf::flag("set")) c.SetTime(c.Now() + d); else c.AdvanceTime(d); vf_assert(c.Now() == before + d, "advancing moves the clock by the given amount"); }
      settled(c, k, reg);
      for (int i = first + 1; i < nseq; i++) { vf_assert(due[seq[i - 1]] <= due[seq[i]], "timers fire in order of their deadlines"); if (due[seq[i - 1]] == due[seq[i]]) vf_assert(seq[i - 1] < seq[i], "timers with equal deadlines fire in order of registration"); }
    }
    vf_reach("settled");
  } else if (mode == 1) {  // a callback registers a timer
    for (int i = 0; i < 3; i++) due[i] = deadline("deadline");
    reg[0] = true;
    c.WakeupWithDeadline(due[0], std::make_shared<W>(0, 2)); reg[2] = fired[0]; settled(c, 3, reg);
    reg[1] = true; c.WakeupWithDeadline(due[1], std::make_shared<W>(1)); reg[2] = fired[0]; settled(c, 3, reg);
    c.AdvanceTime(amount("advance")); reg[2] = fired[0]; settled(c, 3, reg);
    c.AdvanceTime(amount("advance")); reg[2] = fired[0]; settled(c, 3, reg);
    vf_reach("settled");
  } else if (mode == 2) {  // a callback advances the clock
    for (int i = 0; i < 3; i++) { due[i] = deadline("deadline"); reg[i] = true; }
    auto w = std::make_shared<W>(0); w->adv = &c; w->d = amount("advance");
    c.WakeupWithDeadline(due[1], std::make_shared<W>(1)); c.WakeupWithDeadline(due[0], w); c.WakeupWithDeadline(due[2], std::make_shared<W>(2));
    settled(c, 3, reg);
    c.AdvanceTime(amount("advance")); settled(c, 3, reg);
    vf_reach("settled");
  } else if (mode == 3) {  // two threads register and advance
    for (int i = 0; i < 3; i++) due[i] = base() + absl::Seconds(i == 1 ? 2 : 1);
    int t = vfs::spawn([](void* p) { auto c = (SimulatedClock*)p; c->WakeupWithDeadline(due[0], std::make_shared<W>(0, vf_param("then", 0) ? 2 : -1)); c->AdvanceTime(absl::Seconds(1)); }, &c);
    c.AdvanceTime(absl::Seconds(1));
    c.WakeupWithDeadline(due[1], std::make_shared<W>(1));
    vfs::join(t);
    reg[0] = reg[1] = true; reg[2] = vf_param("then", 0); settled(c, 3, reg);
    vf_assert(c.Now() == base() + absl::Seconds(2), "advancing moves the clock by the given amount");
    vf_reach("settled");
  } else {  // the real-time clock; time passes while its thread sleeps
    vf::now = base(); clk = Clock::RealClock();
    for (int i = 0; i < n; i++) due[i] = base() + absl::Microseconds(500 + 1000 * (int)vf_choice(3, "deadline"));
    if (vf::flag("past")) due[0] = base() - absl::Seconds(1);
    for (int i = 0; i < n; i++) { absl::Time before = vf::now; clk->WakeupWithDeadline(due[i], std::make_shared<W>(i)); if (due[i] <= before && vf_param("preempt", 2) == 0) vf_assert(fired[i] == 1, "a timer already due fires at once"); }
    vfs::block([](void* p) { int n = *(int*)p, k = 0; for (int i = 0; i < n; i++) k += fired[i]; return k == n; }, &n, false, "all timers");
    for (int i = 0; i < n; i++) vf_assert(fired[i] == 1, "a timer fires exactly once");
    absl::Time last = base(); for (int i = 0; i < n; i++) if (due[i] > last) last = due[i];
    vf_assert(vf::now <= last + absl::Milliseconds(1), "a timer fires as soon as the clock has reached its deadline");
    vf_reach("settled"); vf_end();
  }
}
