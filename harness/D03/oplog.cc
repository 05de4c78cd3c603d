// The run log and what is committed of it.
#include <map>
#include "../common/logm.h"
#include "fcp/base/time_util.h"
#include "../common/flags.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "vf.h"
using namespace fcp::client; using namespace fcp::client::opstats;
using google::internal::federatedml::v2::RetryWindow;
struct F : VfFlags { bool phases; bool enable_phase_stats_logging() const override { return phases; } };
static OpStatsSequence store; static int fails;
struct Db : OpStatsDb {
  absl::StatusOr<OpStatsSequence> Read() override { return store; }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override { if (fails && vf::flag("commit fails")) { fails--; OpStatsSequence lost = store; f(lost); return absl::InternalError("disk"); } f(store); return absl::OkStatus(); }
};
// Reference: phases in order with what was logged in each; the first element is the run itself.
struct Sec { OperationalStats::PhaseStats::Phase phase = OperationalStats::PhaseStats::UNSPECIFIED; std::string task, error; std::vector<std::pair<int, int64_t>> events; struct D { int64_t n = 0, b = 0; bool first = false; int64_t t = 0; }; std::map<std::string, D> data; int64_t down = 0, up = 0, dur = 0; bool net = false; };
static int64_t now_s;
template <class M> static void put(const Sec& s, M* m) {
  m->set_task_name(s.task); m->set_error_message(s.error);
  for (auto& e : s.events) { auto* x = m->add_events(); x->set_event_type((OperationalStats::Event::EventKind)e.first); x->mutable_timestamp()->set_seconds(e.second); }
  for (auto& d : s.data) { auto& x = (*m->mutable_dataset_stats())[d.first]; x.set_num_examples_read(d.second.n); x.set_num_bytes_read(d.second.b); if (d.second.first) x.mutable_first_access_timestamp()->set_seconds(d.second.t); }
}
template <class Mp> static bool same_map(const Mp& a, const Mp& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto it = b.find(x.first); if (it == b.end() || it->second.SerializeAsString() != x.second.SerializeAsString()) return false; } return true; }
static bool same(OperationalStats a, OperationalStats b) {
  if (!same_map(a.dataset_stats(), b.dataset_stats()) || a.phase_stats_size() != b.phase_stats_size()) return false; a.clear_dataset_stats(); b.clear_dataset_stats();
  for (int i = 0; i < a.phase_stats_size(); i++) { if (!same_map(a.phase_stats(i).dataset_stats(), b.phase_stats(i).dataset_stats())) return false; a.mutable_phase_stats(i)->clear_dataset_stats(); b.mutable_phase_stats(i)->clear_dataset_stats(); }
  return a.SerializeAsString() == b.SerializeAsString();
}
extern "C" void vf_main() {
  int ops = (int)vf_param("ops", 4); F flags; flags.phases = vf_param("phases", 1); VfLog log; fails = (int)vf_param("fails", 0); now_s = 1000; vf::now = absl::FromUnixSeconds(now_s);
  store = OpStatsSequence(); OperationalStats old; int earlier = fails ? (int)vf_choice(3, "earlier runs") : 1; 
  for (int i = 0; i < earlier; i++) { old.set_session_name(std::string(1, char('p' + i))); *store.add_opstats() = old; }
  OpStatsSequence before = store;
  auto lg = std::make_unique<OpStatsLoggerImpl>(std::make_unique<Db>(), &log, &flags, "session", "population");
  Sec top; std::vector<Sec> ph; bool in = false; int64_t acc_d = 0, acc_u = 0, acc_t = 0; bool has_min = false; int64_t min_idx = 0; bool rw = false; RetryWindow window; std::map<std::string, int64_t> firsts; bool any_ok = false;
  auto cur = [&]() -> Sec& { return in ? ph.back() : top; };
  auto check = [&]() {
    OperationalStats w; w.set_session_name("session"); w.set_population_name("population"); put(top, &w);
    w.set_chunking_layer_bytes_downloaded(top.down); w.set_chunking_layer_bytes_uploaded(top.up); if (top.net) w.mutable_network_duration()->set_seconds(top.dur);
    for (auto& p : ph) { auto* m = w.add_phase_stats(); m->set_phase(p.phase); put(p, m); m->set_bytes_downloaded(p.down); m->set_bytes_uploaded(p.up); if (p.net) m->mutable_network_duration()->set_seconds(p.dur); }
    if (has_min) w.set_min_sep_policy_index(min_idx); if (rw) *w.mutable_retry_window() = window;
    vf_assert(store.opstats_size() == earlier + 1, "a run has exactly one entry");
    for (int i = 0; i < earlier; i++) vf_assert(same(store.opstats(i), before.opstats(i)), "entries of earlier runs are left alone");
    vf_assert(same(store.opstats(earlier), w), "the entry holds what was logged");
  };
  auto failed = [&](int f) { // a commit that failed leaves the history as it was
    vf_assert(store.opstats_size() == earlier + (any_ok ? 1 : 0), "a failed commit does not change the history"); for (int i = 0; i < earlier; i++) vf_assert(same(store.opstats(i), before.opstats(i)), "entries of earlier runs are left alone"); (void)f; };
  for (int k = 0; k < ops; k++) {
    now_s += 10; vf::now = absl::FromUnixSeconds(now_s); int ev = vf_u8("event"); vf_assume(ev <= 62); auto kind = (OperationalStats::Event::EventKind)ev;
    static const int tasks[] = {8, 1, 8, 1};  // two phases with their tasks first
    switch (vf_param("tasks", 0) && k < 4 ? tasks[k] : vf_choice(11, "operation")) {
      case 0: lg->AddEvent(kind); cur().events.push_back({ev, now_s}); break;
      case 1: { std::string t = vf::flag("task") ? "t1" : "t2"; lg->AddEventAndSetTaskName(t, kind); cur().events.push_back({ev, now_s}); cur().task = t; break; }
      case 2: { std::string m = std::string("error") + char('0' + k); lg->AddEventWithErrorMessage(kind, m); cur().events.push_back({ev, now_s}); if (cur().error.empty()) cur().error = m; break; }
      case 3: { int64_t v = (int64_t)vf_u64("index"); lg->SetMinSepPolicyIndex(v); has_min = true; min_idx = v; break; }
      case 4: { std::string c = vf::flag("collection") ? "c1" : "c2"; int n = vf_u8("examples"); int64_t b = vf_u16("bytes"); lg->UpdateDatasetStats(c, n, b); auto& d = cur().data[c]; d.n += n; d.b += b; if (firsts.count(c)) { d.first = true; d.t = firsts[c]; } break; }
      case 5: { std::string c = vf::flag("collection") ? "c1" : "c2"; lg->RecordCollectionFirstAccessTime(c, absl::FromUnixSeconds(now_s)); if (!firsts.count(c)) firsts[c] = now_s; break; }
      case 6: { int64_t d = vf_u16("downloaded"), u = vf_u16("uploaded"); vf_assume(d >= acc_d && u >= acc_u); int64_t t = acc_t + 3; lg->SetNetworkStats({.bytes_downloaded = d, .bytes_uploaded = u, .network_duration = absl::Seconds(t)}); Sec& s = cur(); s.net = true; if (in) { s.down += d - acc_d; s.up += u - acc_u; s.dur += t - acc_t; acc_d = d; acc_u = u; acc_t = t; } else { s.down = d; s.up = u; s.dur = t; } break; }
      case 7: { RetryWindow r; r.set_retry_token("secret"); r.mutable_delay_min()->set_seconds(k + 1); lg->SetRetryWindow(r); window = RetryWindow(); window.mutable_delay_min()->set_seconds(k + 1); rw = true; break; }
      case 8: { auto p = (OperationalStats::PhaseStats::Phase)(1 + vf_choice(3, "phase") * 2); lg->StartLoggingForPhase(p); if (flags.phases) { ph.push_back(Sec()); ph.back().phase = p; in = true; } break; }
      case 9: lg->StopLoggingForTheCurrentPhase(); in = false; break;
      case 10: { int f0 = fails; auto s = lg->CommitToStorage(); if (fails == f0) { vf_assert(s.ok(), "a commit that worked is reported as such"); any_ok = true; check(); vf_reach("committed"); } else { vf_assert(!s.ok(), "a failed commit is reported"); failed(0); vf_reach("failed"); } break; }
    }
    std::string want; if (in) want = ph.back().task; if (want.empty()) { if (flags.phases) { for (size_t i = ph.size(); i-- > 0 && want.empty();) want = ph[i].task; } else want = top.task; }
    if (k == ops - 1) vf_assert(lg->GetCurrentTaskName() == want, "the current task is the latest one logged");
  }
  int f0 = fails; lg.reset(); if (fails == f0) { check(); vf_reach("final"); } else failed(1);
}
