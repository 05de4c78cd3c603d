// Looking up contributions in histories of both formats.
#include "fcp/client/opstats/opstats_utils.h"
#include "google/protobuf/util/time_util.h"
#include "vf.h"
using namespace fcp::client::opstats;
using OS = OperationalStats; using PS = OS::PhaseStats;
namespace {
struct Ev { int kind; int64_t t; };
struct Data { int64_t n = 0, b = 0, first = 0; };
// What one task's entry must contain.
struct Task { std::string name, error, population, session; std::vector<Ev> ev; std::map<std::string, Data> data; int64_t down = 0, up = 0, ms = 0; bool has_index = false, window = false; int64_t index = 0;
  bool done() const { bool s = false, a = false; for (auto& e : ev) { s |= e.kind == OS::Event::EVENT_KIND_RESULT_UPLOAD_STARTED; a |= e.kind == OS::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED; } return s && !a; }
  int64_t time() const { for (auto& e : ev) if (e.kind == OS::Event::EVENT_KIND_RESULT_UPLOAD_STARTED) return e.t; return -1; } };
int rich;
int64_t moment() { return (int64_t)vf_u32("time"); }
template <class M> void event(M* m, Task& t, int kind) { Ev e{kind, moment()}; auto* x = m->add_events(); x->set_event_type((OS::Event::EventKind)kind); x->mutable_timestamp()->set_seconds(e.t); t.ev.push_back(e); }
template <class M> void data(M* m, Task& t, const char* c) { Data d{(int64_t)vf_u16("examples"), (int64_t)vf_u16("bytes"), moment()}; auto& x = (*m->mutable_dataset_stats())[c]; x.set_num_examples_read(d.n); x.set_num_bytes_read(d.b); x.mutable_first_access_timestamp()->set_seconds(d.first);
  if (!t.data.count(c)) t.data[c] = d; else { auto& o = t.data[c]; o.n += d.n; o.b += d.b; o.first = (int64_t)vf_ite(d.first < o.first, (uint64_t)d.first, (uint64_t)o.first); } }
void merge(Task& a, const Task& b) { for (auto& e : b.ev) a.ev.push_back(e); if (!b.error.empty()) a.error = b.error; if (!b.name.empty()) a.name = b.name; a.down += b.down; a.up += b.up; a.ms += b.ms; for (auto& d : b.data) if (!a.data.count(d.first)) a.data[d.first] = d.second; else { auto& o = a.data[d.first]; o.n += d.second.n; o.b += d.second.b; o.first = (int64_t)vf_ite(d.second.first < o.first, (uint64_t)d.second.first, (uint64_t)o.first); } }
const char* NAMES[] = {"ab", "ac", "b"};
bool uploaded() { return vf_param("range", 0) || (!rich && !vf_param("uploads", 0)) || vf::flag("uploaded"); }
template <class M> void upload_events(M* m, Task& t) {
  int k = vf_param("range", 0) ? 0 : vf_choice(rich ? 5 : 3, "upload"); if (k == 2) { event(m, t, OS::Event::EVENT_KIND_FAILURE_UPLOAD_STARTED); return; }
  event(m, t, OS::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);
  if (k == 1) event(m, t, OS::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED); if (k == 3) event(m, t, OS::Event::EVENT_KIND_RESULT_UPLOAD_ERROR_IO); if (k == 4) event(m, t, OS::Event::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED);
}
Task phase(OS& o, PS::Phase p, int kind, const std::string& name, bool stats) {
  Task t; auto* m = o.add_phase_stats(); m->set_phase(p); if (!name.empty()) { m->set_task_name(name); t.name = name; }
  if (p == PS::UPLOAD) upload_events(m, t); else event(m, t, kind);
  if (stats) { t.down = vf_u16("downloaded"); t.up = vf_u16("uploaded"); t.ms = 1500; m->set_bytes_downloaded(t.down); m->set_bytes_uploaded(t.up); m->mutable_network_duration()->set_seconds(1); m->mutable_network_duration()->set_nanos(500000000); if (p == PS::COMPUTATION || p == PS::ELIGIBILITY_COMPUTATION || p == PS::UPLOAD) data(m, t, "c"); if (p == PS::UPLOAD) data(m, t, "d"); if (p == PS::COMPUTATION) { t.error = "e1"; m->set_error_message("e1"); } }
  return t;
}
void common(OS& o, Task& t, bool index, int64_t ix, const std::string& session) { t.population = "p"; t.session = session; t.window = rich != 0; t.has_index = index; t.index = ix; }
void same(const OS& o, const Task& t) {
  vf_assert(o.task_name() == t.name && o.population_name() == t.population && o.session_name() == t.session, "the entry belongs to the task and run");
  vf_assert(o.events_size() == (int)t.ev.size(), "all events of the task"); for (int i = 0; i < o.events_size(); i++) vf_assert(o.events(i).event_type() == t.ev[i].kind && o.events(i).timestamp().seconds() == t.ev[i].t, "events in order");
  vf_assert(o.chunking_layer_bytes_downloaded() == t.down && o.chunking_layer_bytes_uploaded() == t.up && google::protobuf::util::TimeUtil::DurationToMilliseconds(o.network_duration()) == t.ms, "traffic is the task's sum"); vf_assert(o.error_message() == t.error, "error message");
  vf_assert(o.dataset_stats().size() == t.data.size(), "collections"); for (auto& d : t.data) { auto it = o.dataset_stats().find(d.first); vf_assert(it != o.dataset_stats().end() && it->second.num_examples_read() == d.second.n && it->second.num_bytes_read() == d.second.b, "collection counts are summed"); vf_assert(it->second.first_access_timestamp().seconds() == d.second.first, "first access is the earliest"); }
  vf_assert(o.has_retry_window() == t.window && (!t.window || o.retry_window().delay_min().seconds() == 3), "retry window is kept");
  vf_assert(o.has_min_sep_policy_index() == t.has_index && (!t.has_index || o.min_sep_policy_index() == t.index), "the policy index is kept"); vf_assert(o.phase_stats_size() == 0, "per-task form");
}
}
extern "C" void vf_main() {
  int runs = (int)vf_param("runs", 2), formats = (int)vf_param("format", 2); rich = (int)vf_param("rich", 0); OpStatsSequence h; std::vector<Task> all; int named = vf_param("range", 0) ? 1 : 2;
  for (int r = 0; r < runs; r++) {
    OS& o = *h.add_opstats(); o.set_population_name("p"); std::string session(1, (char)('0' + r)); o.set_session_name(session); bool index = vf_param("range", 0) || r + 1 < runs ? r == 0 : vf::flag("index recorded"); int64_t ix = (int64_t)vf_u64("index"); if (index) o.set_min_sep_policy_index(ix); if (rich) o.mutable_retry_window()->mutable_delay_min()->set_seconds(3);
    bool phased = formats == 2 ? vf::flag("phases") : formats;
    if (!phased) { Task t; common(o, t, index, ix, session); int n = vf_choice(named, "task"); t.name = NAMES[n]; o.set_task_name(t.name); event(&o, t, OS::Event::EVENT_KIND_CHECKIN_ACCEPTED); if (rich) { t.down = vf_u16("downloaded"); o.set_chunking_layer_bytes_downloaded(t.down); t.error = "x"; o.set_error_message("x"); t.ms = 7; o.mutable_network_duration()->set_nanos(7000000); data(&o, t, "c"); } if (uploaded()) upload_events(&o, t); all.push_back(t); continue; }
    Task pre; if ((rich || vf_param("groups", 1) > 1) && vf::flag("eligibility")) { merge(pre, phase(o, PS::ELIGIBILITY_EVAL_CHECKIN, OS::Event::EVENT_KIND_ELIGIBILITY_ENABLED, "", rich)); if (rich) merge(pre, phase(o, PS::ELIGIBILITY_COMPUTATION, OS::Event::EVENT_KIND_ELIGIBILITY_COMPUTATION_FINISHED, "", true)); }
    size_t before = all.size(); Task rejected; bool assigned = false;
    int groups = 1 + (vf_param("groups", 1) > 1 ? vf_choice(2, "assignments") : 0);
    for (int g = 0; g < groups; g++) {
      bool multi = groups == 2 ? g == 0 : vf::flag("several at once"); int tasks = vf_choice(multi ? 3 : 2, "tasks"); std::string first = tasks ? NAMES[vf_choice(named, "task")] : "";
      Task as = phase(o, multi ? PS::MULTIPLE_TASK_ASSIGNMENTS : PS::CHECKIN, multi ? OS::Event::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED : OS::Event::EVENT_KIND_CHECKIN_ACCEPTED, multi ? "" : first, rich); rejected = as; assigned = true;
      for (int k = 0; k < tasks; k++) { std::string name = k ? NAMES[vf_choice(named, "task")] : first; Task t = pre; merge(t, as); common(o, t, index, ix, session); merge(t, phase(o, PS::COMPUTATION, OS::Event::EVENT_KIND_COMPUTATION_FINISHED, name, rich)); if (uploaded()) merge(t, phase(o, PS::UPLOAD, 0, vf_param("groups", 1) > 1 ? "" : name, rich)); all.push_back(t); vf_reach("task"); }
    }
    if (all.size() == before) { Task t = pre; if (assigned) merge(t, rejected); common(o, t, index, ix, session); all.push_back(t); }
  }
  if (!vf_param("range", 0)) {
  const Task *last[3] = {nullptr, nullptr, nullptr}, *group = nullptr; for (auto& t : all) if (t.done()) { for (int n = 0; n < 3; n++) if (t.name == NAMES[n]) last[n] = &t; if (!t.name.empty() && t.name[0] == 'a') group = &t; }
  for (int n = 0; n < 1; n++) {
    auto c = GetLastSuccessfulContribution(h, NAMES[n]); auto time = GetLastSuccessfulContributionTime(h, NAMES[n]); auto ix = GetLastSuccessfulContributionMinSepPolicyIndex(h, NAMES[n]); auto map = GetPreviousCollectionFirstAccessTimeMap(h, NAMES[n]);
    if (!last[n]) { vf_assert(!c && !time && !ix && !map, "no contribution, no result"); vf_reach("none"); continue; }
    vf_assert(c && time && map, "the contribution is found"); same(*c, *last[n]); vf_assert(time->seconds() == last[n]->time(), "its time is when the upload started"); vf_assert(ix.has_value() == last[n]->has_index && (!ix || *ix == last[n]->index), "its policy index is found");
    vf_assert(map->size() == last[n]->data.size(), "collections read"); for (auto& d : last[n]->data) vf_assert((*map)[d.first].seconds() == d.second.first, "first access per collection"); vf_reach("found");
  }
  auto g = GetLastSuccessfulContributionTimeForPattern(h, RE2("a.*")); vf_assert(g.has_value() == (group != nullptr) && (!g || g->seconds() == group->time()), "the last contribution of a group is found");
  return; }
  int64_t lo = moment(), hi = moment(); auto in = GetOperationalStatsForTimeRange(h, absl::FromUnixSeconds(lo), absl::FromUnixSeconds(hi)); size_t at = 0;
  for (size_t i = all.size(); i-- > 0;) { auto& t = all[i]; if (t.ev.empty()) continue; int64_t x = t.ev.back().t; if (x < lo || x > hi) continue; vf_assert(at < in.size(), "runs in the range are listed"); same(in[at++], t); vf_reach("in range"); }
  vf_assert(at == in.size(), "only runs in the range are listed, latest first");
}
