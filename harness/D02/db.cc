// The store of the operational history.
#include <sys/file.h>
#include "../common/logm.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "google/protobuf/util/time_util.h"
#include "vf.h"
#include "vfabsl/sync.h"
#include "vffs.h"
using namespace fcp::client; using namespace fcp::client::opstats; using google::protobuf::util::TimeUtil;
namespace {
struct Fd { std::string path; bool locked = false; }; std::map<int, Fd> fds; bool other_process; const char* PATH = "/d/fcp/opstats/opstats.pb"; const int64_t T0 = 1000000;
struct Entry { int id; bool phases; std::vector<int64_t> events; int pad; };
void fill(OperationalStats* s, const Entry& e) {
  s->set_session_name(std::string(1, (char)('a' + e.id)) + std::string(e.pad, 'x'));
  for (int64_t t : e.events) { OperationalStats::Event* v; if (e.phases) { if (!s->phase_stats_size()) s->add_phase_stats(); v = s->mutable_phase_stats(0)->add_events(); } else v = s->add_events(); v->set_event_type(OperationalStats::Event::EVENT_KIND_CHECKIN_STARTED); *v->mutable_timestamp() = TimeUtil::SecondsToTimestamp(t); }
  if (e.phases && vf_param("empty_phase", 0)) s->add_phase_stats();
}
bool same(const OperationalStats& a, const Entry& e) {
  OperationalStats b; fill(&b, e); if (a.session_name() != b.session_name() || a.events_size() != b.events_size() || a.phase_stats_size() != b.phase_stats_size()) return false; bool ok = true;
  for (int i = 0; i < a.events_size(); i++) ok &= a.events(i).timestamp().seconds() == b.events(i).timestamp().seconds();
  for (int i = 0; i < a.phase_stats_size(); i++) { if (a.phase_stats(i).events_size() != b.phase_stats(i).events_size()) return false; for (int k = 0; k < a.phase_stats(i).events_size(); k++) ok &= a.phase_stats(i).events(k).timestamp().seconds() == b.phase_stats(i).events(k).timestamp().seconds(); }
  return ok;
}
OpStatsSequence stored() { auto it = vffs::disk.files.find(PATH); vf_assert(it != vffs::disk.files.end() && it->second.size() == 2 && it->second[0] == 'M', "the stored history is readable"); return protostore::ProtoDataStore<OpStatsSequence>::All()[(unsigned char)it->second[1]]; }
void at(int64_t t) { vf::now = absl::FromUnixSeconds(t); }
}
extern "C" int vffs_open(const char* name, int flags, ...);
extern "C" int d2_open(const char* n, int f, ...) { int fd = vffs_open(n, f); if (fd >= 0) fds[fd] = Fd{n, false}; return fd; }
extern "C" int d2_close(int fd) { vf_assert(fds.count(fd), "only open files are closed"); fds.erase(fd); return 0; }
extern "C" int d2_flock(int fd, int op) noexcept(true) { vf_assert(fds.count(fd), "only open files are locked"); if (op & LOCK_UN) { fds[fd].locked = false; return 0; } if (other_process) return -1; for (auto& f : fds) if (f.first != fd && f.second.locked && f.second.path == fds[fd].path) return -1; if (vffs::fails("lock", PATH)) return -1; fds[fd].locked = true; return 0; }
extern "C" void vf_main() {
  vfpb::exact = true; vffs::reset(); vffs::disk.dirs = {"/d"}; VfLog log; int64_t now = T0, ttl = 1000, max = vf_param("max", 40); at(now); auto create = [&](const std::string& dir = "/d") { return PdsBackedOpStatsDb::Create(dir, absl::Seconds(ttl), log, max); };
  int mode = (int)vf_param("mode", 0);
  if (mode == 1) {  // opening
    vffs::faults = 1; other_process = vf::flag("held"); auto a = create(); bool failed = vffs::faults == 0; if (other_process) vf_assert(!a.ok(), "a history held by another process cannot be opened"); else if (!failed) vf_assert(a.ok(), "a free history can be opened");
    if (a.ok()) { vf_assert(fds.size() == 1 && fds.begin()->second.locked, "the lock is held while the history is open"); auto b = create(); vf_assert(!b.ok(), "the history cannot be opened twice"); auto c = create("/d/e"); vffs::faults = 0; if (c.ok()) vf_reach("elsewhere"); if (c.ok()) c->reset(); bool locked = false; for (auto& f : fds) locked |= f.second.locked; vf_assert(locked, "a refused second opening leaves the lock in place"); a->reset(); vf_reach("opened"); } else vf_reach("refused");
    vf_assert(fds.empty(), "the lock is released"); vffs::faults = 0; other_process = false; auto d = create(); vf_assert(d.ok(), "the history can be opened once it is free"); if (vffs::disk.files[PATH] == "?") vf_assert(!(*d)->Read().ok(), "a damaged history is not misread"); OpStatsSequence s = stored(); vf_assert(s.opstats_size() == 0 && s.earliest_trustworthy_time().seconds() == now, "a new history is complete from now on"); return;
  }
  if (mode == 2) { std::string d = vf::str(0, 2, "directory"); for (char x : d) vf_assume(x != 0); if (!d.empty() && d[0] == '/') return; vf_assert(!create(d).ok(), "relative directories are refused"); vf_reach("relative"); return; }
  if (mode == 3) {  // two threads
    struct T { PdsBackedOpStatsDb* db; absl::Status s; bool opened; decltype(create)* make; } t; t.opened = false; t.make = &create;
    if (vf::flag("open")) { int o = vfs::spawn([](void* p) { T& t = *(T*)p; auto r = (*t.make)("/d"); t.opened = r.ok(); if (r.ok()) { static std::unique_ptr<OpStatsDb> keep; keep = std::move(*r); } }, &t); auto r = create(); vfs::join(o); vf_assert(r.ok() + t.opened == 1, "exactly one of two threads opens the history"); vf_reach("one"); return; }
    auto r = create(); vf_assert(r.ok(), "opens"); t.db = (PdsBackedOpStatsDb*)r->get(); int o = vfs::spawn([](void* p) { T& t = *(T*)p; t.s = t.db->Transform([](OpStatsSequence& s) { fill(s.add_opstats(), Entry{0, false, {T0}, 0}); }); }, &t);
    absl::Status s = t.db->Transform([](OpStatsSequence& s) { fill(s.add_opstats(), Entry{1, true, {T0}, 0}); }); auto seen = t.db->Read(); vf_assert(seen.ok(), "readable"); bool mine = false; for (auto& e : seen->opstats()) mine |= same(e, Entry{1, true, {T0}, 0}); vf_assert(mine, "an update is seen afterwards"); vfs::join(o); vf_assert(s.ok() && t.s.ok() && stored().opstats_size() == 2, "no update is lost between threads"); vf_reach("both"); return;
  }
  int ops = (int)vf_param("ops", 3); auto db = create(); vf_assert(db.ok(), "the history opens"); std::vector<Entry> kept; int64_t lost = 0, since = now; int serial = 0; vffs::faults = (int)vf_param("faults", 0); bool hadfaults = vffs::faults;
  for (int i = 0; i < ops; i++) {
    int64_t step = (int64_t)vf_u16("time passes"); vf_assume(step >= 1 && step <= 3000); now += step; at(now);
    int op = vf_choice(hadfaults ? 4 : kept.empty() ? 1 : 3, "operation"), kind = 0;
    if (op == 2) { db->reset(); db = create(); if (!hadfaults) vf_assert(db.ok(), "reopens"); if (!db.ok()) { int f = vffs::faults; vffs::faults = 0; db = create(); vffs::faults = f; vf_assert(db.ok(), "can be opened after a failed opening"); } continue; }
    if (op == 3) { // the file is damaged while closed
      db->reset(); vffs::disk.files[PATH] = "?"; db = create(); if (!db.ok()) return; auto r = (*db)->Read(); vf_assert(!r.ok(), "a damaged history is not misread"); vf_reach("damaged"); if (vffs::faults) { OpStatsSequence s = stored(); vf_assert(s.opstats_size() == 0 && s.earliest_trustworthy_time().seconds() == now, "a damaged history is replaced by an empty one"); } kept.clear(); since = now; lost = now; continue; }
    if (op == 1 && kept.empty()) continue;
    std::vector<Entry> next; OpStatsSequence handed; bool called = false; Entry e{serial++, vf::flag("per phase"), {now}, vf_param("sizes", 0) ? 20 * (int)vf_choice(2, "size") : 0}; bool extend = op == 1; if (extend) e = kept.back(), e.events.push_back(now); if (!extend && vf_param("odd", 0) && vf::flag("no events")) e.events.clear();
    absl::Status s = (*db)->Transform([&](OpStatsSequence& seq) { called = true; handed = seq; if (extend && seq.opstats_size()) { seq.mutable_opstats()->RemoveLast(); } fill(seq.add_opstats(), e); });
    if (!s.ok()) { vf_assert(hadfaults && !vffs::faults, "updates succeed on a working disk"); vf_reach("failed"); std::string f = vffs::disk.files[PATH]; vffs::faults = 0; auto r = (*db)->Read(); if (r.ok()) { vf_assert(r->opstats_size() <= (int)kept.size(), "a failed update adds nothing"); for (auto& x : r->opstats()) { bool known = false; for (auto& k : kept) known |= same(x, k); vf_assert(known, "a failed update adds nothing"); } if (r->opstats_size() == 0) kept.clear(); } else { OpStatsSequence q = stored(); vf_assert(q.opstats_size() == 0, "a damaged history is replaced by an empty one"); kept.clear(); since = now; } continue; }
    vf_assert(called, "the update is applied"); OpStatsSequence q = stored();
    // What the update saw: everything recent, nothing else.
    bool reset = handed.opstats_size() == 0 && hadfaults; std::vector<Entry> base; for (auto& k : kept) { if (k.events.empty() || k.events.back() < now - ttl) { if (!k.events.empty() && k.events.back() > lost) lost = k.events.back(); continue; } base.push_back(k); }
    if (reset) base.clear(); vf_assert(handed.opstats_size() == (int)base.size(), "exactly the entries within the retention period are kept"); for (size_t k = 0; k < base.size(); k++) vf_assert(same(handed.opstats((int)k), base[k]), "entries are kept unchanged, in order");
    if (extend && !base.empty()) base.pop_back(); base.push_back(e);
    int n = q.opstats_size(); vf_assert(n <= (int)base.size(), "nothing is invented"); int drop = (int)base.size() - n; for (int k = 0; k < n; k++) vf_assert(same(q.opstats(k), base[drop + k]), "the oldest entries are dropped first");
    int64_t total = 0; for (auto& x : q.opstats()) total += (int64_t)x.ByteSizeLong(); vf_assert(total <= max, "the history fits its size");
    if (drop) { OpStatsSequence full = handed; full.clear_opstats(); for (auto& k : base) fill(full.add_opstats(), k); int64_t size = (int64_t)full.ByteSizeLong(); for (int k = 0; k + 1 < drop; k++) { OperationalStats o; fill(&o, base[k]); size -= (int64_t)o.ByteSizeLong(); } vf_assert(size > max, "no more than needed is dropped"); for (int k = 0; k < drop; k++) if (!base[k].events.empty() && base[k].events.back() > lost) lost = base[k].events.back(); vf_reach("pruned"); }
    if (n < (int)kept.size()) vf_reach("dropped");
    vf_assert(q.has_earliest_trustworthy_time(), "the time since which the history is complete is recorded"); int64_t trust = q.earliest_trustworthy_time().seconds();
    vf_assert(trust >= lost && trust <= now, "nothing that ended after the recorded time has been dropped"); if (!reset && !vf_param("odd", 0)) vf_assert(trust >= since, "the history is never claimed to be complete from before it began");
    kept.assign(base.begin() + drop, base.end()); auto r = (*db)->Read(); if (!hadfaults) { vf_assert(r.ok(), "readable"); vf_assert(r->opstats_size() == n, "reading returns what is stored"); for (int k = 0; k < n; k++) vf_assert(same(r->opstats(k), kept[k]), "reading returns what is stored"); } else if (!r.ok()) { kept.clear(); since = 0; lost = 0; hadfaults = true; vf_reach("unreadable"); }
    vf_reach("updated");
  }
}
