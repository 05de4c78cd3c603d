// The cache of downloaded resources.
#include "../common/logm.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "vf.h"
#include "vffs.h"
using namespace fcp; using namespace fcp::client; using namespace fcp::client::cache;
namespace {
struct Item { std::string bytes; int meta; };
struct Entry { std::vector<Item> may; bool sure = false; int64_t expiry = 0, used = 0; };  // what a hit may return, and whether it was stored for certain
const char* IDS[] = {"b", "d", "a", "c"};
int64_t used_space() { int64_t n = 0; for (auto& f : vffs::disk.files) if (f.first.compare(0, 13, "/c/fcp/cache/") == 0) n += (int64_t)f.second.size(); return n; }
google::protobuf::Any any(int m) { google::protobuf::Any a; a.set_type_url("t"); a.set_value(std::string(1, (char)m)); return a; }
}
extern "C" void vf_main() {
  int script = (int)vf_param("script", 0), ops = (int)vf_param("ops", 3), ids = (int)vf_param("ids", 2), faults = (int)vf_param("faults", 0), crashes = (int)vf_param("crashes", 0); vffs::reset(); vffs::disk.dirs = {"/b", "/c"}; vffs::disk.files["/b/keep"] = "k"; vffs::disk.files["/c/keep"] = "k"; VfLog log; SimulatedClock clock(absl::FromUnixSeconds(1000)); int64_t now = 1000, max = 8; bool clean = !faults && !crashes;
  std::unique_ptr<FileBackedResourceCache> c; auto open = [&] { c.reset(); if (vffs::frozen) { vffs::frozen = false; } auto r = FileBackedResourceCache::Create("/b", "/c", &log, &clock, max); if (clean) vf_assert(r.ok(), "the cache opens on a working disk"); if (r.ok()) c = std::move(*r); return r.ok(); };
  if (vf_param("relative", 0)) { std::string d = vf::str(0, 2, "directory"); for (char x : d) vf_assume(x != 0); if (!d.empty() && d[0] == '/') return; bool base = vf::flag("base"); auto r = FileBackedResourceCache::Create(base ? d : "/b", base ? "/c" : d, &log, &clock, max); vf_assert(!r.ok(), "relative directories are refused"); vf_reach("relative"); return; }
  open(); if (!c) return; vffs::faults = faults; vffs::crashes = crashes; std::map<std::string, Entry> model; int serial = 0;
  for (int i = 0; i < ops; i++) {
    int64_t step = clean && !script ? (int64_t)vf_u8("time passes") : 1; vf_assume(step >= 1); now += step; clock.AdvanceTime(absl::Seconds(step));
    static const int SCRIPT[3][4] = {{}, {0, 0, 1, 0}, {0, 0, 0, 0}}; int op = script ? SCRIPT[script][i] : vf_choice(clean ? 3 : 2, "operation");
    if (op == 2) { vf_assert(open(), "reopening"); continue; }
    int k = script == 2 ? i : script && i != 2 ? (i < 2 ? i : 2) : vf_choice(script ? 2 : i < ids ? i + 1 : ids, "id"); std::string id = IDS[k]; Entry& e = model[id];
    if (op == 0) {
      int n = vf_choice(vf_param("large", 0) ? 6 : 3, "size"); if (!vf_param("large", 0)) n = n == 0 ? 1 : n + 2; Item it{std::string(n, (char)vf_u8("content")), 1 + serial++}; int64_t age = clean && !script ? (int64_t)vf_u8("age") : 100;
      absl::Status s = c->Put(id, absl::Cord(it.bytes), any(it.meta), absl::Seconds(age));
      if (n > max / 2) { vf_assert(s.code() == absl::StatusCode::kResourceExhausted, "large resources are refused"); vf_reach("too large"); continue; }
      if (clean) vf_assert(s.ok(), "storing succeeds on a working disk");
      if (s.ok() && !vffs::frozen) { e.may = {it}; e.sure = true; e.expiry = now + age; e.used = now; vf_assert(used_space() <= max, "the cache stays within its size"); vf_reach("stored"); }
      else { e.may.push_back(it); e.sure = false; vf_reach("not stored"); }
      if (clean) { auto g = c->Get(id, std::nullopt); vf_assert(g.ok(), "what was just stored is found"); vf_assert(std::string(g->resource) == it.bytes && g->metadata.value() == any(it.meta).value(), "the latest content and metadata are returned"); }
    } else {
      std::optional<absl::Duration> age; int64_t a = 0; if (clean && !script && vf::flag("extend")) { a = (int64_t)vf_u8("age"); age = absl::Seconds(a); }
      auto g = c->Get(id, age); if (g.ok()) { bool known = false; for (auto& m : e.may) if (std::string(g->resource) == m.bytes && g->metadata.value() == any(m.meta).value()) known = true; vf_assert(known, "a hit returns what was stored, complete, with its metadata"); e.used = now; if (age) e.expiry = now + a; vf_reach("hit"); } else { e.sure = false; vf_reach("miss"); }
    }
    if (vffs::frozen) { vffs::frozen = false; vffs::crashes = 0; if (!open()) break; vf_reach("restarted"); }
  }
  vf_assert(vffs::disk.files["/b/keep"] == "k" && vffs::disk.files["/c/keep"] == "k", "files elsewhere are left alone");
  vffs::faults = 0; vffs::crashes = 0; vffs::frozen = false;
  if (!clean) { if (!c || vf::flag("restart")) open(); if (c) for (auto& m : model) { auto g = c->Get(m.first, std::nullopt); if (!g.ok()) continue; bool known = false; for (auto& x : m.second.may) if (std::string(g->resource) == x.bytes && g->metadata.value() == any(x.meta).value()) known = true; vf_assert(known, "a hit returns what was stored, complete, with its metadata"); vf_reach("hit after failure"); } return; }
  bool again = vf::flag("reopened"); if (again) open(); bool here[4];
  for (int k = 0; k < ids; k++) { Entry& e = model[IDS[k]]; auto g = c->Get(IDS[k], std::nullopt); here[k] = g.ok(); if (!g.ok()) continue; vf_assert(e.sure, "only stored resources are found"); vf_assert(std::string(g->resource) == e.may[0].bytes && g->metadata.value() == any(e.may[0].meta).value(), "a hit returns the latest content and metadata"); if (again) vf_assert(e.expiry >= now, "expired resources are dropped when the cache is opened"); }
  for (int x = 0; x < ids; x++) for (int y = 0; y < ids; y++) if (x != y && model[IDS[x]].sure && !here[x] && here[y] && model[IDS[x]].expiry >= now) { vf_assert(model[IDS[x]].used <= model[IDS[y]].used, "the least recently used are dropped first"); vf_reach("evicted"); }
}
