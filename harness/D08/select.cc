// Federated select: fetching slices and iterating over them.
#include "../common/http.h"
#include "fcp/client/federated_select.h"
#include "vffs.h"
using namespace fcp::client;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::SlicesSelector;
namespace {
struct Temp : Files {
  bool fail = false; int made = 0;
  absl::StatusOr<std::string> CreateTempFile(const std::string&, const std::string&) override { if (fail) return absl::InternalError("no space"); std::string n = "/t/f" + std::string(1, char('0' + made++)); vffs::disk.files[n] = ""; return n; }
};
std::string fill(std::string t, const std::string& id, const std::string& key) {
  std::string r; for (size_t i = 0; i < t.size();) { if (t.compare(i, 14, "{served_at_id}") == 0) { r += id; i += 14; } else if (t.compare(i, 12, "{key_base10}") == 0) { r += key; i += 12; } else r += t[i++]; } return r; }
}
extern "C" void vf_main() {
  int max = (int)vf_param("keys", 2), faults = (int)vf_param("faults", 0); vffs::reset(); vffs::disk.dirs.insert("/t"); vffs::disk.files["/t/other"] = "keep";
  VfHttpClient http; VfLog log; Temp files; int odd = vf_choice(4, "odd"); bool abort = odd == 1; files.fail = odd == 2;
  HttpFederatedSelectManager m(&log, &files, &http, [&] { return abort; }, {absl::Seconds(1), absl::Seconds(1), absl::Seconds(1)});
  static const char* TEMPLATES[] = {"https://h/{served_at_id}/{key_base10}", "https://h/{key_base10}/{key_base10}?x={served_at_id}", "https://h/fixed", ""};
  static const char* KEYS[] = {"0", "7", "-3", "2147483647"}; static const int32_t VALUES[] = {0, 7, -3, 2147483647};
  int t = vf_choice(4, "template"); std::string id = vf_choice(2, "id") ? "{key_base10}" : "id/1";
  auto factory = m.CreateExampleIteratorFactoryForUriTemplate(TEMPLATES[t]);
  ExampleSelector sel; sel.set_collection_uri("internal:/federated_select"); SlicesSelector s; s.set_served_at_id(id); int n = vf_choice(max + 1, "keys"); std::vector<std::string> uris, data;
  for (int i = 0; i < n; i++) { int k = vf_choice(4, "key"); s.add_keys(VALUES[k]); uris.push_back(fill(TEMPLATES[t], id, KEYS[k])); data.push_back(i == 0 && vf::flag("empty") ? std::string() : std::string(i + 1, (char)vf_u8("slice"))); }
  bool foreign = odd == 3; if (!foreign) sel.mutable_criteria()->PackFrom(s); else sel.mutable_criteria()->PackFrom(sel);
  vf_assert(factory->CanHandle(sel) && !factory->ShouldCollectStats(), "slice requests are handled"); sel.set_collection_uri("internal:/other"); vf_assert(!factory->CanHandle(sel), "other queries are left alone"); sel.set_collection_uri("internal:/federated_select");
  int bad = -1, how = 0; if (n > 0 && vf_choice(2, "a slice fails")) { bad = vf_choice(n, "failing slice"); how = vf_choice(3, "failure"); }
  bool whole = bad < 0 && vf_choice(2, "client error"); int64_t sent = 0, recv = 0;
  http.answer = [&](int i, VfHandle& h, fcp::client::http::HttpRequestCallback& cb) {
    h.sent = vf_u16("sent"); h.received = vf_u16("received"); sent += h.sent; recv += h.received;
    if (i >= n) vf_fail("more requests than keys");
    if (i == bad) { if (how == 0) vf_respond(h, cb, 404, {}, "x"); else if (how == 1) cb.OnResponseError(*h.req, absl::UnavailableError("lost")); else vf_respond(h, cb, 503, {}, ""); }
    else vf_respond(h, cb, 200, {}, data[i]);
  };
  if (whole) http.result = [] { return absl::InternalError("client"); };
  auto it = factory->CreateExampleIterator(sel);
  auto stats = m.GetNetworkStats(); vf_assert(stats.bytes_downloaded == recv && stats.bytes_uploaded == sent, "traffic is counted in every case");
  if (t == 3) { vf_assert(!it.ok() && http.seen.empty(), "without a template nothing can be requested"); vf_reach("disabled"); return; }
  if (foreign || files.fail || (abort && n > 0)) { vf_assert(!it.ok() && http.seen.empty(), "requests that cannot be served are refused"); vf_reach("refused"); return; }
  if (abort) return;
  vf_assert((int)http.seen.size() == n, "one request per key"); for (int i = 0; i < n; i++) vf_assert(http.seen[i].uri == uris[i], "each key has its own address");
  if (n == 0 && whole) return;
  if (bad >= 0 || whole) { vf_assert(!it.ok(), "no partial result"); vf_reach("failed"); return; }
  vf_assert(it.ok(), "all slices fetched"); vffs::faults = faults; vffs::lazy = faults && vf::flag("buffered"); int stop = vf_choice(n + 3, "closed after"); bool failed = false;
  int at = 0;
  for (int i = 0; i < n + 2 && i < stop; i++) {
    if (at == n) vffs::faults = 0; int left = vffs::faults; auto e = (*it)->Next();
    if (vffs::faults < left) { vf_assert(!e.ok(), "a slice that could not be stored is an error"); failed = true; vf_reach("storage failed"); continue; }
    if (at < n) { vf_assert(e.ok() && vffs::disk.files.count(*e), "slices are delivered in files"); std::string got = vffs::disk.files[*e]; vf_assert(got == data[at], "slices are delivered complete and in order"); at++; vf_reach("delivered"); }
    else { vf_assert(e.status().code() == absl::StatusCode::kOutOfRange, "the end follows the last slice"); vf_assert(!vffs::disk.files.count("/t/f0"), "the scratch file is removed at the end"); vf_reach("end"); }
  }
  vffs::faults = 0;
  if (vf::flag("close")) { (*it)->Close(); vf_assert(!vffs::disk.files.count("/t/f0"), "closing removes the scratch file"); auto e = (*it)->Next(); vf_assert(e.status().code() == absl::StatusCode::kOutOfRange, "nothing after closing"); vf_reach("closed"); }
  it->reset(); vf_assert(!vffs::disk.files.count("/t/f0") && vffs::disk.files.size() == 1 && vffs::disk.files["/t/other"] == "keep", "only the scratch file is removed");
}
