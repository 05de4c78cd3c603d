// Fetching a list of resources.
#include "../common/http.h"
#include "fcp/client/http/http_resource_metadata.pb.h"
#include "fcp/client/http/in_memory_request_response.h"
using namespace fcp::client::http;
using fcp::client::cache::ResourceCache;
static std::string gz(const std::string& s) { return "\x1fz" + s; }
struct Cache : ResourceCache {
  struct E { bool have; bool gz; bool bad_meta; std::string raw; };
  std::vector<std::pair<std::string, E>> e; struct P { std::string id, raw; bool gz; absl::Duration age; }; std::vector<P> puts; std::vector<std::pair<std::string, absl::Duration>> gets; bool put_fails = false;
  absl::Status Put(absl::string_view id, const absl::Cord& r, const google::protobuf::Any& m, absl::Duration age) override {
    HttpResourceMetadata md; bool ok = m.UnpackTo(&md); vf_assert(ok, "cached resources carry their description"); puts.push_back({std::string(id), std::string(r), md.compression_format() == RESOURCE_COMPRESSION_FORMAT_GZIP, age}); return put_fails ? absl::InternalError("full") : absl::OkStatus(); }
  absl::StatusOr<ResourceAndMetadata> Get(absl::string_view id, std::optional<absl::Duration> age) override {
    gets.push_back({std::string(id), age.value_or(absl::ZeroDuration())});
    for (auto& x : e) if (x.first == id && x.second.have) { ResourceAndMetadata r; r.resource = absl::Cord(x.second.raw); HttpResourceMetadata md; md.set_compression_format(x.second.gz ? RESOURCE_COMPRESSION_FORMAT_GZIP : RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED); if (!x.second.bad_meta) r.metadata.PackFrom(md); else r.metadata.set_type_url("type.googleapis.com/other.Message"); return r; }
    return absl::NotFoundError("no"); }
};
struct Want { bool net = false, ok = false, put = false, put_gz = false, put_opt = false; std::string body, raw; absl::StatusCode code = absl::StatusCode::kOk; int net_index = -1; };
extern "C" void vf_main() {
  int n = (int)vf_param("n", 2), kinds = (int)vf_param("cache", 1); bool acc = vf::flag("counters");
  std::vector<UriOrInlineData> rs; std::vector<Want> w(n); Cache cache; bool use_cache = kinds && vf::flag("cache");
  VfHttpClient http; VfRunner run; std::vector<int> net;  // resource index per request
  struct Ans { int kind; std::string body; }; std::vector<Ans> ans; std::vector<std::string> uris, ids; std::vector<absl::Duration> ages(n);
  for (int i = 0; i < n; i++) {
    std::string data(1, (char)vf_u8("data")); std::string id;
    int k = vf_choice(kinds ? 8 : 5, "resource");
    if (k == 0) { rs.push_back(UriOrInlineData::CreateInlineData(absl::Cord(data), UriOrInlineData::InlineData::CompressionFormat::kUncompressed)); w[i].ok = true; w[i].body = data; uris.push_back(""); ids.push_back(""); continue; }
    if (k == 1 || k == 2) { std::string raw = k == 1 ? gz(data) : data; rs.push_back(UriOrInlineData::CreateInlineData(absl::Cord(raw), UriOrInlineData::InlineData::CompressionFormat::kGzip)); w[i].ok = k == 1; w[i].body = data; uris.push_back(""); ids.push_back(""); continue; }
    if (k >= 4 && kinds) id = std::string("id") + char('0' + i);
    std::string uri = std::string("https://host/") + char('a' + i); uris.push_back(uri); ids.push_back(id);
    ages[i] = absl::Seconds(vf_u8("lifetime")); rs.push_back(UriOrInlineData::CreateUri(uri, id, ages[i]));
    bool hit = false;
    if (!id.empty() && k >= 5) {  // present in the cache: plain, compressed or unusable
      bool gzip = k == 6 || (k == 7 && vf::flag("corrupt")), meta = k == 7 && !gzip; cache.e.push_back({id, {true, gzip, meta, k == 6 ? gz(data) : data}});
      hit = use_cache && k != 7; if (hit) { w[i].ok = true; w[i].body = data; continue; }
    }
    w[i].net = true; w[i].net_index = (int)net.size(); net.push_back(i); std::string body(1, (char)vf_u8("body"));
    int a = vf_choice(5, "answer");  // plain, compressed, broken compression, refused by the server, no answer
    ans.push_back({a, a == 1 ? gz(body) : body}); w[i].ok = a <= 1; w[i].body = body; w[i].raw = ans.back().body; w[i].put = a <= 2 && use_cache && !id.empty(); w[i].put_gz = a == 1 || a == 2; w[i].put_opt = a == 2; w[i].code = a == 3 ? absl::StatusCode::kNotFound : absl::StatusCode::kUnavailable;
  }
  cache.put_fails = use_cache && vf::flag("cache store fails"); bool whole = vf_choice(3, "client error") == 2; int64_t sent = 0, recv = 0;
  http.answer = [&](int i, VfHandle& h, HttpRequestCallback& cb) {
    h.sent = vf_u16("sent"); h.received = vf_u16("received"); sent += h.sent; recv += h.received; if (whole) return;
    if (i >= (int)ans.size()) vf_fail("a request beyond the resources to be fetched was sent");
    auto& a = ans[i]; if (a.kind == 0) vf_respond(h, cb, 200, {{"Content-Type", "text"}}, a.body); else if (a.kind <= 2) vf_respond(h, cb, 200, {{"Content-Type", vf::flag("upper") ? "bytes+GZIP" : "bytes+gzip"}}, a.body); else if (a.kind == 3) vf_respond(h, cb, 404, {}, "oops"); else cb.OnResponseError(*h.req, absl::UnavailableError("down")); };
  if (whole) http.result = [] { return absl::InternalError("client"); };
  int64_t r0 = vf_u16("counter"), s0 = vf_u16("counter"), ra = r0, sa = s0;
  auto res = FetchResourcesInMemory(http, run.r, rs, acc ? &ra : nullptr, acc ? &sa : nullptr, use_cache ? &cache : nullptr);
  vf_assert(http.seen.size() == net.size(), "exactly the resources that are neither inline nor cached are requested");
  for (size_t i = 0; i < net.size(); i++) { vf_assert(http.seen[i].uri == uris[net[i]], "requests go to the resources' addresses"); vf_assert(http.seen[i].method == HttpRequest::Method::kGet && !http.seen[i].has_body, "resources are fetched with plain requests"); }
  if (acc) { vf_assert(ra == r0 + recv && sa == s0 + sent, "the counters grow by exactly the traffic of the requests, also on failure"); }
  if (whole) { if (!net.empty()) vf_assert(!res.ok(), "a failing client fails the fetch"); vf_reach("client failed"); return; }
  vf_assert(res.ok() && res->size() == (size_t)n, "one outcome per resource");
  size_t p = 0;
  for (int i = 0; i < n; i++) {
    auto& o = (*res)[i]; vf_assert(o.ok() == w[i].ok, "each resource has its own outcome");
    if (o.ok()) { vf_assert(std::string(o->body) == w[i].body, "each resource has its own decoded content, in request order"); vf_assert(o->code == 200, "code"); }
    else if (w[i].net && ans[w[i].net_index].kind >= 3) vf_assert(o.status().code() == w[i].code, "each failing resource has its own error");
    if (w[i].put && w[i].put_opt && !(p < cache.puts.size() && cache.puts[p].id == ids[i])) continue;  // content that cannot be decoded need not be kept
    if (w[i].put) { vf_assert(p < cache.puts.size(), "fetched resources with an identifier are stored"); auto& q = cache.puts[p++]; vf_assert(q.id == ids[i] && q.raw == w[i].raw && q.gz == w[i].put_gz && q.age == ages[i], "a resource is stored as received under its own identifier and lifetime"); }
  }
  vf_assert(p == cache.puts.size(), "nothing else is stored"); vf_reach("fetched");
}
