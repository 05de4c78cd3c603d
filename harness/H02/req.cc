// Building requests and reading their bodies.
#include "fcp/client/http/in_memory_request_response.h"
#include "vf.h"
using namespace fcp::client::http;
using M = HttpRequest::Method;
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool prefix_ic(const std::string& s, const std::string& p) { if (s.size() < p.size()) return false; for (size_t i = 0; i < p.size(); i++) if (lower(s[i]) != p[i]) return false; return true; }
static bool eq_ic(const std::string& s, const std::string& p) { return s.size() == p.size() && prefix_ic(s, p); }
static int count(const HeaderList& l, const std::string& n) { int k = 0; for (auto& h : l) if (eq_ic(h.first, n)) k++; return k; }
static std::string value(const HeaderList& l, const std::string& n) { for (auto& h : l) if (eq_ic(h.first, n)) return h.second; return ""; }
static void read_all(HttpRequest& r, const std::string& want, int maxreads) {
  std::string got; 
  for (int k = 0; k < maxreads; k++) {
    int64_t room = 1 + vf_choice(3, "chunk"); char buf[8]; for (char& c : buf) c = 0x5a;
    auto n = r.ReadBody(buf, room);
    if (!n.ok()) { vf_assert(n.status().code() == absl::StatusCode::kOutOfRange, "the end of the body is reported as such"); vf_assert(got == want, "the end is reported only after all bytes were delivered"); vf_assert(!r.ReadBody(buf, room).ok(), "the end is reported again"); vf_reach("end"); return; }
    vf_assert(*n > 0 && *n <= room, "a read delivers at least one byte and no more than asked for");
    for (int i = (int)*n; i < 8; i++) vf_assert(buf[i] == 0x5a, "a read writes only what it delivers");
    got.append(buf, *n); vf_assert(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "the body is delivered in order");
  }
  vf_assert(got.size() <= want.size(), "no more than the body is delivered");
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  if (mode == 0) {  // any address
    const std::string tails[] = {"https://", "http://localhost:"}; std::string uri;
    int t = vf_choice(4, "address");
    if (t < 2) { uri = tails[t]; int p = vf_choice((uint32_t)uri.size(), "position"); vf_bytes(&uri[p], 1, "byte"); if (vf::flag("second byte") && p + 1 < (int)uri.size()) vf_bytes(&uri[p + 1], 1, "byte2"); uri += "x/y"; }
    else if (t == 2) { uri = "https://"; uri.resize(vf_choice(8, "cut")); }
    else uri = vf::str(0, 8, "address text");
    bool good = prefix_ic(uri, "https://") || prefix_ic(uri, "http://localhost:");
    M m = (M)vf_choice(6, "method"); auto r = InMemoryHttpRequest::Create(uri, m, {}, "", false);
    vf_assert(r.ok() == good, "only secure or local addresses are accepted");
    if (r.ok()) { vf_assert((*r)->uri() == uri && (*r)->method() == m && !(*r)->HasBody(), "the request keeps address and method"); vf_assert(count((*r)->extra_headers(), "content-length") == 0, "no content length without a body"); vf_reach("accepted"); } else vf_reach("refused");
  } else if (mode == 1) {  // bodies and headers
    std::string body = vf::str(0, 3, "body"); M m = (M)vf_choice(6, "method"); bool comp = vf::flag("compress");
    HeaderList hl; int nh = vf_choice(3, "headers");
    for (int i = 0; i < nh; i++) { int w = vf_choice(4, "header"); std::string n = w == 0 ? std::string("content-length") : w == 1 ? std::string("X-Goog-Api-Key") : w == 2 ? std::string("content-lengthy") : std::string("Accept-Encoding");
      if (w == 0) { static const char* forms[] = {"content-length", "Content-Length", "CONTENT-LENGTH", "content-lengtH"}; n = forms[vf_choice(4, "letter case")]; }
      hl.push_back({n, std::string(1, (char)vf_u8("value"))}); }
    std::string wire = comp ? "\x1fz" + body : body;
    bool allows = m == M::kPost || m == M::kPut || m == M::kPatch || m == M::kDelete;
    bool good = count(hl, "content-length") == 0 && (wire.empty() || allows);
    auto r = InMemoryHttpRequest::Create("https://a/b", m, hl, body, comp);
    vf_assert(r.ok() == good, "a request is built exactly when body, method and headers fit together");
    if (!r.ok()) { vf_reach("refused"); return; }
    const HeaderList& o = (*r)->extra_headers();
    vf_assert((*r)->HasBody() == !wire.empty(), "a body is announced exactly when there is one");
    vf_assert(count(o, "content-length") == (wire.empty() ? 0 : 1), "one content length for a body, none otherwise");
    if (!wire.empty()) vf_assert(value(o, "content-length") == std::to_string(wire.size()), "the content length is the number of bytes of the body");
    vf_assert(count(o, "content-encoding") == (comp ? 1 : 0) && (!comp || value(o, "content-encoding") == "gzip"), "compressed bodies are labelled");
    size_t extra = (wire.empty() ? 0 : 1) + (comp ? 1 : 0); vf_assert(o.size() == hl.size() + extra, "no other header is added");
    size_t at = 0; for (auto& h : hl) { while (at < o.size() && !(o[at].first == h.first && o[at].second == h.second)) at++; vf_assert(at < o.size(), "the caller's headers are kept in order"); at++; }
    std::string got; char buf[16]; for (int k = 0; k < 8; k++) { auto n = (*r)->ReadBody(buf, 16); if (!n.ok()) break; got.append(buf, *n); }
    vf_assert(got == wire, "the body sent is the body given"); vf_reach("built");
  } else {  // reading in pieces
    std::string body = vf::str(0, 5, "body"); auto r = InMemoryHttpRequest::Create("https://a", M::kPost, {}, body, false); vf_assert(r.ok(), "request"); read_all(**r, body, (int)vf_param("reads", 6));
  }
}
