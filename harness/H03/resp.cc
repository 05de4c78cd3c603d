// Receiving one response.
#include "../common/http.h"
#include "fcp/client/http/in_memory_request_response.h"
using namespace fcp::client::http;
static bool ok_code(int c) { return c >= 200 && c < 300; }
// Decimal text as the number it stands for; -1 if it is not one (surrounding blanks and a plus sign allowed).
static long long number(const std::string& t) {
  size_t a = 0, b = t.size(); auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (a < b && ws(t[a])) a++; while (b > a && ws(t[b - 1])) b--;
  bool neg = false; if (a < b && (t[a] == '+' || t[a] == '-')) { neg = t[a] == '-'; a++; }
  if (a == b) return -1; __int128 v = 0; for (; a < b; a++) { if (t[a] < '0' || t[a] > '9') return -1; v = v * 10 + (t[a] - '0'); if (v > 0x7fffffffffffffffLL) return -1; }
  return neg && v ? -2 : (long long)v;
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  HeaderList req; bool accept = vf::flag("accepts encodings"); if (accept) req.push_back({vf::flag("lower case") ? "accept-encoding" : "Accept-Encoding", "gzip"});
  auto rq = InMemoryHttpRequest::Create("https://a", HttpRequest::Method::kGet, req, "", false); vf_assert(rq.ok(), "request");
  InMemoryHttpRequestCallback cb; VfResponse r; r.c = mode == 0 ? (int)vf_u32("code") : 200;
  vf_assert(!cb.Response().ok(), "no response before one was received");
  std::string enc, te, ct, cl; bool has_enc = false, has_te = false, has_cl = false;
  if (mode == 0 || mode == 1) { if (vf::flag("content length")) { has_cl = true; int k = vf_choice(mode == 1 ? 9 : 4, "length"); static const char* odd[] = {"-1", "9223372036854775807", "18446744073709551615", "9223372036854775808"}; cl = k < 4 ? std::to_string(k) : k < 8 ? std::string(odd[k - 4]) : vf::str(0, 2, "length text"); r.h.push_back({vf::flag("case") ? "content-length" : "Content-Length", cl}); } }
  if (mode == 2) {
    if (vf::flag("encoding")) { has_enc = true; enc = vf::str(0, 1, "encoding"); r.h.push_back({"Content-Encoding", enc}); }
    if (vf::flag("transfer")) { has_te = true; static const char* forms[] = {"identity", "Identity", "chunked", "", "identity2"}; te = forms[vf_choice(5, "transfer")]; r.h.push_back({"Transfer-Encoding", te}); }
    if (vf::flag("type")) { ct = vf::str(1, 1, "type"); r.h.push_back({"Content-Type", ct}); }
  }
  bool te_bad = has_te && !(te == "identity" || te == "Identity");
  std::string got; bool done = false, failed = false, ended = false; absl::StatusCode want = absl::StatusCode::kOk;
  if (vf_choice(4, "before headers") == 3) { want = (absl::StatusCode)(1 + vf_choice(16, "error")); cb.OnResponseError(**rq, absl::Status(want, "x")); auto e = cb.Response(); vf_assert(!e.ok() && e.status().code() == want, "a transport error before the headers is reported with its code"); vf_reach("no headers"); return; }
  absl::Status st = cb.OnResponseStarted(**rq, r);
  bool reject = (has_enc && !accept) || te_bad || (has_cl && number(cl) < 0);
  vf_assert(st.ok() == !reject, "responses with unexpected encodings or a senseless length are refused at once, others are not");
  if (!st.ok()) { vf_assert(!cb.Response().ok(), "a refused response is not delivered"); vf_reach("refused"); return; }
  long long len = has_cl ? number(cl) : -1;
  int pieces = vf_choice(4, "pieces");
  for (int i = 0; i < pieces; i++) {
    vf_assert(!cb.Response().ok(), "no response before it is complete");
    std::string d = vf::str(0, 2, "piece"); bool over = has_cl && (long long)(got.size() + d.size()) > len;
    st = cb.OnResponseBody(**rq, r, d); vf_assert(st.ok() == !over, "data beyond the announced length is refused, other data is not");
    if (!st.ok()) { vf_assert(!cb.Response().ok(), "a response with too much data is not delivered"); vf_reach("too much"); return; }
    got += d;
  }
  if (vf::flag("error in body")) { want = (absl::StatusCode)(1 + vf_choice(16, "error")); cb.OnResponseBodyError(**rq, r, absl::Status(want, "x")); auto e = cb.Response(); vf_assert(!e.ok() && e.status().code() == want, "a transport error in the body is reported with its code"); vf_reach("broken body"); return; }
  cb.OnResponseCompleted(**rq, r);
  auto e = cb.Response(); bool deliver = ok_code(r.c) && (!has_cl || (long long)got.size() == len);
  if (mode == 0) { if (!(r.c >= 200 && r.c < 300) || r.c == 200) vf_assert(e.ok() == deliver, "a response is delivered exactly when its code means success and it is complete"); else vf_assert(!e.ok() || deliver, "an incomplete response is not delivered"); }
  else vf_assert(e.ok() == deliver, "a response is delivered exactly when it is complete");
  if (!e.ok()) { vf_reach("error"); return; }
  vf_assert(e->code == r.c, "the delivered code is the response's"); vf_assert(std::string(e->body) == got, "the delivered body is the concatenation of the pieces");
  vf_assert(e->content_type == ct && e->content_encoding == enc, "the delivered headers are the response's"); vf_reach("delivered");
}
