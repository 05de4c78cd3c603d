// Header parser.
#include <string>
#include <vector>
#include "fcp/client/http/curl/curl_header_parser.h"
#include "fcp/client/http/curl/curl_http_response.h"
#include "fcp/client/http/http_client_util.h"
#include "vf.h"
using namespace fcp::client::http;
using curl::CurlHeaderParser;
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string trim(std::string s) { while (!s.empty() && space(s.back())) s.pop_back(); while (!s.empty() && space(s[0])) s.erase(0, 1); return s; }
struct Model { int code = -1; HeaderList list; bool last = false, enc = false; };
static std::string low(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static void header(Model& m, const std::string& l) {
  size_t p = 0; while (p < l.size() && l[p] != ':') p++;
  if (p == l.size()) return;
  std::string k = l.substr(0, p), lk = low(k);
  if (m.enc && (lk == "content-encoding" || lk == "content-length" || lk == "transfer-encoding")) return;
  m.list.push_back({k, trim(l.substr(p + 1))});
}
static void same(const CurlHeaderParser& p, const Model& m) {
  vf_assert(p.GetStatusCode() == m.code, "the status code is the last one received");
  HeaderList l = p.GetHeaderList(); vf_assert(l.size() == m.list.size(), "exactly the headers of the final response are listed");
  for (size_t i = 0; i < l.size(); i++) { vf_assert(l[i].first == m.list[i].first, "header names are kept"); vf_assert(l[i].second == m.list[i].second, "header values are kept in full, without surrounding white space"); }
  vf_assert(p.IsLastHeader() == m.last, "the end of the headers is recognised");
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), n = (int)vf_param("len", 4); CurlHeaderParser p; Model m;
  if (mode == 0) {  // one arbitrary line
    std::string l = vf::str(0, n, "line"); if (l.size() >= 5) vf_assume(l[0] != 'H');
    p.ParseHeader(l); header(m, l); if (l == "\r\n") m.last = true; same(p, m); vf_reach("line");
  } else if (mode == 1) {  // status line with arbitrary code and rest
    std::string l = vf::flag("version") ? "HTTP/1.1 " : "HTTP/2 "; char d[3]; vf_bytes(d, 3, "code"); l.append(d, 3); int rest = vf_choice(5, "rest"); static const char* r[] = {"", "\r\n", " OK\r\n", " a: b\r\n", ": x\r\n"}; l += r[rest];
    p.ParseHeader("HTTP/1.1 301 Moved\r\n"); p.ParseHeader("Location: x\r\n"); p.ParseHeader(l);
    bool dig = true; for (char c : d) if (c < '0' || c > '9') dig = false;
    if (!dig) { vf_reach("odd code"); return; }
    m.code = (d[0] - '0') * 100 + (d[1] - '0') * 10 + (d[2] - '0'); same(p, m); vf_reach("status");
  } else if (mode == 2) {  // several responses
    if (vf::flag("decoding by the transport")) { p.UseCurlEncoding(); m.enc = true; }
    int lines = (int)vf_param("lines", 4);
    for (int i = 0; i < lines; i++) {
      char b = (char)vf_u8("byte");
      switch (vf_choice(7, "line")) {
        case 0: p.ParseHeader("HTTP/1.1 200 OK\r\n"); m.code = 200; m.list.clear(); break;
        case 1: p.ParseHeader("HTTP/2 301\r\n"); m.code = 301; m.list.clear(); break;
        case 2: { std::string l = "Content-Length: 1"; l[8] = b; l += b; l += "\r\n"; p.ParseHeader(l); header(m, l); break; }
        case 3: { std::string l = "x"; l += b; l += ":v:"; l += b; l += "w\r\n"; p.ParseHeader(l); header(m, l); break; }
        case 4: { p.ParseHeader("\r\n"); if (m.code != 301) m.last = true; break; }
        case 5: { std::string l = "transfer-ENCODING:"; l[0] = b; l += b; p.ParseHeader(l); header(m, l); break; }
        case 6: { std::string l = "content-encodin"; l += b; l += ": gzip"; p.ParseHeader(l); header(m, l); break; }
      }
      same(p, m);
    }
    vf_reach("responses");
  } else if (mode == 3) {  // anything starting like a status line
    std::string l = "HTTP/" + vf::str(0, n, "rest"); bool colon = false; for (char c : l) if (c == ':') colon = true;
    p.ParseHeader(l); vf_assert(p.GetHeaderList().size() <= 1, "at most one header per line"); if (!colon) vf_assert(p.GetHeaderList().empty(), "no header without a colon"); vf_assert(!p.IsLastHeader(), "a status line does not end the headers"); vf_reach("any");
  } else {  // lookup of a header
    HeaderList h; int k = 1 + vf_choice(3, "headers"); std::string need = "ab"; char nb = (char)vf_u8("needle"); need[0] = nb;
    std::optional<std::string> want;
    for (int i = 0; i < k; i++) { std::string name = "ab"; name[0] = (char)vf_u8("name"); std::string v = "v"; v[0] = (char)vf_u8("value"); h.push_back({name, v}); if (!want && low(name) == low(need)) want = v; }
    auto got = FindHeader(h, need); vf_assert(got.has_value() == want.has_value(), "a header is found regardless of case"); if (want) vf_assert(*got == *want, "the first matching header is found");
    curl::CurlHttpResponse r(200 + (int)vf_u8("code"), h); vf_assert(r.headers().size() == h.size(), "a response carries its headers"); vf_reach("find");
  }
}
