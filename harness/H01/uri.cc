// Path encoding and joining.
#include <string>
#include "fcp/client/http/http_client_util.h"
#include "vf.h"
using namespace fcp::client::http;
static bool unreserved(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~'; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// Standard percent-decoding; false if an escape is malformed or a character is not allowed.
static bool decode(const std::string& s, bool slash, std::string* out) {
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '%') { if (i + 2 >= s.size()) return false; int h = hexv(s[i + 1]), l = hexv(s[i + 2]); if (h < 0 || l < 0) return false; out->push_back((char)(h * 16 + l)); i += 3; }
    else { if (!unreserved(s[i]) && !(slash && s[i] == '/')) return false; out->push_back(s[i]); i++; }
  }
  return true;
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), n = (int)vf_param("len", 3);
  if (mode <= 1) {
    std::string in = vf::str(0, n, "name"); bool ascii = true; for (char c : in) if ((unsigned char)c >= 128) ascii = false;
    auto e = mode == 0 ? EncodeUriSinglePathSegment(in) : EncodeUriMultiplePathSegments(in);
    if (!ascii) { vf_assert(!e.ok(), "names outside ASCII are refused"); vf_reach("refused"); return; }
    vf_assert(e.ok(), "every ASCII name can be encoded");
    std::string back; vf_assert(decode(*e, mode == 1, &back), "the encoded form consists of unreserved characters and well-formed escapes");
    vf_assert(back == in, "decoding yields the original name");
    if (mode == 1) { size_t a = 0, b = 0; for (char c : in) if (c == '/') a++; for (char c : *e) if (c == '/') b++; vf_assert(a == b, "slashes are kept"); }
    vf_reach("encoded");
  } else if (mode == 2) {
    std::string in = vf::str(0, n, "name"); for (char c : in) vf_assume((unsigned char)c < 128 );
    auto e = CreateByteStreamUploadUriSuffix(in); vf_assert(e.ok(), "upload address of an ASCII name");
    const std::string pre = "/upload/v1/media/"; vf_assert(e->compare(0, pre.size(), pre) == 0, "upload address starts with its prefix");
    std::string back; vf_assert(decode(e->substr(pre.size()), true, &back) && back == in, "upload address ends in the encoded name"); vf_reach("upload");
  } else {
    std::string base = vf::str(0, n, "base"), suf = vf::str(0, n, "suffix");
    auto j = JoinBaseUriWithSuffix(base, suf);
    if (!suf.empty() && suf[0] != '/') { vf_assert(!j.ok(), "a suffix without leading slash is refused"); vf_reach("refused"); return; }
    vf_assert(j.ok(), "a base and a proper suffix can be joined");
    std::string b = base, s = suf; if (!b.empty() && b.back() == '/') b.pop_back(); if (!s.empty()) s.erase(0, 1);
    vf_assert(*j == b + "/" + s, "exactly one slash joins base and suffix"); vf_reach("joined");
  }
}
