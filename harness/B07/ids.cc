// Process-wide identifiers and random tokens.
#include <cstring>
#include <string>
#include "fcp/base/process_unique_id.h"
#include "fcp/base/random_token.h"
#include "absl/hash/hash.h"
#include "vfabsl/sync.h"
#include "vf.h"
using namespace fcp;
static uint64_t got[4][3];
static RandomToken token(const char* n, char* b) { vf_bytes(b, 16, n); return RandomToken::FromBytes(absl::MakeConstSpan(b, 16)); }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  if (mode == 0) {  // identifiers taken on several threads
    int n = (int)vf_param("threads", 3), k = (int)vf_param("each", 2), ids[4]; static int each; each = k;
    static int arg[4] = {0, 1, 2, 3};
    auto body = [](void* p) { int t = *(int*)p; for (int i = 0; i < each; i++) { vfs::point("take"); got[t][i] = ProcessUniqueId::Next().value(); } };
    for (int t = 1; t < n; t++) ids[t] = vfs::spawn(body, &arg[t]);
    body(&arg[0]);
    for (int t = 1; t < n; t++) vfs::join(ids[t]);
    for (int a = 0; a < n; a++) for (int i = 0; i < k; i++) {
      if (i) vf_assert(got[a][i] > got[a][i - 1], "identifiers increase");
      for (int b = 0; b < n; b++) for (int j = 0; j < k; j++) if (a != b || i != j) vf_assert(got[a][i] != got[b][j], "identifiers are different");
    }
    uint64_t last = ProcessUniqueId::Next().value(); for (int a = 0; a < n; a++) for (int i = 0; i < k; i++) vf_assert(last > got[a][i], "identifiers increase");
    vf_reach("ids");
  } else if (mode == 1) {  // conversion of one token
    char b[16]; RandomToken t = token("token", b);
    auto o = t.ToBytes(); bool same = true; for (int i = 0; i < 16; i++) same &= o[i] == b[i]; vf_assert(same, "bytes are kept");
    std::string s = t.ToString(); vf_assert(s.size() == 16, "text has the size of a token");
    vf_assert(RandomToken::FromBytes(absl::MakeConstSpan(o.data(), o.size())) == t, "bytes convert back to an equal token");
    RandomToken u = RandomToken::FromBytes(absl::MakeConstSpan(s.data(), s.size())); vf_assert(u == t && !(u != t), "text converts back to an equal token");
    vf_assert(absl::Hash<RandomToken>()(u) == absl::Hash<RandomToken>()(t), "equal tokens have equal hashes");
    vf_reach("token");
  } else if (mode == 2) {  // two tokens
    char b[16], c[16]; RandomToken t = token("token", b), u = token("token", c);
    bool same = true; for (int i = 0; i < 16; i++) same &= b[i] == c[i];
    vf_assert((t == u) == same, "tokens are equal exactly when their bytes are"); vf_assert((t != u) == !same, "tokens differ exactly when their bytes do");
    std::string s = t.ToString(), v = u.ToString(); bool st = true; for (int i = 0; i < 16; i++) st &= s[i] == v[i]; vf_assert(st == same, "different tokens have different text");
    vf_reach("token");
  } else if (mode == 3) {  // printable form; one byte symbolic at a time
    char b[16]; memset(b, 'x', 16); b[vf_choice(16, "position")] = (char)vf_u8("byte");
    std::string s = RandomToken::FromBytes(absl::MakeConstSpan(b, 16)).ToPrintableString();
    vf_assert(s.size() == 32, "printable form has two digits per byte");
    for (int i = 0; i < 16; i++) { int h = hexv(s[2 * i]), l = hexv(s[2 * i + 1]); vf_assert(h >= 0 && l >= 0, "printable form consists of digits"); vf_assert((unsigned char)b[i] == (unsigned)(h * 16 + l), "printable form determines the token"); }
    vf_reach("token");
  } else {  // generated tokens are the random bytes
    RandomToken t = RandomToken::Generate(), u = RandomToken::Generate();
    if (vf_is_sym(vf_u8("probe"))) vf_assert(vf_is_sym((uint8_t)t.ToBytes()[0]) && vf_is_sym((uint8_t)t.ToBytes()[15]) && vf_is_sym((uint8_t)t.ToBytes()[8]), "every part of a token is random");
    bool same = true; for (int i = 0; i < 16; i++) same &= t.ToBytes()[i] == u.ToBytes()[i];
    vf_assert((t == u) == same, "tokens are equal exactly when their bytes are");
    vf_reach("token");
  }
}
