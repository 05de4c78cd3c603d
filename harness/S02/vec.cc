// SecAggVector packing: round trip, agreement of both codecs, sizes, rejection and addition.
#include <string>
#include <vector>
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "vf.h"
using namespace fcp::secagg;
static uint64_t modulus_of_width(int w) {
  if (vf_param("symbolic", 0)) {
    uint64_t m = vf_u64("modulus");
    vf_assume(m > 1 && m > (w == 1 ? 1 : 1ull << (w - 1)) && m <= 1ull << w);
    return m;
  }
  if (w == 1) return 2;
  switch (vf_choice(w > 2 ? 4 : 2, "modulus")) {
    case 0: return 1ull << w;
    case 1: return (1ull << w) - 1;
    case 2: return (1ull << (w - 1)) + 1;
    default: return (1ull << (w - 1)) + (1ull << (w - 2)) - 1;
  }
}
// bit i of a packed buffer, little endian, as documented
static void check_layout(const std::string& b, const std::vector<uint64_t>& v, int w) {
  unsigned __int128 acc = 0; int have = 0; size_t pos = 0; uint64_t diff = 0;
  for (size_t i = 0; i < v.size(); i++) {
    acc |= (unsigned __int128)v[i] << have; have += w;
    while (have >= 8) { diff |= (uint8_t)b[pos++] ^ (uint8_t)acc; acc >>= 8; have -= 8; }
  }
  if (have) diff |= (uint8_t)b[pos++] ^ (uint8_t)acc;
  vf_assert(pos == b.size(), "packed form has exactly the advertised number of bytes");
  vf_assert(diff == 0, "packed form holds each value in its bit_width bits in little-endian order");
}
static std::vector<uint64_t> values(int n, uint64_t m) {
  std::vector<uint64_t> v(n);
  for (auto& x : v) { x = vf_u64("value"); vf_assume(x < m); }
  return v;
}
static void same(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, const char* msg) {
  vf_assert(a.size() == b.size(), msg);
  uint64_t d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i];
  vf_assert(d == 0, msg);
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), n = (int)vf_param("n", 3), lo = (int)vf_param("lo", 1), hi = (int)vf_param("hi", 62);
  if (mode == 0) {
    int w = lo + (int)vf_choice(hi - lo + 1, "bit width");
    uint64_t m = modulus_of_width(w);
    if (n == 0) n = (int)vf_param("bits", 160) / w + 4;
    auto v = values(n, m);
    SecAggVector a(absl::MakeConstSpan(v), m, false), b(absl::MakeConstSpan(v), m, true);
    vf_assert(a.num_elements() == (size_t)n && a.modulus() == m && (int)a.bit_width() == w, "description is kept");
    size_t bytes = ((size_t)n * w + 7) / 8;
    vf_assert(a.GetAsPackedBytes().size() == bytes && b.GetAsPackedBytes().size() == bytes, "packed form has exactly the advertised number of bytes");
    vf_assert(a.GetAsPackedBytes() == b.GetAsPackedBytes(), "both packing implementations agree");
    check_layout(a.GetAsPackedBytes(), v, w);
    same(a.GetAsUint64Vector(), v, "unpacking returns the packed values");
    same(b.GetAsUint64Vector(), v, "branchless unpacking returns the packed values");
    SecAggUnpackedVector u(a);
    same(u, v, "decoding returns the packed values");
    // through the wire
    SecAggVector c(a.GetAsPackedBytes(), m, n, true), d(b.GetAsPackedBytes(), m, n, false);
    same(c.GetAsUint64Vector(), v, "unpacking from bytes returns the packed values");
    same(d.GetAsUint64Vector(), v, "unpacking from bytes returns the packed values");
    SecAggVector e(std::move(c)); d = std::move(e);
    same(d.GetAsUint64Vector(), v, "moving keeps the values");
    std::string taken = std::move(d).TakePackedBytes();
    vf_assert(taken == a.GetAsPackedBytes(), "the taken bytes are the packed bytes");
    vf_reach("packed");
  } else if (mode == 1) {
    // addition, packed and unpacked
    int w = lo + (int)vf_choice(hi - lo + 1, "bit width");
    uint64_t m = modulus_of_width(w);
    auto x = values(n, m), y = values(n, m);
    std::vector<uint64_t> z(n);
    for (int i = 0; i < n; i++) { uint64_t s = x[i] + y[i]; z[i] = s < m ? s : s - m; }
    SecAggVector a(absl::MakeConstSpan(x), m, vf::flag("codec a")), b(absl::MakeConstSpan(y), m, true);
    SecAggUnpackedVector u(a), t(b);
    u.Add(b);
    same(u, z, "adding a packed vector adds element-wise modulo the modulus");
    SecAggUnpackedVector u2(a); u2.Add(t);
    same(u2, z, "adding an unpacked vector adds element-wise modulo the modulus");
    SecAggUnpackedVectorMap ma, mb;
    ma.emplace("v", SecAggUnpackedVector(a)); mb.emplace("v", SecAggUnpackedVector(b));
    auto sum = SecAggUnpackedVectorMap::AddMaps(ma, mb);
    same(sum->at("v"), z, "adding maps adds element-wise modulo the modulus");
    ma.Add(mb);
    same(ma.at("v"), z, "adding a map adds element-wise modulo the modulus");
    vf_reach("added");
  } else if (mode == 2) {
    // packed addition divides by the modulus, which is concrete here
    static const uint64_t ms[] = {2, 3, 4, 5, 7, 10, 127, 128, 129, 255, 256, 257, 1000003, (1ull << 31) - 1, 1ull << 32, (1ull << 40) + 15, (1ull << 61) - 1, (1ull << 62) - 57, 1ull << 62};
    uint64_t m = ms[vf_choice(sizeof(ms) / 8, "modulus")];
    auto x = values(n, m), y = values(n, m);
    std::vector<uint64_t> z(n);
    for (int i = 0; i < n; i++) { uint64_t s = x[i] + y[i]; z[i] = s < m ? s : s - m; }
    SecAggVector a(absl::MakeConstSpan(x), m, true), b(absl::MakeConstSpan(y), m, true);
    SecAggVector s = AddVectors(a, b);
    vf_assert(s.modulus() == m && s.num_elements() == (size_t)n, "sum keeps the description");
    same(s.GetAsUint64Vector(), z, "packed sum is the element-wise sum modulo the modulus");
    SecAggVectorMap ma, mb; ma.emplace("v", std::move(a)); mb.emplace("v", std::move(b));
    auto r = AddMaps(ma, mb);
    vf_assert(r->size() == 1, "map sum has the same names");
    same(r->at("v").GetAsUint64Vector(), z, "packed map sum is the element-wise sum modulo the modulus");
    vf_reach("added");
  } else if (mode == 3) {
    // any packed bytes of the right size: reads stay inside and decoded values are below the modulus
    int w = lo + (int)vf_choice(hi - lo + 1, "bit width");
    uint64_t m = modulus_of_width(w);
    if (n == 0) n = (int)vf_param("bits", 160) / w + 4;
    std::string p(((size_t)n * w + 7) / 8, '\0');
    vf_bytes(&p[0], p.size(), "packed");
    SecAggVector a(p, m, n, true), b(p, m, n, false);
    auto va = a.GetAsUint64Vector(), vb = b.GetAsUint64Vector();
    vf_assert(va.size() == (size_t)n && vb.size() == (size_t)n, "length is kept");
    uint64_t bad = 0;
    for (int i = 0; i < n; i++) { bad |= va[i] >= m; bad |= vb[i] >= 1ull << w; bad |= vb[i] < m && vb[i] != va[i]; }
    vf_assert(!bad, "decoded values are below the modulus and both decoders agree");
    vf_reach("decoded");
  } else if (mode == 4) {
    // what cannot be represented is rejected
    uint64_t m = vf_u64("modulus");
    std::vector<uint64_t> v(n);
    bool legal = m > 1 && m <= 1ull << 62;
    for (auto& x : v) { x = vf_u64("value"); legal = legal & (x < m); }
    vf_assume(!legal);
    vf_allow_crash(1);
    SecAggVector a(absl::MakeConstSpan(v), m, vf::flag("codec"));
    vf_fail("a vector that its modulus cannot represent was accepted");
  } else if (mode == 5) {
    int w = lo + (int)vf_choice(hi - lo + 1, "bit width");
    uint64_t m = 1ull << w;
    size_t size = vf_choice((n * w + 7) / 8 + 3, "size");
    std::string p(size, '\0');
    if (size == ((size_t)n * w + 7) / 8) { SecAggVector ok(p, m, n, true); vf_reach("right size"); vf_assert(ok.num_elements() == (size_t)n, "kept"); return; }
    vf_allow_crash(1);
    SecAggVector a(p, m, n, vf::flag("codec"));
    vf_fail("packed bytes of the wrong size were accepted");
  }
}
