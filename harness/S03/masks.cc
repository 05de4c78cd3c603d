// Mask expansion: combination over keys, cancellation, range, agreement of the implementations, and what masks depend on.
#include <string>
#include <vector>
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "openssl/vfssl.h"
#include "vf.h"
using namespace fcp::secagg;
typedef std::vector<uint64_t> V;
static const uint64_t kModuli[] = {3, 5, 6, 7, 9, 10, 100, 127, 129, 200, 255, 257, 1000, 4097, 32767, 32769, 65535, 65537, 1000003, (1ull << 24) + 1, (1ull << 31) - 1, (1ull << 32) - 5, (1ull << 33) + 9, (1ull << 40) + 15, (1ull << 48) - 59, (1ull << 56) + 81, (1ull << 61) - 1, (1ull << 62) - 57};
static AesKey key(int i) { uint8_t k[AesKey::kSize]; memset(k, 0, sizeof k); k[0] = 7; k[31] = (uint8_t)(i + 1); return AesKey(k); }
static SessionId session(int i) { return {std::string(32, (char)('a' + i))}; }
static std::vector<AesKey> keys(const std::vector<int>& ids) { std::vector<AesKey> r; for (int i : ids) r.push_back(key(i)); return r; }
static void same(const V& a, const V& b, const char* msg) {
  vf_assert(a.size() == b.size(), msg);
  uint64_t d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i];
  vf_assert(d == 0, msg);
}
static uint64_t add(uint64_t a, uint64_t b, uint64_t m) { uint64_t s = a + b; return s < m ? s : s - m; }
static uint64_t sub(uint64_t a, uint64_t b, uint64_t m) { return a >= b ? a - b : a + m - b; }
static std::vector<InputVectorSpecification> spec(const std::string& name, int len, uint64_t m) { return {InputVectorSpecification(name, len, m)}; }
static V expand(int impl, const std::vector<int>& a, const std::vector<int>& s, const std::vector<InputVectorSpecification>& sp, const SessionId& id) {
  AesCtrPrngFactory f;
  const std::string& n = sp[0].name();
  if (impl == 0) { auto r = MapOfMasks(keys(a), keys(s), sp, id, f); vf_assert(r && r->size() == sp.size() && r->at(n).modulus() == sp[0].modulus(), "one mask per vector"); return r->at(n).GetAsUint64Vector(); }
  if (impl == 1) { auto r = MapOfMasksV3(keys(a), keys(s), sp, id, f); vf_assert(r && r->size() == sp.size() && r->at(n).modulus() == sp[0].modulus(), "one mask per vector"); return r->at(n).GetAsUint64Vector(); }
  auto r = UnpackedMapOfMasks(keys(a), keys(s), sp, id, f); vf_assert(r && r->size() == sp.size() && r->at(n).modulus() == sp[0].modulus(), "one mask per vector");
  return V(r->at(n).begin(), r->at(n).end());
}
extern "C" void vf_main() {
  vfc::concrete = 1;
  int mode = (int)vf_param("mode", 0), len = (int)vf_param("len", 2);
  vfc::stream_lo = (size_t)vf_param("lo", 0); vfc::stream_hi = (size_t)vf_param("hi", 16);
  uint64_t m;
  if (vf_param("pow2", 0)) m = 1ull << (vf_param("first", 1) + vf_choice(vf_param("count", 1), "bit width"));
  else m = kModuli[vf_param("first", 0) + vf_choice(vf_param("count", 1), "modulus")];
  auto sp = spec("v", len, m);
  auto id = session(0);
  if (mode == 0) {
    // which keys are added and which subtracted
    static const std::vector<std::vector<int>> adds = {{}, {0}, {0, 1}, {1, 0}, {0, 1, 2}}, subs = {{}, {3}, {0}, {1, 3}, {3, 1}};
    std::vector<int> a = adds[vf_choice(vf_param("adds", adds.size()), "added keys")], s = subs[vf_choice(vf_param("subs", subs.size()), "subtracted keys")];
    if (a.size() + s.size() > 3) vf_end();
    V want(len, 0);
    for (int k : a) { V one = expand(2, {k}, {}, sp, id); for (int i = 0; i < len; i++) { vf_assert(one[i] < m, "mask elements are below the modulus"); want[i] = add(want[i], one[i], m); } }
    for (int k : s) { V one = expand(2, {k}, {}, sp, id); for (int i = 0; i < len; i++) want[i] = sub(want[i], one[i], m); }
    int impl = vf_param("impl", 3) == 3 ? (int)vf_choice(3, "implementation") : (int)vf_param("impl", 3);
    V got = expand(impl, a, s, sp, id);
    uint64_t bad = 0; for (int i = 0; i < len; i++) bad |= got[i] >= m;
    vf_assert(!bad, "mask elements are below the modulus");
    same(got, want, "the combined mask is the signed modular sum of the key masks");
    vf_reach("combined");
  } else if (mode == 1) {
    // cancellation: what one side adds the other subtracts
    bool unpacked = vf_param("impl", 3) == 2;
    V a = expand(unpacked ? 2 : (int)vf_choice(3, "implementation"), {0}, {}, sp, id), b = expand(unpacked ? 2 : (int)vf_choice(3, "implementation"), {}, {0}, sp, id);
    uint64_t bad = 0; for (int i = 0; i < len; i++) bad |= add(a[i], b[i], m);
    vf_assert(!bad, "added and subtracted masks of one key cancel");
    if (unpacked) { vf_reach("cancelled"); return; }
    SecAggVector x(absl::MakeConstSpan(a), m, true), y(absl::MakeConstSpan(b), m, true);
    V z = AddVectors(x, y).GetAsUint64Vector();
    same(z, V(len, 0), "added and subtracted masks of one key cancel");
    vf_reach("cancelled");
  } else if (mode == 2) {
    // the mask of a vector does not depend on the other vectors, and each part of the description selects another stream
    std::vector<InputVectorSpecification> two = {InputVectorSpecification("v", len, m), InputVectorSpecification("w", len, m)}, swapped = {two[1], two[0]};
    AesCtrPrngFactory f;
    auto r = UnpackedMapOfMasks(keys({0}), {}, two, id, f), q = UnpackedMapOfMasks(keys({0}), {}, swapped, id, f);
    V one = expand(0, {0}, {}, sp, id);
    same(V(r->at("v").begin(), r->at("v").end()), one, "a vector's mask does not depend on the other vectors");
    same(V(q->at("v").begin(), q->at("v").end()), one, "a vector's mask does not depend on the order of the vectors");
    same(V(q->at("w").begin(), q->at("w").end()), V(r->at("w").begin(), r->at("w").end()), "a vector's mask does not depend on the order of the vectors");
    vf_assert(vfc::nstreams == 2, "vectors with other names use other key streams");
    expand(1, {1}, {}, sp, id); vf_assert(vfc::nstreams == 3, "other keys use other key streams");
    expand(1, {0}, {}, sp, session(1)); vf_assert(vfc::nstreams == 4, "other sessions use other key streams");
    expand(1, {0}, {}, spec("v", len + 1, m), id); vf_assert(vfc::nstreams == 5, "vectors of another length use other key streams");
    expand(1, {0}, {}, spec("vw", len, m), id); vf_assert(vfc::nstreams == 6, "vectors with other names use other key streams");
    expand(2, {0}, {}, sp, id); vf_assert(vfc::nstreams == 6, "the same description uses the same key stream");
    vf_reach("separate");
  } else if (mode == 3) {
    // successive elements use successive, distinct parts of the stream: no part of it is used twice
    V a = expand(2, {0}, {}, sp, id);
    AesCtrPrngFactory f;
    V p = expand(0, {0}, {}, sp, id), q = expand(1, {0}, {}, sp, id);
    same(a, p, "the implementations agree"); same(a, q, "the implementations agree");
    // two elements can differ: no solver model may force them equal
    for (int i = 1; i < len; i++) if (vf_param("distinct", 1)) vf_assert(vf_is_sym(a[i] ^ a[i - 1]) || a[i] != a[i - 1] || i < (int)vf_param("from", 0) || i >= (int)vf_param("to", 1 << 30), "elements use different parts of the stream");
    vf_reach("long");
  }
}
