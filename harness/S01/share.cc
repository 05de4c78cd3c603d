// Shamir secret sharing: Reconstruct(Share(secret)) for symbolic secrets, coefficients and subsets.
#include <string>
#include <vector>
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "vf.h"
using fcp::secagg::ShamirSecretSharing;
using fcp::secagg::ShamirShare;
extern int vf_rand_calls, vf_rand_limit; extern uint32_t vf_rand_max32; extern uint32_t* vf_rand_same;
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), t = (int)vf_param("t", 2), n = (int)vf_param("n", 3), len = (int)vf_param("len", 4);
  if (mode == 0) {
    std::string secret(len, '\0');
    vf_bytes(&secret[0], secret.size(), "secret");
    vf_rand_limit = (8 * len + 30) / 31 * (t - 1) + (int)vf_param("retries", 0);
    ShamirSecretSharing s;
    auto shares = s.Share(t, n, secret);
    vf_assert((int)shares.size() == n, "one share per participant");
    uint32_t mask = (uint32_t)vf_param("mask", 0);
    if (!mask) mask = vf_choice(1u << n, "present");
    std::vector<ShamirShare> got(n);
    int k = 0;
    for (int i = 0; i < n; i++) if (mask >> i & 1) { got[i] = shares[i]; k++; }
    ShamirSecretSharing other;
    auto r = (vf_param("same", 0) ? s : other).Reconstruct(t, got, len);
    if (k < t) { vf_reach("too few"); vf_assert(!r.ok(), "reconstruction from fewer shares than the threshold is refused"); return; }
    vf_assert(r.ok(), "reconstruction from enough shares succeeds");
    vf_assert((int)r->size() == len, "reconstructed length");
    vf_reach("reconstructed");
    unsigned diff = 0;
    for (int i = 0; i < len; i++) diff |= (unsigned char)((*r)[i] ^ secret[i]);
    vf_assert(diff == 0, "reconstructed secret equals the shared secret");
  } else if (mode == 1) {
    // packing into subsecrets and back, for every length up to the bound
    std::string secret(len, '\0');
    vf_bytes(&secret[0], secret.size(), "secret");
    ShamirSecretSharing s;
    auto parts = s.DivideIntoSubsecrets(secret);
    for (auto p : parts) vf_assert(p < ShamirSecretSharing::kPrime, "subsecret is a field element");
    std::string back = s.RebuildFromSubsecrets(parts, len);
    vf_reach("packed");
    vf_assert(back.size() == secret.size(), "packing keeps the length");
    unsigned diff = 0;
    for (int i = 0; i < len; i++) diff |= (unsigned char)(back[i] ^ secret[i]);
    vf_assert(diff == 0, "packing into subsecrets is lossless");
  } else if (mode == 2) {
    // shares of arbitrary sizes: an error or a check failure, never a key from inconsistent shares
    std::vector<ShamirShare> got(n);
    bool consistent = true; size_t first = 0; int k = 0;
    int maxlen = (int)vf_param("maxlen", 9);
    int max_sub = (8 * len + 30) / 31;
    for (int i = 0; i < n; i++) {
      size_t m = vf_choice(maxlen + 1, "share size");
      got[i].data = std::string(m, '\0');
      if (m) vf_bytes(&got[i].data[0], m, "share");
      if (m && k < t) { k++; if (m % 4 || m > 4u * max_sub || (first && m != first)) consistent = false; if (!first) first = m; }
    }
    ShamirSecretSharing s;
    if (!consistent || k < t) vf_allow_crash(1);
    auto r = s.Reconstruct(t, got, len);
    if (k < t || !consistent) { vf_reach("refused"); vf_assert(!r.ok(), "inconsistent or missing shares are refused"); }
    else { vf_reach("accepted"); vf_assert(r.ok() && (int)r->size() == len, "consistent shares give a key of the requested length"); }
  } else if (mode == 4) {
    // reconstruction computes the interpolation formula for arbitrary shares, with no intermediate overflow
    uint64_t p = ShamirSecretSharing::kPrime;
    std::vector<ShamirShare> got(n); std::vector<int> xs; std::vector<uint32_t> sh;
    uint32_t mask = vf_choice(1u << n, "present");
    for (int i = 0; i < n; i++) if (mask >> i & 1) { uint32_t v = vf_u32("share"); vf_assume(v < p); xs.push_back(i + 1); sh.push_back(v); for (int b = 3; b >= 0; b--) got[i].data.push_back((char)(v >> (8 * b))); }
    if ((int)xs.size() != t) vf_end();
    ShamirSecretSharing s;
    auto r = s.Reconstruct(t, got, 3);
    vf_assert(r.ok(), "reconstruction from enough shares succeeds");
    uint64_t want = 0;
    for (int i = 0; i < t; i++) {
      uint64_t num = 1, den = 1;
      for (int j = 0; j < t; j++) if (j != i) { num = num * (uint64_t)xs[j] % p; den = den * (uint64_t)((xs[j] - xs[i] + (int64_t)p) % (int64_t)p) % p; }
      uint64_t inv = 1, e = p - 2, q = den; while (e) { if (e & 1) inv = inv * q % p; q = q * q % p; e >>= 1; }
      want = (want + (uint64_t)sh[i] * (num * inv % p)) % p;
    }
    vf_reach("interpolated");
    vf_assert((unsigned char)(*r)[2] == (unsigned char)want && (unsigned char)(*r)[1] == (unsigned char)(want >> 8) && (unsigned char)(*r)[0] == (unsigned char)(want >> 16), "reconstruction equals Lagrange interpolation at zero");
  } else if (mode == 5) {
    // many participants: four ways to pick the participating shares
    std::string secret(len, '\0');
    vf_bytes(&secret[0], secret.size(), "secret");
    vf_rand_max32 = (uint32_t)(ShamirSecretSharing::kPrime - 1);
    ShamirSecretSharing s;
    auto shares = s.Share(t, n, secret);
    uint64_t pick = vf_choice(4, "participants");
    std::vector<ShamirShare> got(n);
    for (int k = 0; k < t; k++) { int i = pick == 0 ? k : pick == 1 ? n - t + k : pick == 2 ? (k * (n - 1)) / (t > 1 ? t - 1 : 1) : k < t / 2 ? k : n - t + k; got[i] = shares[i]; }
    auto r = s.Reconstruct(t, got, len);
    vf_assert(r.ok() && (int)r->size() == len, "reconstruction from enough shares succeeds");
    vf_reach("reconstructed");
    unsigned diff = 0;
    for (int i = 0; i < len; i++) diff |= (unsigned char)((*r)[i] ^ secret[i]);
    vf_assert(diff == 0, "reconstructed secret equals the shared secret");
  } else if (mode == 6) {
    // every share is the value of the polynomial at the participant's point (all drawn coefficients being equal)
    std::string secret(3, '\0');
    vf_bytes(&secret[0], 3, "secret");
    vf_rand_max32 = (uint32_t)(ShamirSecretSharing::kPrime - 1);
    uint32_t c = vf_u32("coefficient"); vf_assume(c <= vf_rand_max32); vf_rand_same = &c;
    ShamirSecretSharing s;
    auto shares = s.Share(t, n, secret);
    uint64_t p = ShamirSecretSharing::kPrime, i = vf_choice(n, "participant"), x = i + 1;
    uint64_t want = 0;
    for (int j = t - 2; j >= 0; j--) want = (want + c) * x % p;
    want = (want + ((uint64_t)(unsigned char)secret[0] << 16 | (uint64_t)(unsigned char)secret[1] << 8 | (unsigned char)secret[2])) % p;
    uint64_t got = 0;
    vf_assert(shares[i].data.size() == 4, "a share holds one field element per part of the secret");
    for (int b = 0; b < 4; b++) got = got << 8 | (unsigned char)shares[i].data[b];
    vf_reach("evaluated");
    vf_assert(got == want, "share is the polynomial's value at the participant's point");
  } else if (mode == 3) {
    // the same object reconstructs from two different subsets in a row (coefficient cache)
    std::string secret(len, '\0');
    vf_bytes(&secret[0], secret.size(), "secret");
    vf_rand_limit = (8 * len + 30) / 31 * (t - 1);
    ShamirSecretSharing s;
    auto shares = s.Share(t, n, secret);
    for (int round = 0; round < 2; round++) {
      uint32_t mask = vf_choice(1u << n, "present");
      std::vector<ShamirShare> got(n);
      int k = 0;
      for (int i = 0; i < n; i++) if (mask >> i & 1) { got[i] = shares[i]; k++; }
      if (k != t) vf_end();
      auto r = s.Reconstruct(t, got, len);
      vf_assert(r.ok(), "reconstruction from enough shares succeeds");
      vf_reach("reconstructed");
      unsigned diff = 0;
      for (int i = 0; i < len; i++) diff |= (unsigned char)((*r)[i] ^ secret[i]);
      vf_assert(diff == 0, "reconstructed secret equals the shared secret");
    }
  }
}
