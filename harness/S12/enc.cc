#include <set>
#include <string>
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "openssl/vfssl.h"
#include "vf.h"
using namespace fcp; using namespace fcp::secagg;
extern int vf_rand_calls;
static AesKey key(const char* name) { uint8_t k[32]; vf_bytes(k, 32, name); return AesKey(k); }
// Round trip, and every change of the ciphertext.
static void tamper() {
  int n = vf_param("len", 3);
  std::string pt(n, '\0'); if (n) vf_bytes(&pt[0], n, "plaintext");
  AesKey k = key("key");
  AesGcmEncryption enc;
  std::string ct = enc.Encrypt(k, pt);
  vf_assert(ct.size() > pt.size(), "the ciphertext carries more than the plaintext");
  auto back = AesGcmEncryption().Decrypt(k, ct);
  vf_assert(back.ok() && *back == pt, "decrypting returns the original bytes");
  vf_reach("roundtrip");
  std::string t = ct;
  int how = vf_choice(4, "tampering");
  if (how == 0) { int i = vf_choice((int)ct.size(), "position"); uint8_t d = vf_u8("difference"); vf_assume(d != 0); t[i] ^= d; }
  else if (how == 1) t = ct.substr(0, vf_choice((int)ct.size(), "cut"));
  else if (how == 2) { t = ct.substr(1 + vf_choice((int)ct.size(), "skip")); }
  else { uint8_t x = vf_u8("extra"); t += (char)x; }
  auto r = enc.Decrypt(k, t);
  vf_assert(!r.ok(), "changed, cut or extended ciphertexts are refused");
  vf_reach("refused");
}
// Another key, and bytes never produced by encryption.
static void foreign() {
  int n = vf_param("len", 3);
  std::string pt(n, '\0'); if (n) vf_bytes(&pt[0], n, "plaintext");
  AesKey k = key("key"), k2 = key("other key");
  AesGcmEncryption enc;
  std::string ct = enc.Encrypt(k, pt);
  auto r = enc.Decrypt(k2, ct);
  if (memcmp(k.data(), k2.data(), 32) == 0) vf_assert(r.ok() && *r == pt, "an equal key decrypts");
  else { vf_assert(!r.ok(), "another key is refused"); vf_reach("otherkey"); }
  size_t m = vf_choice(34, "garbage length");
  std::string g(m, '\0'); if (m) vf_bytes(&g[0], m, "garbage");
  vf_assume(!(g == ct));
  auto s = enc.Decrypt(k, g);
  vf_assert(!s.ok(), "anything that was not encrypted with the key is refused");
  vf_reach("garbage");
}
// Nonces: fresh for every message, and sent along.
static void nonce() {
  vfc::concrete = 1;
  uint8_t kb[32] = {1, 2, 3}; AesKey k(kb);
  std::string seen[3];
  AesGcmEncryption enc;
  for (int i = 0; i < 3; i++) {
    std::string pt = vf::flag("same text") ? std::string("x") : std::string(1, (char)('a' + i));
    std::string ct = vf::flag("same object") ? enc.Encrypt(k, pt) : AesGcmEncryption().Encrypt(k, pt);
    seen[i] = vfc::last_nonce;
    vf_assert(seen[i].size() == 12, "the nonce has the cipher's size");
    vf_assert(ct.find(seen[i]) != std::string::npos, "the nonce travels with the ciphertext");
    for (int j = 0; j < i; j++) vf_assert(seen[j] != seen[i], "every encryption uses a fresh nonce");
    auto r = enc.Decrypt(k, ct);
    vf_assert(r.ok() && *r == pt, "decrypting returns the original bytes");
  }
  vf_reach("fresh");
}
// Many messages in a row, by one or by several objects: no nonce comes back.
static void many() {
  vfc::concrete = 1;
  uint8_t kb[32] = {1, 2, 3}; AesKey k(kb); std::set<std::string> seen; AesGcmEncryption enc; bool one = vf::flag("same object");
  for (int i = 0; i < vf_param("count", 600); i++) { std::string ct = one ? enc.Encrypt(k, "x") : AesGcmEncryption().Encrypt(k, "x"); vf_assert(ct.find(vfc::last_nonce) != std::string::npos, "the nonce travels with the ciphertext"); vf_assert(seen.insert(vfc::last_nonce).second, "every encryption uses a fresh nonce"); }
  vf_reach("fresh");
}
// Key agreement: both ends derive the same key; malformed keys are refused.
static void agree() {
  vfc::concrete = 1; vfc::short_keys = vf::flag("leading zero byte");
  auto a = EcdhKeyAgreement::CreateFromRandomKeys(), b = EcdhKeyAgreement::CreateFromRandomKeys(), c = EcdhKeyAgreement::CreateFromRandomKeys();
  vf_assert(a.ok() && b.ok() && c.ok(), "keys are generated");
  auto ab = (*a)->ComputeSharedSecret((*b)->PublicKey()), ba = (*b)->ComputeSharedSecret((*a)->PublicKey()), ac = (*a)->ComputeSharedSecret((*c)->PublicKey());
  vf_assert(ab.ok() && ba.ok() && *ab == *ba, "two peers derive the same key from each other's public keys");
  vf_assert(ac.ok() && !(*ac == *ab), "different peers give different keys");
  auto a2 = EcdhKeyAgreement::CreateFromPrivateKey((*a)->PrivateKey());
  vf_assert(a2.ok(), "a private key can be restored");
  auto ab2 = (*a2)->ComputeSharedSecret((*b)->PublicKey());
  vf_assert(ab2.ok() && *ab2 == *ab, "a restored private key derives the same key");
  auto a3 = EcdhKeyAgreement::CreateFromKeypair((*a)->PrivateKey(), (*a)->PublicKey());
  vf_assert(a3.ok() && (*a3)->PublicKey() == (*a)->PublicKey(), "a key pair can be restored");
  auto bad = EcdhKeyAgreement::CreateFromKeypair((*a)->PrivateKey(), (*b)->PublicKey());
  vf_assert(!bad.ok(), "a mismatched key pair is refused");
  vf_reach("agreed");
  // any public key bytes
  uint8_t raw[65]; bool full = vf::flag("uncompressed");
  memset(raw, 7, 65); raw[0] = vf_u8("prefix"); raw[1] = vf_u8("first byte"); raw[64] = vf_u8("last byte");
  EcdhPublicKey pk(raw, full ? EcdhPublicKey::kUncompressed : EcdhPublicKey::kCompressed);
  auto s = (*a)->ComputeSharedSecret(pk);
  if (full ? raw[0] != 4 : (raw[0] != 2 && raw[0] != 3)) vf_assert(!s.ok(), "malformed public keys are refused");
  auto e = (*a)->ComputeSharedSecret(EcdhPublicKey());
  vf_assert(!e.ok(), "a missing public key is refused");
  auto p = EcdhKeyAgreement::CreateFromPrivateKey(EcdhPrivateKey());
  vf_assert(!p.ok(), "a missing private key is refused");
  vf_reach("malformed");
}
extern "C" void vf_main() {
  switch (vf_param("mode", 0)) { case 0: tamper(); break; case 1: foreign(); break; case 2: nonce(); break; case 4: many(); break; default: agree(); }
}
