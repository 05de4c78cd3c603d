// Encrypted messages and signatures over ideal primitives.
#include <string>
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "openssl/vfssl.h"
#include "vf.h"
using namespace fcp::confidential_compute;
static std::string pubkey(const MessageDecryptor& d) { auto k = d.GetPublicKey([](absl::string_view s) -> absl::StatusOr<std::string> { return std::string("signed"); }, -7); vf_assert(k.ok(), "public keys are available"); return *k; }
// Some other string: one byte changed, a byte less or a byte more.
static std::string other(const std::string& s, const char* what) {
  std::string r = s; int k = vf_choice(3, what);
  if (k == 0) { r += (char)vf_u8("extra byte"); return r; }
  if (r.empty()) vf_end();
  if (k == 1) { r.pop_back(); return r; }
  size_t i = vf_choice(r.size(), "changed byte"); uint8_t x = vf_u8("change"); vf_assume(x != 0); r[i] = (char)(r[i] ^ x); return r;
}
extern "C" void vf_main() {
  int mode = vf_param("mode", 0), len = vf_param("len", 2); vfc::concrete = 1; vfc::concrete_streams = 1;
  if (mode == 0) {
    MessageEncryptor e; MessageDecryptor d, z; std::string pk = pubkey(d), text = vf::str(0, len, "text"), ad = vf::str(0, len, "associated data");
    auto m = e.Encrypt(text, pk, ad); vf_assert(m.ok(), "messages can be encrypted");
    auto p = d.Decrypt(m->ciphertext, ad, m->encrypted_symmetric_key, ad, m->encapped_key); vf_assert(p.ok() && *p == text, "messages are recovered");
    p = d.Decrypt(m->ciphertext, ad, m->encrypted_symmetric_key, ad, m->encapped_key); vf_assert(p.ok() && *p == text, "messages are recovered again");
    vf_assert(!z.Decrypt(m->ciphertext, ad, m->encrypted_symmetric_key, ad, m->encapped_key).ok(), "others cannot open the message"); vf_reach("opened");
    auto m2 = e.Encrypt(text, pk, ad); vf_assert(m2.ok(), "messages can be encrypted"); vf_assert(m2->encapped_key != m->encapped_key && m2->encrypted_symmetric_key != m->encrypted_symmetric_key && m2->ciphertext != m->ciphertext, "every message has its own key");
    vf_assert(!d.Decrypt(m->ciphertext, ad, m2->encrypted_symmetric_key, ad, m2->encapped_key).ok(), "keys of another message do not fit");
  }
  if (mode == 1) {
    MessageEncryptor e; MessageDecryptor d; std::string pk = pubkey(d), text = vf::str(0, len, "text"), ad = vf::str(0, len, "associated data"); auto m = e.Encrypt(text, pk, ad); vf_assert(m.ok(), "messages can be encrypted");
    std::string c = m->ciphertext, a1 = ad, k = m->encrypted_symmetric_key, a2 = ad, n = m->encapped_key; std::string* f[] = {&c, &a1, &k, &a2, &n}; int w = vf_param("what", 0); *f[w] = other(*f[w], "tampering");
    auto p = d.Decrypt(c, a1, k, a2, n); vf_assert(!p.ok(), "a message with any part changed is refused"); vf_reach("refused");
  }
  if (mode == 2) {
    // a key re-wrapped for another recipient
    bssl::ScopedEVP_HPKE_KEY mine; EVP_HPKE_KEY_generate(mine.get(), EVP_hpke_x25519_hkdf_sha256()); OkpCwt cwt; OkpKey key; key.algorithm = crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm; key.curve = crypto_internal::kX25519; key.x = std::string(32, '\0'); size_t nn = 0; EVP_HPKE_KEY_public_key(mine.get(), (uint8_t*)&key.x[0], &nn, 32); cwt.public_key = key; auto tok = cwt.Encode();
    MessageEncryptor e; MessageDecryptor d, z; std::string text = vf::str(0, len, "text"), ad = vf::str(0, len, "associated data"), ad2 = vf::str(0, len, "other associated data"); auto m = e.Encrypt(text, *tok, ad); vf_assert(m.ok(), "messages can be encrypted");
    auto s = crypto_internal::UnwrapSymmetricKey(mine.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), m->encrypted_symmetric_key, m->encapped_key, ad); vf_assert(s.ok(), "the key can be unwrapped");
    vf_assert(!crypto_internal::UnwrapSymmetricKey(mine.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), m->encrypted_symmetric_key, m->encapped_key, other(ad, "data")).ok(), "the key stays closed with other data");
    auto t = OkpCwt::Decode(pubkey(d)); auto w = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), *s, t->public_key->x, ad2); vf_assert(w.ok(), "the key can be wrapped again");
    auto p = d.Decrypt(m->ciphertext, ad, w->encrypted_symmetric_key, ad2, w->encapped_key); vf_assert(p.ok() && *p == text, "re-wrapped messages are recovered"); vf_reach("opened");
    bool diff = ad.size() != ad2.size() || ad != ad2;
    vf_assert(!z.Decrypt(m->ciphertext, ad, w->encrypted_symmetric_key, ad2, w->encapped_key).ok(), "others cannot open the message");
    vf_assert(!d.Decrypt(m->ciphertext, ad, m->encrypted_symmetric_key, ad, m->encapped_key).ok(), "the original key is not for the new recipient");
    if (diff) { vf_assert(!d.Decrypt(m->ciphertext, ad2, w->encrypted_symmetric_key, ad2, w->encapped_key).ok(), "the message needs its own associated data"); vf_assert(!d.Decrypt(m->ciphertext, ad, w->encrypted_symmetric_key, ad, w->encapped_key).ok(), "the wrapped key needs its own associated data"); vf_reach("refused"); }
  }
  if (mode == 7) {
    // a key that is not meant for these messages
    bssl::ScopedEVP_HPKE_KEY mine; EVP_HPKE_KEY_generate(mine.get(), EVP_hpke_x25519_hkdf_sha256()); OkpCwt cwt; OkpKey key; key.algorithm = crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm; key.curve = crypto_internal::kX25519; key.x = std::string(32, '\0'); size_t nn = 0; EVP_HPKE_KEY_public_key(mine.get(), (uint8_t*)&key.x[0], &nn, 32); cwt.public_key = key; auto tok = cwt.Encode();
    MessageEncryptor e; MessageDecryptor d; std::string text = vf::str(0, len, "text"); auto m = e.Encrypt(text, *tok, "ad"); vf_assert(m.ok(), "messages can be encrypted");
    auto s = crypto_internal::UnwrapSymmetricKey(mine.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), m->encrypted_symmetric_key, m->encapped_key, "ad"); vf_assert(s.ok(), "the key can be unwrapped"); auto k = SymmetricKey::Decode(*s); vf_assert(k.ok() && k->algorithm == crypto_internal::kAeadAes128GcmSivFixedNonce, "the key names its algorithm");
    int w = vf_choice(3, "defect"); if (w == 0) k->algorithm.reset(); else if (w == 1) { k->algorithm = (int64_t)(int16_t)vf_u16("algorithm"); vf_assume(*k->algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce); } else k->k = vf::flag("short") ? k->k.substr(1) : k->k + "x";
    auto b = k->Encode(); vf_assert(b.ok(), "keys can be encoded"); auto t = OkpCwt::Decode(pubkey(d)); auto r = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(), *b, t->public_key->x, "ad"); vf_assert(r.ok(), "the key can be wrapped again");
    vf_assert(!d.Decrypt(m->ciphertext, "ad", r->encrypted_symmetric_key, "ad", r->encapped_key).ok(), "keys for another use are refused"); vf_reach("refused");
  }
  if (mode == 3) {
    // the published key
    google::protobuf::Struct props; bool with = vf::flag("properties"); if (with) (*props.mutable_fields())["a"].set_bool_value(true);
    MessageDecryptor d(props); int64_t alg = (int64_t)vf_u64("algorithm"); std::string sig = vf::str(0, 2, "signature"), signed_part; bool fails = vf::flag("signing fails");
    auto k = d.GetPublicKey([&](absl::string_view s) -> absl::StatusOr<std::string> { signed_part = std::string(s); if (fails) return absl::UnavailableError("no"); return sig; }, alg);
    vf_assert(k.ok() == !fails, "a key is published exactly when it could be signed"); if (fails) { vf_assert(k.status().code() == absl::StatusCode::kUnavailable, "failures of the signer are passed on"); vf_reach("refused"); vf_end(); }
    auto t = OkpCwt::Decode(*k); vf_assert(t.ok() && t->algorithm == alg && t->signature == sig && t->public_key.has_value(), "the published token"); vf_assert(t->public_key->algorithm == crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm && t->public_key->curve == crypto_internal::kX25519 && t->public_key->x.size() == 32, "the published key");
    vf_assert((t->config_properties.fields().size() == 1) == with, "the configuration is published"); auto v = OkpCwt::GetSigStructureForVerifying(*k, ""); vf_assert(v.ok() && *v == signed_part, "what is verified is what was signed"); vf_reach("opened");
  }
  if (mode == 4) {
    // unsuitable recipients
    MessageEncryptor e; MessageDecryptor d; auto t = OkpCwt::Decode(pubkey(d)); vf_assert(t.ok(), "tokens can be decoded"); int k = vf_choice(6, "defect"); std::string pk; bool fine = false;
    if (k == 0) { t->public_key.reset(); pk = *t->Encode(); } else if (k == 1) { t->public_key->algorithm = (int64_t)(int16_t)vf_u16("algorithm"); vf_assume(*t->public_key->algorithm != crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm); pk = *t->Encode(); }
    else if (k == 2) { t->public_key->curve = (int64_t)(int8_t)vf_u8("curve"); vf_assume(*t->public_key->curve != crypto_internal::kX25519); pk = *t->Encode(); } else if (k == 3) { t->public_key->x = vf::flag("short") ? t->public_key->x.substr(1) : t->public_key->x + "x"; pk = *t->Encode(); }
    else if (k == 4) { if (vf::flag("algorithm")) t->public_key->algorithm.reset(); else t->public_key->curve.reset(); pk = *t->Encode(); } else { pk = vf::str(0, 2, "bytes"); }
    auto m = e.Encrypt("text", pk, "ad"); vf_assert(m.ok() == fine, "nothing is encrypted for an unsuitable key"); vf_reach("refused");
  }
  if (mode == 5) {
    // signatures
    auto s = EcdsaP256R1Signer::Create(), o = EcdsaP256R1Signer::Create(); vfc::concrete = vf_param("symbolic", 0) ? 0 : 1; std::string data = vf::str(0, len, "data"), sig = s.Sign(data); vf_assert(sig.size() == 64, "signatures have a fixed length"); if (!vfc::concrete) vf_reach("any signature");
    auto v = EcdsaP256R1SignatureVerifier::Create(s.GetPublicKey()), x = EcdsaP256R1SignatureVerifier::Create(o.GetPublicKey()); vf_assert(v.ok() && x.ok(), "public keys are accepted");
    vf_assert(v->Verify(data, sig).ok(), "signatures verify"); vf_reach("opened"); vf_assert(!x->Verify(data, sig).ok(), "signatures of another key are refused");
    if (vf::flag("data")) vf_assert(!v->Verify(other(data, "tampering"), sig).ok(), "signatures of other data are refused"); else vf_assert(!v->Verify(data, other(sig, "tampering")).ok(), "changed signatures are refused"); vf_reach("refused");
  }
  if (mode == 6) {
    auto s = EcdsaP256R1Signer::Create(); std::string pk = s.GetPublicKey(), bad = other(pk, "tampering"), data = "d", sig = s.Sign(data); auto v = EcdsaP256R1SignatureVerifier::Create(bad); if (v.ok()) { vf_assert(!v->Verify(data, sig).ok(), "signatures of another key are refused"); } vf_reach("refused");
    std::string shorter = std::string(vf_choice(130, "length"), 's'); vf_assert(!EcdsaP256R1SignatureVerifier::Create(pk)->Verify(data, shorter).ok(), "made-up signatures of any length are refused");
  }
}
