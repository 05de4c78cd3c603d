// Ideal cryptography. Every primitive is a table from inputs to outputs: hashes, key derivations and
// ciphertexts are opaque values that collide only when their inputs are equal, and only ciphertexts and
// signatures that were produced can be opened or verified.
#include <string>
#include <vector>
#include "openssl/vfssl.h"
#include "vf.h"
namespace vfc {
int short_keys = 0, concrete = 0, concrete_streams = 0, nstreams = 0, nseals = 0, nopens_ok = 0, nopens_bad = 0;
std::string last_nonce;
size_t stream_lo = 0, stream_hi = (size_t)-1;  // bytes of a key stream outside this window are 0xff
static std::vector<Entry>* tab;
static uint32_t counter;
static std::vector<Entry>& t() { if (!tab) tab = new std::vector<Entry>; return *tab; }
void reset() { t().clear(); nstreams = 0; }
std::string fresh(size_t n, const char* name) {
  std::string s(n, '\0');
  if (concrete) { uint32_t c = ++counter, x = c * 2654435761u; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = i < 4 ? (char)(i == 0 ? 1 : c >> (8 * (3 - i))) : (char)(x >> 24); } return s; }
  if (n) vf_bytes(&s[0], n, name);
  return s;
}
const std::string* find(int kind, const std::string& in) {
  for (auto& e : t()) if (e.kind == kind && e.in.size() == in.size() && e.in == in) return &e.out;
  return nullptr;
}
void put(int kind, const std::string& in, const std::string& out) {
  if (!concrete) for (auto& e : t()) if (e.kind == kind && e.out.size() == out.size() && out.size() >= 16) vf_assume(!(e.out == out));
  t().push_back({kind, in, out});
}
static std::string fn(int kind, const std::string& in, size_t n, const char* name) {
  if (auto* p = find(kind, in)) return *p;
  std::string o = fresh(n, name); put(kind, in, o); return o;
}
static std::string lp(const std::string& s) { uint32_t n = (uint32_t)s.size(); return std::string((char*)&n, 4) + s; }
static std::string S(const uint8_t* p, size_t n) { return n ? std::string((const char*)p, n) : std::string(); }
struct Seal { std::string key, nonce, ad, pt, ct; };
static std::vector<Seal>* seals;
static int seal(const std::string& key, const std::string& nonce, const std::string& ad, const std::string& pt, uint8_t* out, size_t* ol, size_t max) {
  *ol = 0; if (max < pt.size() + 16) return 0;
  if (!seals) seals = new std::vector<Seal>;
  nseals++; last_nonce = nonce;
  std::string ct; bool have = false;
  for (auto& s : *seals) if (s.key == key && s.nonce == nonce && s.ad == ad && s.pt == pt) { ct = s.ct; have = true; break; }
  if (!have) { ct = fresh(pt.size() + 16, "ciphertext"); if (!concrete) for (auto& s : *seals) if (s.ct.size() == ct.size()) vf_assume(!(s.ct == ct)); seals->push_back({key, nonce, ad, pt, ct}); }
  memcpy(out, ct.data(), ct.size()); *ol = ct.size(); return 1;
}
static int open(const std::string& key, const std::string& nonce, const std::string& ad, const std::string& ct, uint8_t* out, size_t* ol, size_t max) {
  *ol = 0;
  if (ct.size() >= 16 && max >= ct.size() - 16 && seals)
    for (auto& s : *seals) if (s.ct.size() == ct.size() && s.key.size() == key.size() && s.nonce.size() == nonce.size() && s.ad.size() == ad.size() && s.ct == ct && s.key == key && s.nonce == nonce && s.ad == ad) { if (s.pt.size()) memcpy(out, s.pt.data(), s.pt.size()); *ol = s.pt.size(); nopens_ok++; return 1; }
  if (max) memset(out, 0, max);
  nopens_bad++;
  return 0;
}
}
using namespace vfc;
extern int vf_rand_calls, vf_rand_limit; extern uint32_t vf_rand_max32; extern uint32_t* vf_rand_same;
uint32_t* vf_rand_same = nullptr;  // points to the value that every four-byte draw returns
int vf_rand_calls = 0, vf_rand_limit = 1000000; uint32_t vf_rand_max32 = 0;  // nonzero: four-byte draws are at most this
extern "C" int RAND_bytes(unsigned char* buf, size_t n) { if (++vf_rand_calls > vf_rand_limit) vf_assume(0); std::string s = fresh(n, "rand"); if (n) memcpy(buf, s.data(), n); if (vf_rand_max32 && n == 4) { uint32_t v; memcpy(&v, buf, 4); vf_assume(v <= vf_rand_max32); if (vf_rand_same) { v = *vf_rand_same; memcpy(buf, &v, 4); } } return 1; }
void OPENSSL_cleanse(void* p, size_t n) { if (n) memset(p, 0, n); }
const EVP_MD* EVP_sha256() { static const EVP_MD m{32}; return &m; }
int EVP_Digest(const void* d, size_t n, uint8_t* out, unsigned* len, const EVP_MD*, ENGINE*) { std::string o = fn(1, S((const uint8_t*)d, n), 32, "sha256"); memcpy(out, o.data(), 32); if (len) *len = 32; return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX* c, uint8_t* out, unsigned* len) { int r = EVP_Digest(c->data.data(), c->data.size(), out, len, nullptr, nullptr); c->data.clear(); return r; }
uint8_t* SHA256(const uint8_t* d, size_t n, uint8_t* out) { EVP_Digest(d, n, out, nullptr, nullptr, nullptr); return out; }
int SHA256_Init(SHA256_CTX* c) { c->data = new std::string; return 1; }
int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) { c->data->append((const char*)d, n); return 1; }
int SHA256_Final(uint8_t* out, SHA256_CTX* c) { EVP_Digest(c->data->data(), c->data->size(), out, nullptr, nullptr, nullptr); delete c->data; c->data = nullptr; return 1; }
const EVP_CIPHER* EVP_aes_256_ctr() { static const EVP_CIPHER c{32}; return &c; }
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER*, ENGINE*, const uint8_t* key, const uint8_t* iv) { if (key) c->key = S(key, 32); if (iv) c->iv = S(iv, 16); c->pos = 0; return 1; }
int EVP_EncryptUpdate(EVP_CIPHER_CTX* c, uint8_t* out, int* outl, const uint8_t* in, int n) {
  static std::vector<Entry>* st; if (!st) st = new std::vector<Entry>;
  std::string k = c->key + c->iv; Entry* e = nullptr;
  for (auto& x : *st) if (x.in == k) { e = &x; break; }
  if (!e) { st->push_back({2, k, ""}); e = &st->back(); nstreams++; }
  while (e->out.size() < c->pos + n) { size_t a = e->out.size(), m = c->pos + n - a; if (concrete_streams) e->out += fresh(m, "stream"); else { e->out.resize(a + m, (char)0xff); size_t lo = a > stream_lo ? a : stream_lo, hi = a + m < stream_hi ? a + m : stream_hi; if (lo < hi) vf_bytes(&e->out[lo], hi - lo, "stream"); } }
  for (int i = 0; i < n; i++) out[i] = in[i] ^ (uint8_t)e->out[c->pos + i];
  c->pos += n; *outl = n; return 1;
}
static const EVP_AEAD a256{32, 12, 1}, a128{16, 12, 2}, s128{16, 12, 3}, s256{32, 12, 4};
const EVP_AEAD* EVP_aead_aes_256_gcm() { return &a256; } const EVP_AEAD* EVP_aead_aes_128_gcm() { return &a128; }
const EVP_AEAD* EVP_aead_aes_128_gcm_siv() { return &s128; } const EVP_AEAD* EVP_aead_aes_256_gcm_siv() { return &s256; }
int EVP_AEAD_CTX_init(EVP_AEAD_CTX* c, const EVP_AEAD* a, const uint8_t* key, size_t n, size_t tag, ENGINE*) { if (n != a->key_len) { c->aead = nullptr; return 0; } c->aead = a; c->key = std::string(1, (char)a->id) + S(key, n); return 1; }
EVP_AEAD_CTX* EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* key, size_t n, size_t tag) { auto c = new EVP_AEAD_CTX; if (!EVP_AEAD_CTX_init(c, a, key, n, tag, nullptr)) { delete c; return nullptr; } return c; }
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX* c, uint8_t* out, size_t* out_len, size_t max, const uint8_t* nonce, size_t nn, const uint8_t* in, size_t n, const uint8_t* ad, size_t an) { if (!c->aead || nn != c->aead->nonce_len) { *out_len = 0; return 0; } return seal(c->key, S(nonce, nn), S(ad, an), S(in, n), out, out_len, max); }
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX* c, uint8_t* out, size_t* out_len, size_t max, const uint8_t* nonce, size_t nn, const uint8_t* in, size_t n, const uint8_t* ad, size_t an) { if (!c->aead || nn != c->aead->nonce_len) { *out_len = 0; return 0; } return open(c->key, S(nonce, nn), S(ad, an), S(in, n), out, out_len, max); }
static const EVP_HPKE_KEM kem{0x20}; static const EVP_HPKE_KDF kdf{1}; static const EVP_HPKE_AEAD ha128{1}, ha256{2};
const EVP_HPKE_KEM* EVP_hpke_x25519_hkdf_sha256() { return &kem; } const EVP_HPKE_KDF* EVP_hpke_hkdf_sha256() { return &kdf; }
const EVP_HPKE_AEAD* EVP_hpke_aes_128_gcm() { return &ha128; } const EVP_HPKE_AEAD* EVP_hpke_aes_256_gcm() { return &ha256; }
int EVP_HPKE_KEY_init(EVP_HPKE_KEY* k, const EVP_HPKE_KEM*, const uint8_t* p, size_t n) { if (n != 32) return 0; k->priv = S(p, n); k->pub = fn(3, k->priv, 32, "hpke public key"); return 1; }
int EVP_HPKE_KEY_generate(EVP_HPKE_KEY* k, const EVP_HPKE_KEM* m) { std::string p = fresh(32, "hpke private key"); return EVP_HPKE_KEY_init(k, m, (const uint8_t*)p.data(), 32); }
int EVP_HPKE_KEY_copy(EVP_HPKE_KEY* d, const EVP_HPKE_KEY* s) { *d = *s; return 1; }
static int outp(const std::string& s, uint8_t* out, size_t* len, size_t max) { if (max < s.size()) return 0; memcpy(out, s.data(), s.size()); *len = s.size(); return 1; }
int EVP_HPKE_KEY_public_key(const EVP_HPKE_KEY* k, uint8_t* out, size_t* len, size_t max) { return outp(k->pub, out, len, max); }
int EVP_HPKE_KEY_private_key(const EVP_HPKE_KEY* k, uint8_t* out, size_t* len, size_t max) { return outp(k->priv, out, len, max); }
int EVP_HPKE_CTX_setup_sender(EVP_HPKE_CTX* c, uint8_t* enc, size_t* el, size_t max, const EVP_HPKE_KEM*, const EVP_HPKE_KDF*, const EVP_HPKE_AEAD* a, const uint8_t* pub, size_t pn, const uint8_t* info, size_t in) {
  if (pn != 32 || max < 32) return 0;
  std::string e = fresh(32, "encapsulated key");
  c->secret = fn(4, e + S(pub, pn) + std::string(1, (char)a->id) + S(info, in), 32, "hpke secret"); c->sender = c->set = true; c->seq = 0;
  memcpy(enc, e.data(), 32); *el = 32; return 1;
}
int EVP_HPKE_CTX_setup_recipient(EVP_HPKE_CTX* c, const EVP_HPKE_KEY* k, const EVP_HPKE_KDF*, const EVP_HPKE_AEAD* a, const uint8_t* enc, size_t en, const uint8_t* info, size_t in) {
  if (en != 32) return 0;
  c->secret = fn(4, S(enc, en) + k->pub + std::string(1, (char)a->id) + S(info, in), 32, "hpke secret"); c->sender = false; c->set = true; c->seq = 0; return 1;
}
static std::string seqn(uint64_t s) { return std::string((char*)&s, 8); }
int EVP_HPKE_CTX_seal(EVP_HPKE_CTX* c, uint8_t* out, size_t* ol, size_t max, const uint8_t* in, size_t n, const uint8_t* ad, size_t an) { if (!c->set || !c->sender) return 0; if (!seal(c->secret, seqn(c->seq), S(ad, an), S(in, n), out, ol, max)) return 0; c->seq++; return 1; }
int EVP_HPKE_CTX_open(EVP_HPKE_CTX* c, uint8_t* out, size_t* ol, size_t max, const uint8_t* in, size_t n, const uint8_t* ad, size_t an) { if (!c->set || c->sender) return 0; if (!open(c->secret, seqn(c->seq), S(ad, an), S(in, n), out, ol, max)) return 0; c->seq++; return 1; }
// 64-byte big-endian numbers
BIGNUM* BN_new() { auto b = new BIGNUM; b->be = std::string(64, '\0'); return b; }
void BN_free(BIGNUM* b) { delete b; }
BIGNUM* BN_bin2bn(const uint8_t* d, size_t n, BIGNUM* r) { if (n > 64) return nullptr; if (!r) r = BN_new(); r->be = std::string(64 - n, '\0') + S(d, n); return r; }
unsigned BN_num_bytes(const BIGNUM* b) { unsigned n = 64; while (n && !b->be[64 - n]) n--; return n; }
size_t BN_bn2bin(const BIGNUM* b, uint8_t* out) { unsigned n = BN_num_bytes(b); memcpy(out, b->be.data() + 64 - n, n); return n; }
int BN_bn2bin_padded(uint8_t* out, size_t n, const BIGNUM* b) { uint8_t hi = 0; for (size_t i = 0; i + n < 64; i++) hi |= (uint8_t)b->be[i]; if (hi) return 0; if (n > 64) { memset(out, 0, n - 64); out += n - 64; n = 64; } memcpy(out, b->be.data() + 64 - n, n); return 1; }
int BN_cmp(const BIGNUM* a, const BIGNUM* b) { return memcmp(a->be.data(), b->be.data(), 64); }
const EC_GROUP* EC_group_p256() { static const EC_GROUP g{NID_X9_62_prime256v1}; return &g; }
EC_POINT* EC_POINT_new(const EC_GROUP*) { return new EC_POINT; } void EC_POINT_free(EC_POINT* p) { delete p; }
// point = 32-byte x and parity; table kind 5: private key -> x||parity, kind 6: x||parity -> y (known points)
static std::string pt(const EC_POINT* p) { return p->x + std::string(1, (char)p->par); }
int EC_POINT_oct2point(const EC_GROUP*, EC_POINT* p, const uint8_t* d, size_t n, BN_CTX*) {
  if (n == 33 && (d[0] == 2 || d[0] == 3)) {
    std::string x = S(d + 1, 32); uint8_t par = d[0] & 1;
    if (!find(6, x + std::string(1, (char)par))) { auto* bad = find(7, x); if (bad) return 0; if (find(6, x + std::string(1, (char)!par))) {} else if (!vf_choice(2, "point is on the curve")) { t().push_back({7, x, "0"}); return 0; } put(6, x + std::string(1, (char)par), fresh(32, "point y")); }
    p->x = x; p->par = par; p->set = true; return 1;
  }
  if (n == 65 && d[0] == 4) {
    std::string x = S(d + 1, 32), y = S(d + 33, 32);
    for (int par = 0; par < 2; par++) if (auto* k = find(6, x + std::string(1, (char)par))) if (*k == y) { p->x = x; p->par = par; p->set = true; return 1; }
    if (find(6, x + std::string(1, '\0')) || find(6, x + std::string(1, '\1')) || find(7, x)) return 0;
    if (!vf_choice(2, "point is on the curve")) { t().push_back({7, x, "0"}); return 0; }
    p->x = x; p->par = y[31] & 1; p->set = true; put(6, pt(p), y); return 1;
  }
  return 0;
}
size_t EC_POINT_point2oct(const EC_GROUP*, const EC_POINT* p, point_conversion_form_t f, uint8_t* out, size_t max, BN_CTX*) {
  if (!p->set) return 0; size_t n = f == POINT_CONVERSION_COMPRESSED ? 33 : 65; if (!out) return n; if (max < n) return 0;
  memcpy(out + 1, p->x.data(), 32);
  if (n == 33) out[0] = 2 + p->par; else { out[0] = 4; auto* y = find(6, pt(p)); memcpy(out + 33, y->data(), 32); }
  return n;
}
EC_KEY* EC_KEY_new() { return new EC_KEY; }
EC_KEY* EC_KEY_new_by_curve_name(int nid) { auto k = new EC_KEY; k->group = EC_group_p256(); return k; }
void EC_KEY_free(EC_KEY* k) { if (!k) return; if (k->priv) BN_free(k->priv); if (k->pub) EC_POINT_free(k->pub); delete k; }
int EC_KEY_set_group(EC_KEY* k, const EC_GROUP* g) { k->group = g; return 1; }
static std::string pub_of(const std::string& priv) { // 33 bytes x||par
  if (auto* p = find(5, priv)) return *p;
  std::string x = fresh(32, "public key") + std::string(1, (char)0); put(5, priv, x); put(6, x, fresh(32, "point y")); return x;
}
int EC_KEY_generate_key(EC_KEY* k) {
  std::string p = fresh(32, "private key"); if (vfc::concrete && vfc::short_keys) p[0] = 0; k->priv = BN_bin2bn((const uint8_t*)p.data(), 32, nullptr);
  std::string q = pub_of(k->priv->be); k->pub = new EC_POINT; k->pub->x = q.substr(0, 32); k->pub->par = q[32]; k->pub->set = true; return 1;
}
int EC_KEY_set_private_key(EC_KEY* k, const BIGNUM* b) {
  bool zero = true; for (char c : b->be) if (c) { zero = false; break; }
  if (zero) return 0;
  if (!find(5, b->be)) { auto* bad = find(8, b->be); if (bad) return 0; if (!vf_choice(2, "private key is below the group order")) { t().push_back({8, b->be, "0"}); return 0; } }
  if (k->priv) BN_free(k->priv); k->priv = BN_new(); k->priv->be = b->be; return 1;
}
int EC_KEY_set_public_key(EC_KEY* k, const EC_POINT* p) { if (!p->set) return 0; if (k->pub) EC_POINT_free(k->pub); k->pub = new EC_POINT(*p); return 1; }
int EC_KEY_check_key(const EC_KEY* k) { if (!k->pub || !k->pub->set) return 0; if (!k->priv) return 1; return pub_of(k->priv->be) == pt(k->pub); }
size_t EC_KEY_key2buf(const EC_KEY* k, point_conversion_form_t f, uint8_t** out, BN_CTX*) { if (!k->pub) return 0; size_t n = EC_POINT_point2oct(k->group, k->pub, f, nullptr, 0, nullptr); *out = (uint8_t*)::operator new(n); return EC_POINT_point2oct(k->group, k->pub, f, *out, n, nullptr); }
int EC_KEY_oct2key(EC_KEY* k, const uint8_t* d, size_t n, BN_CTX*) { EC_POINT p; if (!k->group || !EC_POINT_oct2point(k->group, &p, d, n, nullptr)) return 0; return EC_KEY_set_public_key(k, &p); }
int ECDH_compute_key(void* out, size_t n, const EC_POINT* p, const EC_KEY* k, void* (*)(const void*, size_t, void*, size_t*)) {
  if (!k->priv || !p->set) return -1;
  std::string a = pub_of(k->priv->be).substr(0, 32), b = p->x;  // ECDH depends on x only (the sign of y does not matter)
  std::string s = a.size() == b.size() && memcmp(a.data(), b.data(), 32) < 0 ? a + b : b + a;
  std::string o = fn(9, s, 32, "shared secret"); size_t m = n < 32 ? n : 32; memcpy(out, o.data(), m); return (int)m;
}
ECDSA_SIG* ECDSA_SIG_new() { return new ECDSA_SIG; } void ECDSA_SIG_free(ECDSA_SIG* s) { if (!s) return; BN_free(s->r); BN_free(s->s); delete s; }
int ECDSA_SIG_set0(ECDSA_SIG* s, BIGNUM* r, BIGNUM* t) { if (!r || !t) return 0; BN_free(s->r); BN_free(s->s); s->r = r; s->s = t; return 1; }
ECDSA_SIG* ECDSA_do_sign(const uint8_t* d, size_t n, const EC_KEY* k) { if (!k->priv) return nullptr; std::string pk = pub_of(k->priv->be), sig = fresh(64, "signature"); t().push_back({10, pk + S(d, n) + sig, "1"}); auto s = new ECDSA_SIG; s->r = BN_bin2bn((const uint8_t*)sig.data(), 32, nullptr); s->s = BN_bin2bn((const uint8_t*)sig.data() + 32, 32, nullptr); return s; }
int ECDSA_do_verify(const uint8_t* d, size_t n, const ECDSA_SIG* s, const EC_KEY* k) { if (!k->pub || !s->r || !s->s) return -1; uint8_t b[64]; if (!BN_bn2bin_padded(b, 32, s->r) || !BN_bn2bin_padded(b + 32, 32, s->s)) return 0; return find(10, pt(k->pub) + S(d, n) + S(b, 64)) ? 1 : 0; }
