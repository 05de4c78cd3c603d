// Stand-in for the BoringSSL interface: ideal primitives kept as tables (see rt/crypto.cc).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <memory>
#include <string>
#define OPENSSL_IS_BORINGSSL
#define BORINGSSL_API_VERSION 20
struct EVP_MD { int size; };
struct EVP_MD_CTX { std::string data; };
struct EVP_CIPHER { int key; };
struct EVP_CIPHER_CTX { std::string key, iv; size_t pos = 0; };
struct ENGINE;
struct EVP_AEAD { size_t key_len, nonce_len; int id; };
struct EVP_AEAD_CTX { const EVP_AEAD* aead = nullptr; std::string key; };
struct EVP_HPKE_KEM { int id; }; struct EVP_HPKE_KDF { int id; }; struct EVP_HPKE_AEAD { int id; };
struct EVP_HPKE_KEY { std::string priv, pub; };
struct EVP_HPKE_CTX { std::string secret; uint64_t seq = 0; bool sender = false, set = false; };
struct BIGNUM { std::string be; };
struct BN_CTX;
struct EC_GROUP { int nid; };
struct EC_POINT { std::string x; uint8_t par = 0; bool set = false; };
struct EC_KEY { const EC_GROUP* group = nullptr; BIGNUM* priv = nullptr; EC_POINT* pub = nullptr; };
struct ECDSA_SIG { BIGNUM* r = nullptr; BIGNUM* s = nullptr; };
typedef BIGNUM bignum_st; typedef EC_KEY ec_key_st;
typedef int point_conversion_form_t;
#define POINT_CONVERSION_COMPRESSED 2
#define POINT_CONVERSION_UNCOMPRESSED 4
#define NID_X9_62_prime256v1 415
#define SHA256_DIGEST_LENGTH 32
#define EVP_MAX_MD_SIZE 64
#define EVP_AEAD_DEFAULT_TAG_LENGTH 0
#define EVP_AEAD_MAX_OVERHEAD 64
#define EVP_AEAD_MAX_KEY_LENGTH 80
#define EVP_AEAD_MAX_NONCE_LENGTH 24
#define EVP_HPKE_MAX_PUBLIC_KEY_LENGTH 32
#define EVP_HPKE_MAX_PRIVATE_KEY_LENGTH 32
#define EVP_HPKE_MAX_ENC_LENGTH 32
#define EVP_HPKE_DHKEM_X25519_HKDF_SHA256 0x20
extern "C" int RAND_bytes(unsigned char* buf, size_t n);
inline void RAND_enable_fork_unsafe_buffering(int) {}
void OPENSSL_cleanse(void* p, size_t n);
inline void OPENSSL_free(void* p) { ::operator delete(p); }
inline void* OPENSSL_malloc(size_t n) { return ::operator new(n); }
inline int CRYPTO_memcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
inline uint32_t ERR_get_error() { return 0; }
inline uint32_t ERR_peek_error() { return 0; }
inline const char* ERR_reason_error_string(uint32_t) { return "error"; }
inline void ERR_clear_error() {}
const EVP_MD* EVP_sha256();
inline size_t EVP_MD_size(const EVP_MD* m) { return m->size; }
inline EVP_MD_CTX* EVP_MD_CTX_new() { return new EVP_MD_CTX; }
inline EVP_MD_CTX* EVP_MD_CTX_create() { return new EVP_MD_CTX; }
inline void EVP_MD_CTX_free(EVP_MD_CTX* c) { delete c; }
inline void EVP_MD_CTX_destroy(EVP_MD_CTX* c) { delete c; }
inline void EVP_MD_CTX_init(EVP_MD_CTX* c) { c->data.clear(); }
inline int EVP_MD_CTX_cleanup(EVP_MD_CTX* c) { c->data.clear(); return 1; }
inline int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD*, ENGINE*) { c->data.clear(); return 1; }
inline int EVP_DigestInit(EVP_MD_CTX* c, const EVP_MD*) { c->data.clear(); return 1; }
inline int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { c->data.append((const char*)d, n); return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX* c, uint8_t* out, unsigned* len);
inline int EVP_DigestFinal(EVP_MD_CTX* c, uint8_t* out, unsigned* len) { return EVP_DigestFinal_ex(c, out, len); }
int EVP_Digest(const void* d, size_t n, uint8_t* out, unsigned* len, const EVP_MD*, ENGINE*);
uint8_t* SHA256(const uint8_t* d, size_t n, uint8_t* out);
struct SHA256_CTX { std::string* data = nullptr; };
int SHA256_Init(SHA256_CTX* c); int SHA256_Update(SHA256_CTX* c, const void* d, size_t n); int SHA256_Final(uint8_t* out, SHA256_CTX* c);
const EVP_CIPHER* EVP_aes_256_ctr();
inline EVP_CIPHER_CTX* EVP_CIPHER_CTX_new() { return new EVP_CIPHER_CTX; }
inline void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { delete c; }
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER*, ENGINE*, const uint8_t* key, const uint8_t* iv);
int EVP_EncryptUpdate(EVP_CIPHER_CTX* c, uint8_t* out, int* outl, const uint8_t* in, int n);
const EVP_AEAD* EVP_aead_aes_256_gcm(); const EVP_AEAD* EVP_aead_aes_128_gcm(); const EVP_AEAD* EVP_aead_aes_128_gcm_siv(); const EVP_AEAD* EVP_aead_aes_256_gcm_siv();
inline size_t EVP_AEAD_key_length(const EVP_AEAD* a) { return a->key_len; }
inline size_t EVP_AEAD_nonce_length(const EVP_AEAD* a) { return a->nonce_len; }
inline size_t EVP_AEAD_max_overhead(const EVP_AEAD* a) { return 16; }
inline size_t EVP_AEAD_max_tag_len(const EVP_AEAD* a) { return 16; }
int EVP_AEAD_CTX_init(EVP_AEAD_CTX* c, const EVP_AEAD* a, const uint8_t* key, size_t n, size_t tag, ENGINE*);
EVP_AEAD_CTX* EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* key, size_t n, size_t tag);
inline void EVP_AEAD_CTX_zero(EVP_AEAD_CTX* c) { c->aead = nullptr; c->key.clear(); }
inline void EVP_AEAD_CTX_cleanup(EVP_AEAD_CTX* c) { c->aead = nullptr; c->key.clear(); }
inline void EVP_AEAD_CTX_free(EVP_AEAD_CTX* c) { delete c; }
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX* c, uint8_t* out, size_t* out_len, size_t max, const uint8_t* nonce, size_t nn, const uint8_t* in, size_t n, const uint8_t* ad, size_t an);
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX* c, uint8_t* out, size_t* out_len, size_t max, const uint8_t* nonce, size_t nn, const uint8_t* in, size_t n, const uint8_t* ad, size_t an);
const EVP_HPKE_KEM* EVP_hpke_x25519_hkdf_sha256(); const EVP_HPKE_KDF* EVP_hpke_hkdf_sha256(); const EVP_HPKE_AEAD* EVP_hpke_aes_128_gcm(); const EVP_HPKE_AEAD* EVP_hpke_aes_256_gcm();
int EVP_HPKE_KEY_generate(EVP_HPKE_KEY* k, const EVP_HPKE_KEM*);
inline EVP_HPKE_KEY* EVP_HPKE_KEY_new() { return new EVP_HPKE_KEY; }
inline void EVP_HPKE_KEY_free(EVP_HPKE_KEY* k) { delete k; }
inline void EVP_HPKE_KEY_zero(EVP_HPKE_KEY* k) {} inline void EVP_HPKE_KEY_cleanup(EVP_HPKE_KEY*) {}
int EVP_HPKE_KEY_copy(EVP_HPKE_KEY* d, const EVP_HPKE_KEY* s);
int EVP_HPKE_KEY_init(EVP_HPKE_KEY* k, const EVP_HPKE_KEM*, const uint8_t* p, size_t n);
int EVP_HPKE_KEY_public_key(const EVP_HPKE_KEY* k, uint8_t* out, size_t* len, size_t max);
int EVP_HPKE_KEY_private_key(const EVP_HPKE_KEY* k, uint8_t* out, size_t* len, size_t max);
int EVP_HPKE_CTX_setup_sender(EVP_HPKE_CTX* c, uint8_t* enc, size_t* el, size_t max, const EVP_HPKE_KEM*, const EVP_HPKE_KDF*, const EVP_HPKE_AEAD*, const uint8_t* pub, size_t pn, const uint8_t* info, size_t in);
int EVP_HPKE_CTX_setup_recipient(EVP_HPKE_CTX* c, const EVP_HPKE_KEY* k, const EVP_HPKE_KDF*, const EVP_HPKE_AEAD*, const uint8_t* enc, size_t en, const uint8_t* info, size_t in);
int EVP_HPKE_CTX_seal(EVP_HPKE_CTX* c, uint8_t* out, size_t* ol, size_t max, const uint8_t* in, size_t n, const uint8_t* ad, size_t an);
int EVP_HPKE_CTX_open(EVP_HPKE_CTX* c, uint8_t* out, size_t* ol, size_t max, const uint8_t* in, size_t n, const uint8_t* ad, size_t an);
inline size_t EVP_HPKE_CTX_max_overhead(const EVP_HPKE_CTX*) { return 16; }
inline void EVP_HPKE_CTX_zero(EVP_HPKE_CTX*) {} inline void EVP_HPKE_CTX_cleanup(EVP_HPKE_CTX*) {}
inline void EVP_HPKE_CTX_free(EVP_HPKE_CTX* c) { delete c; }
BIGNUM* BN_new(); void BN_free(BIGNUM* b); BIGNUM* BN_bin2bn(const uint8_t* d, size_t n, BIGNUM* r); size_t BN_bn2bin(const BIGNUM* b, uint8_t* out); unsigned BN_num_bytes(const BIGNUM* b); int BN_bn2bin_padded(uint8_t* out, size_t n, const BIGNUM* b); int BN_cmp(const BIGNUM* a, const BIGNUM* b);
const EC_GROUP* EC_group_p256(); inline const EC_GROUP* EC_GROUP_new_by_curve_name(int) { return EC_group_p256(); }
EC_POINT* EC_POINT_new(const EC_GROUP*); void EC_POINT_free(EC_POINT*);
int EC_POINT_oct2point(const EC_GROUP*, EC_POINT* p, const uint8_t* d, size_t n, BN_CTX*);
size_t EC_POINT_point2oct(const EC_GROUP*, const EC_POINT* p, point_conversion_form_t f, uint8_t* out, size_t max, BN_CTX*);
EC_KEY* EC_KEY_new(); EC_KEY* EC_KEY_new_by_curve_name(int nid); void EC_KEY_free(EC_KEY* k);
int EC_KEY_set_group(EC_KEY* k, const EC_GROUP* g); inline const EC_GROUP* EC_KEY_get0_group(const EC_KEY* k) { return k->group; }
int EC_KEY_generate_key(EC_KEY* k); int EC_KEY_check_key(const EC_KEY* k);
int EC_KEY_set_private_key(EC_KEY* k, const BIGNUM* b); inline const BIGNUM* EC_KEY_get0_private_key(const EC_KEY* k) { return k->priv; }
int EC_KEY_set_public_key(EC_KEY* k, const EC_POINT* p); inline const EC_POINT* EC_KEY_get0_public_key(const EC_KEY* k) { return k->pub; }
size_t EC_KEY_key2buf(const EC_KEY* k, point_conversion_form_t f, uint8_t** out, BN_CTX*); int EC_KEY_oct2key(EC_KEY* k, const uint8_t* d, size_t n, BN_CTX*);
int ECDH_compute_key(void* out, size_t n, const EC_POINT* p, const EC_KEY* k, void* (*kdf)(const void*, size_t, void*, size_t*));
ECDSA_SIG* ECDSA_SIG_new(); void ECDSA_SIG_free(ECDSA_SIG*);
inline const BIGNUM* ECDSA_SIG_get0_r(const ECDSA_SIG* s) { return s->r; } inline const BIGNUM* ECDSA_SIG_get0_s(const ECDSA_SIG* s) { return s->s; }
int ECDSA_SIG_set0(ECDSA_SIG* s, BIGNUM* r, BIGNUM* t);
ECDSA_SIG* ECDSA_do_sign(const uint8_t* d, size_t n, const EC_KEY* k); int ECDSA_do_verify(const uint8_t* d, size_t n, const ECDSA_SIG* s, const EC_KEY* k);
namespace vfc {
extern int short_keys; extern int concrete;            // 1: fresh key material is concrete (opaque distinct tokens), streams stay symbolic
extern int concrete_streams;    // 1: key streams are concrete too
struct Entry { int kind; std::string in, out; };
extern int nstreams;            // distinct key streams in use
extern int nseals, nopens_ok, nopens_bad;
extern std::string last_nonce;  // nonce of the last seal
extern size_t stream_lo, stream_hi;  // key stream bytes outside this window are 0xff
void reset();
std::string fresh(size_t n, const char* name);
const std::string* find(int kind, const std::string& in);
void put(int kind, const std::string& in, const std::string& out);
}
namespace bssl {
template <class T> struct Del { void operator()(T* p) const { ::operator delete(p); } };
#define VFD(T, F) template <> struct Del<T> { void operator()(T* p) const { if (p) F(p); } };
VFD(EC_KEY, EC_KEY_free) VFD(EC_POINT, EC_POINT_free) VFD(BIGNUM, BN_free) VFD(ECDSA_SIG, ECDSA_SIG_free) VFD(EVP_AEAD_CTX, EVP_AEAD_CTX_free) VFD(EVP_MD_CTX, EVP_MD_CTX_free) VFD(EVP_CIPHER_CTX, EVP_CIPHER_CTX_free) VFD(EVP_HPKE_KEY, EVP_HPKE_KEY_free) VFD(EVP_HPKE_CTX, EVP_HPKE_CTX_free)
#undef VFD
template <class T> using UniquePtr = std::unique_ptr<T, Del<T>>;
template <class T> struct Scoped { T v; T* get() { return &v; } const T* get() const { return &v; } T* operator->() { return &v; } const T* operator->() const { return &v; } };
using ScopedEVP_MD_CTX = Scoped<EVP_MD_CTX>; using ScopedEVP_AEAD_CTX = Scoped<EVP_AEAD_CTX>; using ScopedEVP_HPKE_CTX = Scoped<EVP_HPKE_CTX>; using ScopedEVP_HPKE_KEY = Scoped<EVP_HPKE_KEY>; using ScopedEVP_CIPHER_CTX = Scoped<EVP_CIPHER_CTX>;
}
