// ThreadSanitizer builds only: the libraries underneath are not instrumented, so each call into them is announced here
// as the reads and writes of the caller's memory that it makes; other threads may get in before and after.
#include "vf.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <secp256k1.h>
#include <secp256k1_ecdh.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#ifdef VF_MBEDTLS
#include <mbedtls/sha256.h>
#endif
extern "C" { void __tsan_read_range(void*, unsigned long); void __tsan_write_range(void*, unsigned long); }
static void R(const void* p, size_t n) { if (p && n) __tsan_read_range((void*)p, n); }
static void W(const void* p, size_t n) { if (p && n) __tsan_write_range((void*)p, n); }
#define CALL(X) vf::give_way_now(); auto r_ = X; vf::give_way_now(); return r_
typedef const secp256k1_context* Ctx;
extern "C" {
unsigned char* vf_SHA256(const unsigned char* d, size_t n, unsigned char* md) { R(d, n); W(md, 32); CALL(SHA256(d, n, md)); }
unsigned char* vf_HMAC(const EVP_MD* m, const void* k, int kl, const unsigned char* d, size_t n, unsigned char* md, unsigned* len) { R(k, (size_t)kl); R(d, n); W(md, (size_t)EVP_MD_get_size(m)); W(len, sizeof *len); CALL(HMAC(m, k, kl, d, n, md, len)); }
int vf_PKCS5_PBKDF2_HMAC(const char* p, int pl, const unsigned char* s, int sl, int it, const EVP_MD* m, int kl, unsigned char* out) { R(p, pl < 0 ? 0 : (size_t)pl); R(s, (size_t)sl); W(out, (size_t)kl); CALL(PKCS5_PBKDF2_HMAC(p, pl, s, sl, it, m, kl, out)); }
int vf_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il) { W(c, 1); R(i, (size_t)il); W(o, (size_t)il); W(ol, sizeof *ol); CALL(EVP_EncryptUpdate(c, o, ol, i, il)); }
int vf_EVP_DecryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il) { W(c, 1); R(i, (size_t)il); W(o, (size_t)il); W(ol, sizeof *ol); CALL(EVP_DecryptUpdate(c, o, ol, i, il)); }
int vf_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* o, int* ol) { W(c, 1); W(ol, sizeof *ol); CALL(EVP_EncryptFinal_ex(c, o, ol)); }
int vf_EVP_DecryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* o, int* ol) { W(c, 1); W(ol, sizeof *ol); CALL(EVP_DecryptFinal_ex(c, o, ol)); }
int vf_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) { W(c, 1); R(k, k ? 32 : 0); R(iv, iv ? 12 : 0); CALL(EVP_EncryptInit_ex(c, t, e, k, iv)); }
int vf_EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) { W(c, 1); R(k, k ? 32 : 0); R(iv, iv ? 12 : 0); CALL(EVP_DecryptInit_ex(c, t, e, k, iv)); }
int vf_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int t, int a, void* p) { W(c, 1); if (t == EVP_CTRL_AEAD_GET_TAG) W(p, (size_t)a); if (t == EVP_CTRL_AEAD_SET_TAG) R(p, (size_t)a); CALL(EVP_CIPHER_CTX_ctrl(c, t, a, p)); }
int vf_secp256k1_keypair_create(Ctx x, secp256k1_keypair* k, const unsigned char* s) { R(s, 32); W(k, sizeof *k); CALL(secp256k1_keypair_create(x, k, s)); }
int vf_secp256k1_keypair_xonly_pub(Ctx x, secp256k1_xonly_pubkey* p, int* par, const secp256k1_keypair* k) { R(k, sizeof *k); W(p, sizeof *p); W(par, par ? sizeof *par : 0); CALL(secp256k1_keypair_xonly_pub(x, p, par, k)); }
int vf_secp256k1_schnorrsig_sign32(Ctx x, unsigned char* g, const unsigned char* m, const secp256k1_keypair* k, const unsigned char* a) { R(m, 32); R(k, sizeof *k); R(a, 32); W(g, 64); CALL(secp256k1_schnorrsig_sign32(x, g, m, k, a)); }
int vf_secp256k1_schnorrsig_verify(Ctx x, const unsigned char* g, const unsigned char* m, size_t n, const secp256k1_xonly_pubkey* p) { R(g, 64); R(m, n); R(p, sizeof *p); CALL(secp256k1_schnorrsig_verify(x, g, m, n, p)); }
int vf_secp256k1_xonly_pubkey_parse(Ctx x, secp256k1_xonly_pubkey* p, const unsigned char* i) { R(i, 32); W(p, sizeof *p); CALL(secp256k1_xonly_pubkey_parse(x, p, i)); }
int vf_secp256k1_xonly_pubkey_serialize(Ctx x, unsigned char* o, const secp256k1_xonly_pubkey* p) { R(p, sizeof *p); W(o, 32); CALL(secp256k1_xonly_pubkey_serialize(x, o, p)); }
int vf_secp256k1_xonly_pubkey_from_pubkey(Ctx x, secp256k1_xonly_pubkey* p, int* par, const secp256k1_pubkey* q) { R(q, sizeof *q); W(p, sizeof *p); W(par, par ? sizeof *par : 0); CALL(secp256k1_xonly_pubkey_from_pubkey(x, p, par, q)); }
int vf_secp256k1_ec_pubkey_create(Ctx x, secp256k1_pubkey* p, const unsigned char* s) { R(s, 32); W(p, sizeof *p); CALL(secp256k1_ec_pubkey_create(x, p, s)); }
int vf_secp256k1_ec_pubkey_parse(Ctx x, secp256k1_pubkey* p, const unsigned char* i, size_t n) { R(i, n); W(p, sizeof *p); CALL(secp256k1_ec_pubkey_parse(x, p, i, n)); }
int vf_secp256k1_ec_pubkey_serialize(Ctx x, unsigned char* o, size_t* n, const secp256k1_pubkey* p, unsigned f) { R(p, sizeof *p); W(n, sizeof *n); W(o, f & SECP256K1_FLAGS_BIT_COMPRESSION ? 33 : 65); CALL(secp256k1_ec_pubkey_serialize(x, o, n, p, f)); }
int vf_secp256k1_ec_seckey_tweak_add(Ctx x, unsigned char* k, const unsigned char* t) { R(t, 32); W(k, 32); CALL(secp256k1_ec_seckey_tweak_add(x, k, t)); }
int vf_secp256k1_ec_seckey_verify(Ctx x, const unsigned char* k) { R(k, 32); CALL(secp256k1_ec_seckey_verify(x, k)); }
int vf_secp256k1_ecdh(Ctx x, unsigned char* o, const secp256k1_pubkey* p, const unsigned char* s, secp256k1_ecdh_hash_function f, void* d) { R(p, sizeof *p); R(s, 32); W(o, 32); CALL(secp256k1_ecdh(x, o, p, s, f, d)); }
#ifdef VF_MBEDTLS
auto vf_mbedtls_sha256(const unsigned char* d, size_t n, unsigned char* o, int is224) -> decltype(mbedtls_sha256(d, n, o, is224)) { R(d, n); W(o, 32); vf::give_way_now(); return mbedtls_sha256(d, n, o, is224); }
#endif
}
