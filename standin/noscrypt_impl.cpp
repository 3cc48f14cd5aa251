// Stand-in for noscrypt (see noscrypt.h). Deliberately plain: HKDF from HMAC, ChaCha20 through EVP, ECDH through libsecp256k1.
#include "noscrypt.h"
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <secp256k1.h>
#include <secp256k1_ecdh.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <cstdlib>
#include <cstring>
struct nc_ctx_struct { secp256k1_context* s; };
static NCContext shared;
enum : NCResult { E_NULL = -1, E_ARG = -2, E_CTX = -5, E_OP = -10, E_VERSION = -11 };
extern "C" {
NCContext* NCGetSharedContext(void) { return &shared; }
NCResult NCInitContext(NCContext* c, const uint8_t e[32]) { if (!c || !e) return E_NULL; if (c->s) secp256k1_context_destroy(c->s); c->s = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); return secp256k1_context_randomize(c->s, e) ? NC_SUCCESS : E_CTX; }
NCResult NCDestroyContext(NCContext* c) { if (!c) return E_NULL; if (c->s) secp256k1_context_destroy(c->s); c->s = nullptr; return NC_SUCCESS; }
#define CTX if (!c || !c->s) return E_CTX
NCResult NCGetPublicKey(const NCContext* c, const NCSecretKey* k, NCPublicKey* p) { CTX; if (!k || !p) return E_NULL; secp256k1_keypair kp; secp256k1_xonly_pubkey x; if (!secp256k1_keypair_create(c->s, &kp, k->key)) return E_OP; secp256k1_keypair_xonly_pub(c->s, &x, nullptr, &kp); secp256k1_xonly_pubkey_serialize(c->s, p->key, &x); return NC_SUCCESS; }
NCResult NCValidateSecretKey(const NCContext* c, const NCSecretKey* k) { CTX; return k && secp256k1_ec_seckey_verify(c->s, k->key) ? NC_SUCCESS : E_OP; }
NCResult NCSignDigest(const NCContext* c, const NCSecretKey* k, const uint8_t r[32], const uint8_t d[32], uint8_t sig[64]) { CTX; if (!k || !r || !d || !sig) return E_NULL; secp256k1_keypair kp; if (!secp256k1_keypair_create(c->s, &kp, k->key)) return E_OP; return secp256k1_schnorrsig_sign32(c->s, sig, d, &kp, r) ? NC_SUCCESS : E_OP; }
NCResult NCVerifyDigest(const NCContext* c, const NCPublicKey* p, const uint8_t d[32], const uint8_t sig[64]) { CTX; secp256k1_xonly_pubkey x; if (!secp256k1_xonly_pubkey_parse(c->s, &x, p->key)) return E_ARG; return secp256k1_schnorrsig_verify(c->s, sig, d, 32, &x) ? NC_SUCCESS : E_OP; }
static int copy_x(unsigned char* o, const unsigned char* x, const unsigned char*, void*) { memcpy(o, x, 32); return 1; }
NCResult NCGetSharedSecret(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, uint8_t out[32]) { CTX; uint8_t b[33]; b[0] = 2; memcpy(b + 1, p->key, 32); secp256k1_pubkey q; if (!secp256k1_ec_pubkey_parse(c->s, &q, b, 33)) return E_ARG; return secp256k1_ecdh(c->s, out, &q, k->key, copy_x, nullptr) ? NC_SUCCESS : E_OP; }
uint32_t NCEncryptionGetIvSize(uint32_t v) { return v == NC_ENC_VERSION_NIP44 ? 32 : v == NC_ENC_VERSION_NIP04 ? 16 : 0; }
NCResult NCEncryptionSetProperty(NCEncryptionArgs* a, uint32_t p, uint32_t v) { if (!a) return E_NULL; if (p != NC_ENC_SET_VERSION) return E_ARG; if (v != NC_ENC_VERSION_NIP44 && v != NC_ENC_VERSION_NIP04) return E_VERSION; a->version = v; return NC_SUCCESS; }
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs* a, uint32_t p, uint8_t* v, uint32_t n) {
  if (!a || !v) return E_NULL; if (!a->version) return E_VERSION;
  if (p == NC_ENC_SET_IV) { if (n != NCEncryptionGetIvSize(a->version)) return E_ARG; a->ivData = v; return NC_SUCCESS; }
  if (p == NC_ENC_SET_NIP44_MAC_KEY) { if (n != 32 || a->version != NC_ENC_VERSION_NIP44) return E_ARG; a->keyData = v; return NC_SUCCESS; }
  return E_ARG;
}
NCResult NCEncryptionSetData(NCEncryptionArgs* a, const uint8_t* i, uint8_t* o, uint32_t n) { if (!a || !i || !o) return E_NULL; if (!n) return E_ARG; a->inputData = i; a->outputData = o; a->dataSize = n; return NC_SUCCESS; }
static void mac(const uint8_t* k, size_t kn, const uint8_t* d, size_t n, uint8_t out[32]) { unsigned l = 32; HMAC(EVP_sha256(), k, (int)kn, d, n, out, &l); }
struct Keys { uint8_t k[76 + 20]; };   // chacha key, chacha nonce, hmac key
static NCResult keys(const NCContext* c, const NCSecretKey* sk, const NCPublicKey* pk, const uint8_t nonce[32], Keys* out) {
  uint8_t x[32], conv[32], t[32]; NCResult r = NCGetSharedSecret(c, sk, pk, x); if (r != NC_SUCCESS) return r; mac((const uint8_t*)"nip44-v2", 8, x, 32, conv); uint8_t buf[65]; size_t l = 0;
  for (int i = 1; i <= 3; i++) { memcpy(buf + l, nonce, 32); buf[l + 32] = (uint8_t)i; mac(conv, 32, buf, l + 33, t); memcpy(out->k + 32 * (i - 1), t, 32); memcpy(buf, t, 32); l = 32; }
  return NC_SUCCESS;
}
static NCResult crypt(const NCContext* c, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* a, bool enc) {
  CTX; if (!sk || !pk || !a) return E_NULL; if (a->version != NC_ENC_VERSION_NIP44) return E_VERSION; if (!a->ivData || !a->inputData || !a->outputData || (enc && !a->keyData)) return E_NULL; Keys k; NCResult r = keys(c, sk, pk, (const uint8_t*)a->ivData, &k); if (r != NC_SUCCESS) return r;
  if (enc) memcpy(a->keyData, k.k + 44, 32); uint8_t iv[16] = {0}; memcpy(iv + 4, k.k + 32, 12); EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int l = 0; bool ok = EVP_EncryptInit_ex(x, EVP_chacha20(), nullptr, k.k, iv) == 1 && EVP_EncryptUpdate(x, a->outputData, &l, a->inputData, (int)a->dataSize) == 1; EVP_CIPHER_CTX_free(x); return ok ? NC_SUCCESS : E_OP;
}
NCResult NCEncrypt(const NCContext* c, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* a) { return crypt(c, sk, pk, a, true); }
NCResult NCDecrypt(const NCContext* c, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* a) { return crypt(c, sk, pk, a, false); }
NCResult NCComputeMac(const NCContext* c, const uint8_t k[32], const uint8_t* p, uint32_t n, uint8_t out[32]) { CTX; if (!k || !p || !out) return E_NULL; if (!n) return E_ARG; mac(k, 32, p, n, out); return NC_SUCCESS; }
NCResult NCVerifyMac(const NCContext* c, const NCSecretKey* sk, const NCPublicKey* pk, NCMacVerifyArgs* a) { CTX; if (!sk || !pk || !a || !a->mac32 || !a->nonce32 || !a->payload) return E_NULL; Keys k; NCResult r = keys(c, sk, pk, a->nonce32, &k); if (r != NC_SUCCESS) return r; uint8_t m[32]; mac(k.k + 44, 32, a->payload, a->payloadSize, m); return CRYPTO_memcmp(m, a->mac32, 32) == 0 ? NC_SUCCESS : E_OP; }
}
