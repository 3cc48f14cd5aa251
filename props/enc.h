// NIP-44 and NIP-04 from their texts, independent of the library and of the noscrypt stand-in.
#pragma once
#include "oracle.h"
#include <openssl/evp.h>
#include <secp256k1.h>
extern "C" void vf_free(void*);
using namespace vf; using namespace vo;

static inline uint32_t rl(uint32_t v, int n) { return v << n | v >> (32 - n); }
static string chacha20(const string& key, const string& n12, const string& in) {
  auto le = [](const string& b, size_t i) { uint32_t v = 0; for (int k = 3; k >= 0; k--) v = v << 8 | (uint8_t)b[i * 4 + k]; return v; }; string o = in;
  for (uint32_t blk = 0; blk * 64ull < in.size(); blk++) {
    uint32_t x[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, y[16]; for (int i = 0; i < 8; i++) x[4 + i] = le(key, i); x[12] = blk; for (int i = 0; i < 3; i++) x[13 + i] = le(n12, i); memcpy(y, x, sizeof x);
    auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7); };
    for (int r = 0; r < 10; r++) { q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15); q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14); }
    for (size_t i = 0; i < 64 && blk * 64ull + i < o.size(); i++) o[blk * 64ull + i] ^= (char)((x[i / 4] + y[i / 4]) >> (i % 4 * 8));
  }
  return o;
}
static bool ecdh_x(const string& priv, const string& pub, string* x) { secp256k1_pubkey q; string b = string(1, 2) + pub; if (pub.size() != 32 || !secp256k1_ec_pubkey_parse(secp(), &q, (const uint8_t*)b.data(), 33) || !secp256k1_ec_seckey_verify(secp(), (const uint8_t*)priv.data()) || !secp256k1_ec_pubkey_tweak_mul(secp(), &q, (const uint8_t*)priv.data())) return false; uint8_t o[33]; size_t n = 33; secp256k1_ec_pubkey_serialize(secp(), o, &n, &q, SECP256K1_EC_COMPRESSED); *x = string((char*)o + 1, 32); return true; }
static size_t padded_len(size_t n) { if (n <= 32) return 32; size_t p = 1; while (p < n) p *= 2; size_t chunk = p <= 256 ? 32 : p / 8; return (n + chunk - 1) / chunk * chunk; }
static string pad44(const string& t) { return string(1, (char)(t.size() >> 8)) + (char)t.size() + t + string(padded_len(t.size()) - t.size(), 0); }
struct K44 { string ck, cn, hk; };
static K44 keys44(const string& x, const string& nonce) { string conv = hmac("SHA256", "nip44-v2", x), t1 = hmac("SHA256", conv, nonce + string(1, 1)), t2 = hmac("SHA256", conv, t1 + nonce + string(1, 2)), t3 = hmac("SHA256", conv, t2 + nonce + string(1, 3)); string k = t1 + t2 + t3; return {k.substr(0, 32), k.substr(32, 12), k.substr(44, 32)}; }
static string payload44(const string& x, const string& nonce, const string& padded, char version = 2) { K44 k = keys44(x, nonce); string ct = chacha20(k.ck, k.cn, padded); return string(1, version) + nonce + ct + hmac("SHA256", k.hk, nonce + ct); }
// The plaintext a payload stands for, if it is a proper one for this shared x
static bool open44(const string& x, const string& text, string* out, string* nonce = nullptr) {
  string p; if (text.empty() || text[0] == '#' || !unb64(text, &p) || p.size() < 99 || p.size() > 65603 || p[0] != 2) return false; string n = p.substr(1, 32), ct = p.substr(33, p.size() - 65), mac = p.substr(p.size() - 32); K44 k = keys44(x, n); if (hmac("SHA256", k.hk, n + ct) != mac) return false;
  string pt = chacha20(k.ck, k.cn, ct); size_t l = (uint8_t)pt[0] << 8 | (uint8_t)pt[1]; if (!l || pt.size() != 2 + padded_len(l)) return false; *out = pt.substr(2, l); if (nonce) *nonce = n; return true;
}
static string enc44(const string& x, const string& nonce, const string& t) { return b64(payload44(x, nonce, pad44(t))); }
static string aes_cbc(bool enc, const string& key, const string& iv, const string& in, bool* ok) { EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); string o(in.size() + 32, 0); int l = 0, f = 0; *ok = EVP_CipherInit_ex(c, EVP_aes_256_cbc(), nullptr, (const uint8_t*)key.data(), (const uint8_t*)iv.data(), enc) && EVP_CipherUpdate(c, (uint8_t*)&o[0], &l, (const uint8_t*)in.data(), (int)in.size()) && EVP_CipherFinal_ex(c, (uint8_t*)&o[l], &f); EVP_CIPHER_CTX_free(c); o.resize(*ok ? l + f : 0); return o; }
static bool open04(const string& x, const string& text, string* out) { size_t q = text.find("?iv="); string ct, iv; if (q == string::npos || !unb64(text.substr(0, q), &ct) || !unb64(text.substr(q + 4), &iv) || iv.size() != 16 || ct.empty() || ct.size() % 16) return false; bool ok; *out = aes_cbc(false, x, iv, ct, &ok); return ok; }
static nostr_privkey lpriv(const string& k) { nostr_privkey r; memcpy(r.data, k.data(), 32); return r; }
static nostr_key lpub(const string& k) { nostr_key r; memcpy(r.data, k.data(), 32); return r; }
static string bad_pub(Src& s) { for (;;) { string p = s.flip() ? s.bulk(32) : string(32, (char)0xff); if (s.chance(1, 8)) p = string(32, 0); string b = string(1, 2) + p; secp256k1_pubkey q; if (!secp256k1_ec_pubkey_parse(secp(), &q, (const uint8_t*)b.data(), 33)) return p; } }
static string bad_priv(Src& s) { static const char* n[] = {"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0000000000000000000000000000000000000000000000000000000000000000"}; return unhex(s.pick(n)); }
// Every allocation of an operation fails in turn: it reports failure or does what it does with enough memory, and leaks nothing. run returns success and what it produced.
template <class F> static void with_faults(Src& s, const char* what, F run) {
  auto once = [&](long k, bool sticky, long* n, bool* fired) { heap_reset(); rand_mode = 1; rand_seed(7); if (k >= 0) { if (sticky) heap_fail_from(k); else heap_fail_at(k); } else heap_fail_at(-1); auto r = run(); *n = heap_count(); *fired = heap_fault_fired(); heap_fail_at(-1); rand_mode = 0; return r; };
  long n, m; bool f; auto base = once(-1, false, &n, &f); CHECK(heap_live() == 0, "%s leaks: %s", what, heap_live_desc().c_str()); vector<long> ks; if (n <= 24) for (long i = 0; i < n; i++) ks.push_back(i); else { ks = {0, n - 1}; while (ks.size() < 24) ks.push_back((long)s.below((uint64_t)n)); }
  for (long k : ks) for (int st = 0; st < 2; st++) { auto r = once(k, st, &m, &f); CHECK(heap_live() == 0, "%s, allocation %ld of %ld failing%s: leaks %s", what, k, n, st ? " with all later ones" : "", heap_live_desc().c_str()); if (r.first) CHECK(base.first && r.second == base.second, "%s, allocation %ld of %ld failing: success with another result\n  %s\n  %s", what, k, n, vo::show(base.second, 300).c_str(), vo::show(r.second, 300).c_str()); }
}
static bool ev_of(const string& text, Ev* e, bool* has_sig = nullptr) {   // strict reading of an event's JSON; id and sig may be missing
  JV j; if (!json_parse(text, &j) || j.t != JV::Obj) return false; *e = Ev(); e->id = string(32, 0); e->sig = string(64, 0); auto hx = [&](const char* k, size_t n, string* o) { auto v = j.get(k); return v && v->t == JV::Str && strict_hex(v->s, n, o); }; int64_t k;
  if (j.get("id") && !hx("id", 32, &e->id)) return false; if (!hx("pubkey", 32, &e->pubkey) || !j.get("created_at") || !j.get("created_at")->is_int(&e->created_at) || !j.get("kind") || !j.get("kind")->is_int(&k) || k < 0 || k > 65535) return false; e->kind = (uint32_t)k; if (has_sig) *has_sig = j.get("sig") != nullptr; if (j.get("sig") && !hx("sig", 64, &e->sig)) return false;
  auto t = j.get("tags"), ct = j.get("content"); if (!t || t->t != JV::Arr || !ct || ct->t != JV::Str) return false; e->content = ct->s; for (auto& a : t->a) { vector<string> v; if (a.t != JV::Arr) return false; for (auto& x : a.a) { if (x.t != JV::Str) return false; v.push_back(x.s); } e->tags.push_back(v); } return true;
}
static bool proper(const Ev& e) { return sha256(e.serial()) == e.id && schnorr_verify(e.pubkey, e.id, e.sig); }
