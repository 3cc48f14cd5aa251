// P24 NIP-49 encrypted keys, P28 BIP-32 derivation, P29 BIP-39 mnemonics and NIP-06 keys
#include "oracle.h"
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include "bip39_words.h"
#include <map>
using namespace vf; using namespace vo;

// ---------------------------------------------------------------- P24
static uint32_t rotl(uint32_t v, int n) { return v << n | v >> (32 - n); }
static string hchacha(const string& key, const string& n16) {
  uint32_t x[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}; auto le = [](const string& b, size_t i) { uint32_t v = 0; for (int k = 3; k >= 0; k--) v = v << 8 | (uint8_t)b[i * 4 + k]; return v; };
  for (int i = 0; i < 8; i++) x[4 + i] = le(key, i); for (int i = 0; i < 4; i++) x[12 + i] = le(n16, i);
  auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7); };
  for (int r = 0; r < 20; r++) for (int i = 0; i < 4; i++) { if (r % 2 == 0) q(i, 4 + i, 8 + i, 12 + i); else q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
  string o; for (int i : {0, 1, 2, 3, 12, 13, 14, 15}) for (int k = 0; k < 4; k++) o += (char)(x[i] >> 8 * k); return o;
}
static string xaead(bool enc, const string& key, const string& n24, const string& aad, const string& in, bool* ok) {   // ciphertext carries its 16-byte tag
  string sub = hchacha(key, n24.substr(0, 16)), n12 = string(4, 0) + n24.substr(16); EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int l = 0; *ok = false; string body = enc ? in : in.substr(0, in.size() - 16), out(body.size() + 16, 0);
  EVP_CipherInit_ex(x, EVP_chacha20_poly1305(), nullptr, (const uint8_t*)sub.data(), (const uint8_t*)n12.data(), enc); EVP_CipherUpdate(x, nullptr, &l, (const uint8_t*)aad.data(), (int)aad.size()); EVP_CipherUpdate(x, (uint8_t*)&out[0], &l, (const uint8_t*)body.data(), (int)body.size());
  if (enc) { EVP_CipherFinal_ex(x, (uint8_t*)&out[body.size()], &l); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, &out[body.size()]); *ok = true; }
  else { EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, (void*)(in.data() + body.size())); out.resize(body.size()); *ok = EVP_CipherFinal_ex(x, nullptr, &l) == 1; }
  EVP_CIPHER_CTX_free(x); return out;
}
static string kdf(const string& pass, const string& salt, int logn, bool stub) {
  if (stub) return scrypt_stub_key(pass, salt, 1ull << logn, 8, 1, 32);
  string k(32, 0); EVP_PBE_scrypt(pass.data(), pass.size(), (const uint8_t*)salt.data(), salt.size(), 1ull << logn, 8, 1, 1ull << 33, (uint8_t*)&k[0], 32); return k;
}
static string g_pass(Src& s) { static const char* w[] = {"nostr", "p", "correct horse", "p\xc3\xa4ss", "\xe2\x84\xab\xe2\x84\xa6"}; switch (s.below(4)) { case 0: return s.pick(w); case 1: return string(1 + s.size(300), 'x'); default: { string t = g_cstr(s, 40); return t.empty() ? "q" : t; } } }
static string other_pass(Src& s, const string& p) { string q = p; switch (s.below(5)) { case 0: q += "x"; break; case 1: q += " "; break; case 2: if (q.size() > 1) q.resize(q.size() - 1); else q = "other"; break; case 3: q[s.below(q.size())] ^= 1; break; default: q = g_pass(s); } if (q == p || q.empty() || q.find('\0') != string::npos) q = p + "!"; return q; }
struct Parts { int ver, logn, sec; string salt, nonce, ct; };
static bool split(const string& text, Parts* p) { string hrp, b; if (!bech32_decode(text, &hrp, &b) || hrp != "ncryptsec" || b.size() != 91) return false; p->ver = (uint8_t)b[0]; p->logn = (uint8_t)b[1]; p->salt = b.substr(2, 16); p->nonce = b.substr(18, 24); p->sec = (uint8_t)b[42]; p->ct = b.substr(43); return true; }
static string join(const Parts& p) { return string(1, (char)p.ver) + string(1, (char)p.logn) + p.salt + p.nonce + string(1, (char)p.sec) + p.ct; }
static void stub_on() { scrypt_stub = true; scrypt_calls = 0; }
static auto stub_off() { return defer([] { scrypt_stub = false; rand_mode = 0; }); }
static string enc1(const string& key, const string& pass, int logn, nostr_error_t* e) { nostr_privkey k; memcpy(k.data, key.data(), 32); CStr cp(pass); CBuf b(163); *e = nostr_ncryptsec_encrypt(&k, cp, (uint8_t)logn, b.p, 163); CHECK(!memcmp(k.data, key.data(), 32), "the key to encrypt was changed"); return *e == NOSTR_OK ? string(b.p) : string(); }
static void roundtrip(Src& s, Ctx& c, bool stub, int logn) {
  string key = s.flip() ? g_key(s).priv : g_bin32(s), pass = g_pass(s); nostr_error_t e; scrypt_calls = 0; string t = enc1(key, pass, logn, &e); bool used = stub && scrypt_calls > 0; CHECK(e == NOSTR_OK, "encrypt -> %d", e); Parts p; CHECK(t.size() == 162 && split(t, &p), "not an ncryptsec text: %s", t.c_str()); CHECK(p.ver == 2 && p.logn == logn && p.sec <= 2, "version %d log_n %d security %d", p.ver, p.logn, p.sec);
  bool ok; string pt = xaead(false, kdf(pass, p.salt, logn, used), p.nonce, string(1, (char)p.sec), p.ct, &ok); CHECK(ok && pt == key, "%s does not decrypt to the key (independent NIP-49 implementation)", t.c_str()); CHECK(nostr_ncryptsec_validate(t.c_str()) == NOSTR_OK, "own text refused");
  nostr_privkey k; memset(&k, 0x5a, sizeof k); CStr ct(t), cp(pass), co(other_pass(s, pass)); CHECK(nostr_ncryptsec_decrypt(ct, cp, &k) == NOSTR_OK && !memcmp(k.data, key.data(), 32), "decrypt with the right password"); memset(&k, 0x5a, sizeof k); e = nostr_ncryptsec_decrypt(ct, co, &k); CHECK(e != NOSTR_OK && (key == string(32, 0) || memcmp(k.data, key.data(), 32)), "decrypt with another password -> %d", e);
  nostr_error_t e2; string t2 = enc1(key, pass, logn, &e2); Parts q; CHECK(e2 == NOSTR_OK && split(t2, &q) && q.salt != p.salt && q.nonce != p.nonce, "salt or nonce reused"); c.nontrivial(); c.sample(t + " " + vo::show(pass, 60));
}
PROP(P24, roundtrip, 40) { stub_on(); auto d = stub_off(); rand_mode = 1; rand_seed(s.u64(8)); roundtrip(s, c, true, 16 + (int)s.below(7)); c.label("stubbed scrypt"); }
PROP(P24, roundtrip_real_scrypt, 1) { if (s.chance(7, 8)) throw Discard(); roundtrip(s, c, false, 16); c.label("real scrypt"); }
PROP(P24, published_vector, 1) {
  if (s.chance(15, 16)) throw Discard(); nostr_privkey k; nostr_error_t e = nostr_ncryptsec_decrypt("ncryptsec1qgg9947rlpvqu76pj5ecreduf9jxhselq2nae2kghhvd5g7dgjtcxfqtd67p9m0w57lspw8gsq6yphnm8623nsl8xn9j4jdzz84zm3frztj3z7s35vpzmqf6ksu8r89qk5z2zxfmu5gv8th8wclt0h4p", "nostr", &k); CHECK(e == NOSTR_OK && hex(k.data, 32) == "3501454135014541350145413501453fefb02227e449e57cf4d3a3ce05378683", "NIP-49 vector -> %d", e); c.label("published vector"); c.nontrivial();
}
PROP(P24, encrypt_limits, 12) {
  stub_on(); auto d = stub_off(); nostr_privkey k; memcpy(k.data, g_bin32(s).data(), 32); string pass = g_pass(s); int logn = 16; size_t z = 163; const char* what; bool ok = false; int rnd = 0; long after = 0;
  switch (s.below(5)) { case 0: what = "cost"; logn = s.flip() ? (int)s.below(16) : 23 + (int)s.below(233); break; case 1: what = "buffer"; z = s.below(163); break; case 2: what = "empty password"; pass = ""; break; case 3: what = "random source fails"; rnd = 2; after = (long)s.below(2); break; default: what = "larger buffer"; ok = true; z = 163 + s.below(50); logn = 16 + (int)s.below(7); }
  CStr cp(pass); CBuf b(z); rand_mode = rnd; rand_calls = 0; rand_fail_after = after; nostr_error_t e = nostr_ncryptsec_encrypt(&k, cp, (uint8_t)logn, b.p, z); rand_mode = 0; c.nontrivial(); c.label(what); if (!strcmp(what, "random source fails") && after > 0 && rand_calls <= after) throw Discard(); CHECK((e == NOSTR_OK) == ok, "%s: log_n %d, %zu bytes -> %d", what, logn, z, e);
}
PROP(P24, foreign, 30) {
  stub_on(); auto d = stub_off(); string key = g_bin32(s), pass = g_pass(s); Parts p; p.ver = 2; p.logn = 16 + (int)s.below(7); p.sec = (int)s.below(3); p.salt = s.bulk(16); p.nonce = s.bulk(24); bool ok; bool good = true; const char* what = "intact"; bool form = true; string hrp = "ncryptsec"; uint32_t konst = 1;
  int mode = (int)s.below(10); if (mode == 0) { p.ver = s.flip() ? 1 : (int)s.below(256); if (p.ver == 2) p.ver = 3; good = form = false; what = "version"; } else if (mode == 1) { p.logn = s.flip() ? (int)s.below(16) : 23 + (int)s.below(233); good = form = false; what = "cost"; } else if (mode == 2) { p.sec = 3 + (int)s.below(253); good = form = false; what = "security byte"; }
  string kk = kdf(pass, p.salt, p.logn & 31, true); p.ct = xaead(true, kk, p.nonce, string(1, (char)p.sec), key, &ok); string b = join(p); if (mode == 3) { size_t i = 2 + s.below(89); b[i] ^= 1 << s.below(8); if (i == 42 && (uint8_t)b[42] > 2) form = false; good = false; what = "bit flipped"; } if (mode == 4) { if (s.flip()) b.resize(s.below(91)); else b += s.bulk(1 + s.below(20)); good = form = false; what = "length"; }
  if (mode == 5) { hrp = s.flip() ? "nsec" : s.flip() ? "ncryptsecx" : "ncryptse"; good = form = false; what = "prefix"; } if (mode == 6) { konst = 0x2bc830a3; good = form = false; what = "bech32m"; } string t = bech32_encode(hrp, b, konst); if (mode == 7) { size_t i = s.chance(1, 4) ? s.below(11) : s.below(t.size()); static const char* cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l1bioNQ0 "; char n = cs[s.below(40)]; if (n == t[i]) n = t[i] == 'q' ? 'p' : 'q'; t[i] = n; good = form = false; what = "checksum"; } if (mode == 8) { string o = t; t = g_mut(s, t, 3); t = t.c_str(); if (lower(t) == o) throw Discard(); string h2, b2; if (bech32_decode(t, &h2, &b2)) throw Discard(); good = form = false; what = "mutated"; }
  string given = pass; if (mode == 9) { given = other_pass(s, pass); good = false; what = "another password"; } CStr ct(t), cp(given); nostr_privkey k; memset(&k, 0x5a, sizeof k); nostr_error_t e = nostr_ncryptsec_decrypt(ct, cp, &k), v = nostr_ncryptsec_validate(ct); if (!scrypt_calls && form) { scrypt_stub = false; throw Discard(); } c.nontrivial(); c.label(what); c.sample(what + string(" ") + t);
  CHECK((e == NOSTR_OK) == good, "%s: decrypt(%s) -> %d", what, t.c_str(), e); CHECK((v == NOSTR_OK) == form, "%s: validate(%s) -> %d", what, t.c_str(), v); if (good) CHECK(!memcmp(k.data, key.data(), 32), "%s: another key", what); else CHECK(key == string(32, 0) || memcmp(k.data, key.data(), 32), "%s: the key was released", what); if (!form) CHECK(scrypt_calls == 0, "%s: key derivation was run for a malformed text", what);
}

// ---------------------------------------------------------------- P28
static int inited = (before_case = [] { nostr_init(); }, 0);
struct Node { string k, cc, pub; bool ok = true; };
static const char* ORDER = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
static string add_mod_n(const string& a, const string& b, bool* ok) { BN_CTX* x = BN_CTX_new(); BIGNUM *A = BN_bin2bn((const uint8_t*)a.data(), 32, nullptr), *B = BN_bin2bn((const uint8_t*)b.data(), 32, nullptr), *N = nullptr, *R = BN_new(); BN_hex2bn(&N, ORDER); *ok = BN_cmp(B, N) < 0 && BN_cmp(A, N) < 0 && !BN_is_zero(A); BN_mod_add(R, A, B, N, x); if (BN_is_zero(R)) *ok = false; string o(32, 0); BN_bn2binpad(R, (uint8_t*)&o[0], 32); BN_free(A); BN_free(B); BN_free(N); BN_free(R); BN_CTX_free(x); return o; }
static string compressed(const string& k) { secp256k1_pubkey p; if (!secp256k1_ec_pubkey_create(secp(), &p, (const uint8_t*)k.data())) return ""; string o(33, 0); size_t n = 33; secp256k1_ec_pubkey_serialize(secp(), (uint8_t*)&o[0], &n, &p, SECP256K1_EC_COMPRESSED); return o; }
static Node node(const string& k, const string& cc) { Node n; n.k = k; n.cc = cc; n.ok = pub_of(k, &n.pub); return n; }
static Node master_of(const string& seed) { string h = hmac("sha512", "Bitcoin seed", seed); return node(h.substr(0, 32), h.substr(32)); }
static Node child_of(const Node& p, uint32_t i) { Node n; string ser; for (int k = 3; k >= 0; k--) ser += (char)(i >> 8 * k); string pub = compressed(p.k); if (pub.empty()) { n.ok = false; return n; } string h = hmac("sha512", p.cc, (i >> 31 ? string(1, 0) + p.k : pub) + ser); bool ok; string k = add_mod_n(h.substr(0, 32), p.k, &ok); if (!ok) { n.ok = false; return n; } return node(k, h.substr(32)); }
static void same_node(const nostr_hd_key& g, const Node& w, const string& what) { CHECK(w.k == string((char*)g.privkey.data, 32), "%s: private key %s expected %s", what.c_str(), hex(g.privkey.data, 32).c_str(), hex(w.k).c_str()); CHECK(w.cc == string((char*)g.chain_code, 32), "%s: chain code", what.c_str()); CHECK(w.pub == string((char*)g.pubkey.data, 32), "%s: public key %s expected %s", what.c_str(), hex(g.pubkey.data, 32).c_str(), hex(w.pub).c_str()); }
static nostr_hd_key lib_node(const Node& n) { nostr_hd_key h; memcpy(h.privkey.data, n.k.data(), 32); memcpy(h.chain_code, n.cc.data(), 32); memset(h.pubkey.data, 0, 32); if (n.pub.size() == 32) memcpy(h.pubkey.data, n.pub.data(), 32); return h; }
PROP(P28, master, 3) {
  size_t n = s.chance(3, 4) ? 16 + s.below(49) : s.below(100); string seed = s.bulk(n); Raw r(seed); nostr_hd_key m; memset(&m, 0x5a, sizeof m); nostr_error_t e = nostr_hd_key_from_seed((uint8_t*)r.p, n, &m); bool ok = n >= 16 && n <= 64; c.nontrivial(); c.label(ok ? "seed" : "seed length refused"); CHECK((e == NOSTR_OK) == ok, "from_seed of %zu bytes -> %d", n, e); if (!ok) return; Node w = master_of(seed); REQUIRE_CASE(w.ok); same_node(m, w, "master");
  nostr_keypair kp; CHECK(nostr_hd_key_to_keypair(&m, &kp) == NOSTR_OK && !memcmp(&kp.privkey, &m.privkey, 32) && !memcmp(&kp.pubkey, &m.pubkey, 32) && nostr_keypair_validate(&kp) == NOSTR_OK, "keypair of a derived key");
}
PROP(P28, child, 6) {
  Node p; switch (s.below(6)) { case 0: { string bad = s.flip() ? string(32, 0) : s.flip() ? unhex(ORDER) : string(32, (char)0xff); p = node(bad, s.bulk(32)); break; } case 1: { string k = unhex(ORDER); k[31] = (char)(k[31] - 1 - s.below(3)); p = node(k, s.bulk(32)); break; } case 2: p = node(string(31, 0) + (char)(1 + s.below(3)), s.bulk(32)); break; default: p = node(g_key(s).priv, s.bulk(32)); }
  uint32_t i = s.flip() ? (uint32_t)s.u64(4) : (uint32_t)(s.below(3) | (s.flip() ? 0x80000000u : 0)); Node w = p.ok ? child_of(p, i) : Node(); if (!p.ok) w.ok = false; nostr_hd_key h = lib_node(p), keep = h, ch; memset(&ch, 0x5a, sizeof ch); bool alias = s.chance(1, 4); nostr_error_t e = nostr_hd_key_derive(&h, i, alias ? &h : &ch); c.nontrivial(); c.label(!w.ok ? "invalid parent" : i >> 31 ? "hardened" : "normal"); if (alias) c.label("in place"); c.sample(strf("index %u%s", i, alias ? " in place" : ""));
  CHECK((e == NOSTR_OK) == w.ok, "derive %u%s -> %d", i, alias ? " in place" : "", e); if (e == NOSTR_OK) same_node(alias ? h : ch, w, strf("child %u%s", i, alias ? " in place" : "")); if (!alias) CHECK(!memcmp(&h, &keep, sizeof h), "the parent was changed");
}
PROP(P28, near_twins, 2) {   // parents that share a key, a chain code or almost all of either, and indices that share most bits, in any order
  Node p = node(g_key(s).priv, s.bulk(32)); REQUIRE_CASE(p.ok); vector<Node> v = {p}; uint32_t i0 = s.flip() ? (uint32_t)s.u64(4) : (uint32_t)s.below(3);
  for (unsigned i = 1 + (unsigned)s.below(3); i; i--) { Node q = p; switch (s.below(4)) { case 0: q.cc[s.below(32)] ^= (char)(1 << s.below(8)); break; case 1: { string k = p.k; k[s.below(32)] ^= (char)(1 << s.below(8)); q = node(k, p.cc); break; } case 2: q = node(g_key(s).priv, p.cc); break; default: q.cc = s.bulk(32); } if (q.ok) v.push_back(q); }
  c.nontrivial(); c.sample(strf("%zu twins", v.size())); for (unsigned i = 3 + (unsigned)s.below(6); i; i--) { Node& q = v[s.below(v.size())]; uint32_t ix = s.flip() ? i0 : i0 ^ (1u << s.below(32)); Node w = child_of(q, ix); if (!w.ok) continue; nostr_hd_key h = lib_node(q), ch; CHECK(nostr_hd_key_derive(&h, ix, &ch) == NOSTR_OK, "derive %u", ix); same_node(ch, w, strf("child %u after that of a near twin", ix)); }
}
PROP(P28, path, 8) {
  Node m = master_of(s.bulk(16 + s.below(49))); REQUIRE_CASE(m.ok); string path = "m"; Node w = m; bool ok = true; size_t n = s.chance(1, 15) ? 20 + s.below(30) : s.below(7);
  for (size_t i = 0; i < n; i++) { uint32_t v = s.flip() ? (uint32_t)s.below(50) : (uint32_t)(s.u64(4) & 0x7fffffff); int hard = (int)s.below(3); path += "/" + string(s.chance(1, 12) ? "0" : "") + strf("%u", v) + (hard == 1 ? "'" : hard == 2 ? "h" : ""); if (w.ok) w = child_of(w, v | (hard ? 0x80000000u : 0)); } REQUIRE_CASE(w.ok); string bad;
  if (s.chance(1, 2)) { static const char* comp[] = {"2147483648", "4294967296", "4294967301", "18446744073709551616", "18446744073709551621", "99999999999999999999999", "-1", "-4294967295", "+1", " 1", "1 ", "'", "h", "x", "1x", "1''", "1'h", "0x1", "1.0", "-", "+", "2147483648'", "4294967296'", "\t7", "1e3", "0'0"}; static const char* pre[] = {"", "M", "n", "44'/0", "/0", "mm", "m0", "x/0", " m/0"}; if (s.chance(3, 4)) { bad = s.pick(comp); vector<string> parts; size_t at = path.size(); if (path.find('/') != string::npos && s.flip()) { at = 1; size_t k = s.below(n); while (k--) at = path.find('/', at + 1); if (at == string::npos) at = path.size(); } path.insert(at, "/" + bad); } else { bad = s.pick(pre); path = bad + (bad.empty() ? "" : path.substr(1)); } ok = false; }
  CStr cp(path); nostr_hd_key h = lib_node(m), keep = h, d; memset(&d, 0x5a, sizeof d); bool alias = s.chance(1, 5); heap_reset(); nostr_error_t e = nostr_hd_key_derive_path(&h, cp, alias ? &h : &d); c.nontrivial(); c.label(ok ? "valid path" : "malformed path"); c.sample(path); CHECK((e == NOSTR_OK) == ok, "derive_path(%s) -> %d", vo::show(path, 300).c_str(), e); if (ok) same_node(alias ? h : d, w, path); if (!ok || !alias) CHECK(!memcmp(&h, &keep, sizeof h), "the master was changed"); CHECK(heap_live() == 0, "leak");
}

// ---------------------------------------------------------------- P29
static string words_of(const string& ent) { string bits; for (unsigned char ch : ent + sha256(ent)) for (int i = 7; i >= 0; i--) bits += (char)('0' + (ch >> i & 1)); size_t n = ent.size() * 8 + ent.size() / 4; string o; for (size_t i = 0; i < n; i += 11) { if (i) o += ' '; o += BIP39[std::stoul(bits.substr(i, 11), nullptr, 2)]; } return o; }
static int word_no(const string& w) { for (int i = 0; i < 2048; i++) if (w == BIP39[i]) return i; return -1; }
static vector<string> tokens(const string& t) { vector<string> o; size_t i = 0; while (true) { size_t j = t.find(' ', i); o.push_back(t.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) return o; i = j + 1; } }
static bool valid_mnemonic(const string& t) { auto w = tokens(t); if (w.size() != 12 && w.size() != 24) return false; string bits; for (auto& x : w) { int n = word_no(x); if (n < 0) return false; for (int i = 10; i >= 0; i--) bits += (char)('0' + (n >> i & 1)); } size_t eb = w.size() * 11 * 32 / 33 / 8; string ent; for (size_t i = 0; i < eb; i++) ent += (char)std::stoul(bits.substr(i * 8, 8), nullptr, 2); return words_of(ent) == t; }
static string pbkdf(const string& p, const string& salt) { string o(64, 0); PKCS5_PBKDF2_HMAC(p.data(), (int)p.size(), (const uint8_t*)salt.data(), (int)salt.size(), 2048, EVP_sha512(), 64, (uint8_t*)&o[0]); return o; }
// texts and their NFKD forms (from the Unicode database)
static const char* NK[][2] = {{"\xc3\xa9", "\x65\xcc\x81"}, {"\xe2\x84\xab", "\x41\xcc\x8a"}, {"\xef\xac\x81", "\x66\x69"}, {"\xe1\xba\x9b\xcc\xa3", "\x73\xcc\xa3\xcc\x87"}, {"\xc3\x85\xcc\x81", "\x41\xcc\x8a\xcc\x81"}, {"\xea\xb0\x80", "\xe1\x84\x80\xe1\x85\xa1"}, {"\xe3\x8e\x92", "\x4d\x48\x7a"}, {"\xe2\x91\xa0", "\x31"}, {"\xc2\xbd", "\x31\xe2\x81\x84\x32"}, {"\xe3\x80\x80", "\x20"}, {"\xef\xbc\xa1", "\x41"}, {"\xcf\x93", "\xce\xa5\xcc\x81"}, {"\xf0\x9d\x90\x80", "\x41"}, {"\xf0\x9f\x98\x80", "\xf0\x9f\x98\x80"}, {"\xc2\xa0", "\x20"}, {"\x65\xcc\x81\xcc\xa3", "\x65\xcc\xa3\xcc\x81"}, {"\xe0\xa5\x98", "\xe0\xa4\x95\xe0\xa4\xbc"}, {"\xc3\x9f", "\xc3\x9f"}};
struct PP { string given, nfkd; };
static PP g_phrase(Src& s) { PP p; size_t n = s.chance(1, 10) ? 40 + s.below(100) : s.below(8); while (n--) { if (s.flip()) { auto& k = NK[s.below(sizeof NK / sizeof *NK)]; p.given += k[0]; p.nfkd += k[1]; } else { char ch = (char)(32 + s.below(95)); p.given += ch; p.nfkd += ch; } } return p; }
static string g_entropy(Src& s) { size_t n = s.flip() ? 16 : 32; switch (s.below(6)) { case 0: return string(n, 0); case 1: return string(n, (char)0xff); case 2: { string e(n, 0); e[s.below(n)] = (char)(1 << s.below(8)); return e; } default: return s.bulk(n); } }
PROP(P29, near_twins, 1) {   // phrases and passphrases that are almost the same, in any order: each has its own seed
  string t = words_of(g_entropy(s)); PP p; size_t n = s.flip() ? s.below(8) : s.below(70); while (n--) { char ch = (char)(33 + s.below(94)); p.given += ch; } p.nfkd = p.given; vector<std::pair<string, string>> v = {{t, p.given}};
  for (unsigned i = 1 + (unsigned)s.below(2); i; i--) { string q = p.given, m = t; switch (s.below(4)) { case 0: q += (char)(33 + s.below(94)); break; case 1: if (!q.empty()) { size_t k = s.below(q.size()); q[k] = q[k] == 'a' ? 'b' : 'a'; } else q = "z"; break; case 2: if (!q.empty()) q.pop_back(); break; default: m = words_of(g_entropy(s)); } v.push_back({m, q}); }
  c.nontrivial(); c.sample(strf("%zu twins of a passphrase of %zu characters", v.size(), p.given.size())); std::map<size_t, string> want;
  for (unsigned i = 2 + (unsigned)s.below(4); i; i--) { size_t k = s.below(v.size()); if (!want.count(k)) want[k] = pbkdf(v[k].first, "mnemonic" + v[k].second); CStr m(v[k].first), q(v[k].second); string seed(64, 0); CHECK(nostr_mnemonic_to_seed(m, q, (uint8_t*)&seed[0]) == NOSTR_OK && seed == want[k], "seed of %s with %s after that of a near twin", v[k].first.c_str(), vo::show(v[k].second, 100).c_str()); }
}
PROP(P29, generate, 5) {
  string ent = g_entropy(s), want = words_of(ent); int n = ent.size() == 16 ? 12 : 24; bool badn = s.chance(1, 10); if (badn) { static const int k[] = {0, 11, 13, 15, 18, 21, 23, 25, -12, 48}; n = s.pick(k); } size_t z = s.flip() ? 300 : (size_t)std::max<int64_t>(0, (int64_t)want.size() + s.range(-3, 3)); if (s.chance(1, 6)) z = s.below(want.size() + 1); bool rf = s.chance(1, 10);
  rand_mode = rf ? 2 : 3; rand_fail_after = 0; rand_calls = 0; rand_script = ent; auto d = defer([] { rand_mode = 0; rand_script.clear(); }); CBuf b(z); nostr_error_t e = nostr_mnemonic_generate(n, b.p, z); bool ok = !badn && !rf && z > want.size(); c.nontrivial(); c.label(badn ? "word count refused" : rf ? "random source fails" : ok ? "generated" : "buffer too small"); CHECK((e == NOSTR_OK) == ok, "generate(%d words, %zu of %zu bytes%s) -> %d", n, z, want.size(), rf ? ", random source failing" : "", e); if (ok) { c.sample(want); CHECK(want == b.p, "generated %s expected %s", b.p, want.c_str()); CHECK(nostr_mnemonic_validate(b.p) == NOSTR_OK, "own mnemonic refused: %s", b.p); }
}
PROP(P29, validate, 8) {
  string t = words_of(g_entropy(s)); auto w = tokens(t); const char* what = "valid";
  switch (s.below(12)) { case 0: what = "word replaced"; w[s.below(w.size())] = BIP39[s.below(2048)]; break; case 1: what = "last word replaced"; w.back() = BIP39[s.below(2048)]; break; case 2: { what = "words swapped"; std::swap(w[s.below(w.size())], w[s.below(w.size())]); break; } case 3: what = "word dropped"; w.erase(w.begin() + s.below(w.size())); break; case 4: what = "word added"; w.insert(w.begin() + s.below(w.size() + 1), BIP39[s.below(2048)]); break; case 5: { what = "misspelled"; auto& x = w[s.below(w.size())]; switch (s.below(4)) { case 0: x = x.substr(0, x.size() - 1); break; case 1: x += (char)('a' + s.below(26)); break; case 2: x[0] = (char)toupper(x[0]); break; default: x[s.below(x.size())] ^= 1; } break; } case 6: { what = "other length"; static const int k[] = {1, 11, 13, 23, 25, 36, 48}; int n = s.pick(k); w.clear(); while (n--) w.push_back(BIP39[s.below(2048)]); break; } case 7: { what = "repeated words"; string one = BIP39[s.below(2048)]; for (auto& x : w) x = one; break; } default: break; }
  t.clear(); for (size_t i = 0; i < w.size(); i++) t += (i ? " " : "") + w[i]; if (s.chance(1, 10)) { size_t i = t.find(' '); if (i != string::npos) { t[i] = "\t\n,-"[s.below(4)]; what = "other separator"; } } bool ok = valid_mnemonic(t); CStr ct(t); heap_reset(); nostr_error_t e = nostr_mnemonic_validate(ct); c.nontrivial(); c.label(strf("%s: %s", what, ok ? "accepted" : "refused")); c.sample(t); CHECK((e == NOSTR_OK) == ok, "validate(%s) [%s] -> %d", t.c_str(), what, e); CHECK(heap_live() == 0, "leak");
  if (!ok) { uint8_t seed[64]; CHECK(nostr_mnemonic_to_seed(ct, "", seed) != NOSTR_OK, "seed of an invalid mnemonic"); nostr_keypair kp; CHECK(nostr_mnemonic_to_keypair(ct, nullptr, 0, &kp) != NOSTR_OK, "keypair of an invalid mnemonic"); }
}
PROP(P29, seed_and_keypair, 4) {
  string t = words_of(g_entropy(s)); PP p = g_phrase(s); bool null = s.chance(1, 5); if (null) p = PP(); CStr ct(t), cp(p.given); string seed(64, 0); nostr_error_t e = nostr_mnemonic_to_seed(ct, null ? nullptr : cp.p, (uint8_t*)&seed[0]); string want = pbkdf(t, "mnemonic" + p.nfkd); c.nontrivial(); c.label(null ? "no passphrase" : p.given != p.nfkd ? "passphrase needs normalization" : "passphrase"); c.sample(t + " / " + vo::show(p.given, 80)); CHECK(e == NOSTR_OK && seed == want, "seed of %s / %s -> %d", t.c_str(), vo::show(p.given).c_str(), e);
  uint32_t acc = s.flip() ? (uint32_t)s.below(5) : (uint32_t)s.u64(4); nostr_keypair kp; memset(&kp, 0x5a, sizeof kp); e = nostr_mnemonic_to_keypair(ct, null ? nullptr : cp.p, acc, &kp); if (acc >> 31) { CHECK(e != NOSTR_OK, "account %u accepted", acc); c.label("account refused"); return; } Node n = master_of(want); for (uint32_t i : {44u | 1u << 31, 1237u | 1u << 31, acc | 1u << 31, 0u, 0u}) n = child_of(n, i); REQUIRE_CASE(n.ok); CHECK(e == NOSTR_OK, "keypair of account %u -> %d", acc, e); CHECK(n.k == string((char*)kp.privkey.data, 32) && n.pub == string((char*)kp.pubkey.data, 32), "account %u: private key %s expected %s", acc, hex(kp.privkey.data, 32).c_str(), hex(n.k).c_str()); CHECK(nostr_keypair_validate(&kp) == NOSTR_OK, "derived keypair is not valid");
}
PROP(P29, published_vector, 1) {
  if (s.chance(7, 8)) throw Discard(); c.nontrivial(); c.label("published vector"); nostr_keypair kp; CHECK(nostr_mnemonic_to_keypair("leader monkey parrot ring guide accident before fence cannon height naive bean", "", 0, &kp) == NOSTR_OK && hex(kp.privkey.data, 32) == "7f7ff03d123792d6ac594bfa67bf6d0c0ab55b6b1fdb6249303fe861f1ccba9a" && hex(kp.pubkey.data, 32) == "17162c921dc4d2518f9a101db33695df1afb56ab82f5ff3e5da6eec3ca5cd917", "NIP-06 vector");
}
