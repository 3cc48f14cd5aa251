// P06 keys and hex, P07 npub/nsec/note bech32, P08 NIP-19 TLV entities and nostr: URIs
#include "oracle.h"
#include <algorithm>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
using namespace vf; using namespace vo;
static string S(const void* p, size_t n) { return string((const char*)p, n); }
static nostr_privkey PK(const string& p) { nostr_privkey k; memcpy(k.data, p.data(), 32); return k; }
static nostr_key PUB(const string& p) { nostr_key k; memcpy(k.data, p.data(), 32); return k; }
static string g_hexish(Src& s, string* bytes, bool* ok) {   // text meant to be 32 bytes of hex
  string b = g_bin32(s), h = hex(b);
  switch (s.below(9)) {
    case 0: break;
    case 1: h = upper(h); break;
    case 2: for (auto& ch : h) if (s.flip()) ch = (char)toupper(ch); break;
    case 3: { static const char bad[] = " +-gGxX\t\n.:/@`\xff"; h[s.below(64)] = bad[s.below(sizeof bad - 1)]; break; }
    case 4: { static const char* bad[] = {" 1", "+1", "-1", "0x", "0X", "1 ", "\t5", "\n0"}; h.replace(s.below(32) * 2, 2, s.pick(bad)); break; }
    case 5: h.resize(s.below(64)); break;
    case 6: h += g_ascii(s, 6, "0123456789abcdef "); break;
    case 7: h = g_mut(s, h, 2); h = h.c_str(); break;
    default: h = g_ascii(s, 70, "0123456789abcdefABCDEF"); break;
  }
  *ok = strict_hex(h, 32, bytes); return h;
}
// ---------------------------------------------------------------- P06
PROP(P06, hex_import_export, 6) {
  string b; bool ok; string h = g_hexish(s, &b, &ok); CStr ch(h); c.label(ok ? "valid" : "invalid"); c.nontrivial(); c.sample(show(h, 80));
  nostr_key k; nostr_privkey p; nostr_error_t r = nostr_key_from_hex(ch, &k), q = nostr_privkey_from_hex(ch, &p);
  CHECK((r == NOSTR_OK) == ok, "key_from_hex(%s) -> %d", show(h).c_str(), r); CHECK((q == NOSTR_OK) == ok, "privkey_from_hex(%s) -> %d", show(h).c_str(), q);
  if (ok) {
    CHECK(S(k.data, 32) == b && S(p.data, 32) == b, "imported bytes differ from %s", h.c_str());
    size_t n = s.flip() ? 65 : s.below(80); CBuf o(n), o2(n); r = nostr_key_to_hex(&k, o.p, n); q = nostr_privkey_to_hex(&p, o2.p, n);
    if (n >= 65) CHECK(r == NOSTR_OK && q == NOSTR_OK && lower(h) == o.p && lower(h) == o2.p, "export"); else CHECK(r != NOSTR_OK && q != NOSTR_OK, "export into %zu bytes accepted", n);
  }
}
PROP(P06, hex_codec, 3) {
  string b = g_bytes(s, 200); CBuf o(b.size() * 2 + 1); Raw rb(b); nostr_hex_encode((uint8_t*)rb.p, b.size(), o.p); CHECK(hex(b) == o.p, "hex_encode(%s) -> %s", hex(b).c_str(), o.p);
  string h = hex(b); switch (s.below(6)) { case 0: h = upper(h); break; case 1: h = g_mut(s, h, 2); h = h.c_str(); break; case 2: h += "a"; break; default: break; }
  size_t cap = s.flip() ? h.size() / 2 : s.below(220); string want; bool ok = h.size() % 2 == 0 && h.size() / 2 <= cap && strict_hex(h, h.size() / 2, &want);
  CStr ch(h); CBuf out(cap); int n = nostr_hex_decode(ch, (uint8_t*)out.p, cap); c.label(ok ? "decodes" : "refused"); if (b.size() > 2) c.nontrivial(); c.sample(show(h, 60));
  CHECK(n == (ok ? (int)(h.size() / 2) : -1), "hex_decode(%s, cap %zu) -> %d", show(h).c_str(), cap, n); if (ok) CHECK(S(out.p, n) == want, "hex_decode bytes");
}
PROP(P06, memory_helpers, 1) {
  string a = g_bytes(s, 100), b = a; if (!b.empty() && s.flip()) b[s.below(b.size())] ^= (char)(1 << s.below(8)); Raw ra(a), rb(b);
  CHECK((nostr_constant_time_memcmp(ra.p, rb.p, a.size()) == 0) == (a == b), "constant_time_memcmp"); if (a != b) c.nontrivial();
  string z = a; size_t n = s.below(a.size() + 1); Raw rz(z); secure_wipe(rz.p, n); CHECK(S(rz.p, z.size()) == string(n, 0) + z.substr(n), "secure_wipe(%zu of %zu)", n, z.size());
}
static void check_kp(const nostr_keypair* kp, const string& priv, const string& pub) {
  const nostr_key* k = nostr_keypair_public_key(kp); const nostr_privkey* p = nostr_keypair_private_key(kp);
  CHECK(k && p && S(k->data, 32) == pub && S(p->data, 32) == priv, "key pair accessors: pub %s expected %s", k ? hex(k->data, 32).c_str() : "NULL", hex(pub).c_str());
  CHECK(nostr_keypair_validate(kp) == NOSTR_OK, "validate refuses a good pair"); char h[65];
  CHECK(nostr_keypair_export_private_hex(kp, h, 65) == NOSTR_OK && hex(priv) == h && nostr_keypair_export_public_hex(kp, h, 65) == NOSTR_OK && hex(pub) == h, "hex export");
}
static void check_dead(const nostr_keypair* kp) {
  char h[65]; if (nostr_keypair_public_key(kp) || nostr_keypair_private_key(kp)) { CHECK(nostr_keypair_validate(kp) == NOSTR_OK, "after a refused import the pair is in use with inconsistent keys"); return; }
  CHECK(nostr_keypair_export_private_hex(kp, h, 65) != NOSTR_OK && nostr_keypair_export_public_hex(kp, h, 65) != NOSTR_OK && nostr_keypair_validate(kp) != NOSTR_OK, "pair without keys still exports");
}
// Histories of key-pair operations, each successful or refused
PROP(P06, keypair_history, 6) {
  static const char* N = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
  nostr_keypair kp; nostr_keypair_init(&kp); check_dead(&kp); unsigned ops = 1 + (unsigned)s.below(6); string tr;
  while (ops--) switch (s.below(6)) {
    case 0: { Key k = g_key(s); nostr_privkey p = PK(k.priv); CHECK(nostr_keypair_from_private_key(&kp, &p) == NOSTR_OK, "import"); check_kp(&kp, k.priv, k.pub); tr += "i"; break; }
    case 1: { Key k = g_key(s); string h = hex(k.priv); if (s.flip()) h = upper(h); CStr ch(h); CHECK(nostr_keypair_from_private_hex(&kp, ch) == NOSTR_OK, "import hex"); check_kp(&kp, k.priv, k.pub); tr += "h"; break; }
    case 2: { string bad; switch (s.below(4)) { case 0: bad = string(32, 0); break; case 1: bad = unhex(N); break; case 2: bad = string(32, (char)0xff); break; default: bad = unhex(N); bad[31] = (char)s.range(0x41, 0x7f); }
        nostr_error_t r; if (s.flip()) { nostr_privkey p = PK(bad); r = nostr_keypair_from_private_key(&kp, &p); } else { CStr ch(hex(bad)); r = nostr_keypair_from_private_hex(&kp, ch); }
        CHECK(r != NOSTR_OK, "invalid secret %s imported", hex(bad).c_str()); check_dead(&kp); tr += "!"; c.nontrivial(); break; }
    case 3: { string b; bool ok; string h = g_hexish(s, &b, &ok); string pub; bool good = ok && pub_of(b, &pub); CStr ch(h); nostr_error_t r = nostr_keypair_from_private_hex(&kp, ch); CHECK((r == NOSTR_OK) == good, "from_private_hex(%s) -> %d", show(h).c_str(), r); if (good) check_kp(&kp, b, pub); else check_dead(&kp); tr += "x"; c.nontrivial(); break; }
    case 4: { CHECK(nostr_keypair_generate(&kp) == NOSTR_OK, "generate"); string p = S(kp.privkey.data, 32), pub; CHECK(pub_of(p, &pub), "generated an invalid secret"); check_kp(&kp, p, pub); tr += "g"; break; }
    default: { nostr_keypair_destroy(&kp); string z = S(&kp.privkey, 32); CHECK(z == string(32, 0), "secret key left behind by destroy"); check_dead(&kp); CHECK(!nostr_keypair_public_key(&kp), "destroyed pair still in use"); tr += "d"; break; }
  }
  if (tr.size() > 1) c.nontrivial(); c.sample(tr);
}
PROP(P06, validate_detects_mismatch, 2) {
  Key a = g_key(s); nostr_keypair kp; nostr_keypair_init(&kp); nostr_privkey p = PK(a.priv); CHECK(nostr_keypair_from_private_key(&kp, &p) == NOSTR_OK, "import");
  size_t i = s.below(32); int bit = 1 << s.below(8); if (s.flip()) kp.pubkey.data[i] ^= bit; else kp.privkey.data[i] ^= bit;
  string pub; bool good = pub_of(S(kp.privkey.data, 32), &pub) && pub == S(kp.pubkey.data, 32); c.nontrivial();
  CHECK((nostr_keypair_validate(&kp) == NOSTR_OK) == good, "validate on a pair altered at byte %zu", i);
}
PROP(P06, ecdh, 5) {   // x-coordinate of the shared point, the same from both sides
  Key a = g_key(s), b = g_key(s); uint8_t x[32], y[32]; nostr_privkey pa = PK(a.priv), pb = PK(b.priv); nostr_key ka = PUB(a.pub), kb = PUB(b.pub);
  if (s.chance(1, 6)) { kb = PUB(g_bin32(s)); secp256k1_xonly_pubkey xo; bool ok = secp256k1_xonly_pubkey_parse(secp(), &xo, kb.data); nostr_error_t r = nostr_key_ecdh(&pa, &kb, x); CHECK((r == NOSTR_OK) == ok, "ecdh with public key %s -> %d", hex(kb.data, 32).c_str(), r); c.label("arbitrary public key"); if (!ok) return; b.pub = S(kb.data, 32); b.priv.clear(); }
  if (s.chance(1, 10)) { nostr_privkey z = PK(string(32, s.flip() ? 0 : (char)0xff)); CHECK(nostr_key_ecdh(&z, &kb, x) != NOSTR_OK, "ecdh with an invalid secret"); c.label("invalid secret"); }
  nostr_error_t r = nostr_key_ecdh(&pa, &kb, x); CHECK(r == NOSTR_OK, "ecdh -> %d", r); c.nontrivial(); c.sample(hex(a.pub).substr(0, 8) + " x " + hex(b.pub).substr(0, 8));
  secp256k1_pubkey P; string ser = "\x02" + b.pub; CHECK(secp256k1_ec_pubkey_parse(secp(), &P, (const uint8_t*)ser.data(), 33), "oracle"); CHECK(secp256k1_ec_pubkey_tweak_mul(secp(), &P, (const uint8_t*)a.priv.data()), "oracle"); uint8_t o[33]; size_t ol = 33; secp256k1_ec_pubkey_serialize(secp(), o, &ol, &P, SECP256K1_EC_COMPRESSED);
  CHECK(memcmp(o + 1, x, 32) == 0, "shared secret %s is not the x-coordinate %s of the shared point", hex(x, 32).c_str(), hex(o + 1, 32).c_str());
  if (!b.priv.empty()) { CHECK(nostr_key_ecdh(&pb, &ka, y) == NOSTR_OK && memcmp(x, y, 32) == 0, "the two sides derive different secrets"); c.label("both sides"); }
}
PROP(P06, near_twins, 2) {   // secrets and public keys that differ in one bit or half, in any order: each answer belongs to its own question
  vector<string> a = {g_key(s).priv}; vector<string> b; for (unsigned i = 1 + (unsigned)s.below(3); i; i--) { string k = a[0]; if (s.chance(1, 4)) { string o = g_key(s).priv; bool hi = s.flip(); for (size_t j = 0; j < 16; j++) k[hi ? j : 16 + j] = o[hi ? j : 16 + j]; } else k[s.below(32)] ^= (char)(1 << s.below(8)); string q; if (pub_of(k, &q)) a.push_back(k); } for (auto& k : a) { string q; CHECK(pub_of(k, &q), "oracle"); b.push_back(q); } b.push_back(g_key(s).pub);
  c.nontrivial(); c.sample(strf("%zu secrets", a.size()));
  for (unsigned i = 3 + (unsigned)s.below(6); i; i--) { string& k = a[s.below(a.size())]; string want; pub_of(k, &want); nostr_privkey p = PK(k); if (s.chance(1, 3)) { nostr_keypair kp; CHECK(nostr_keypair_from_private_key(&kp, &p) == NOSTR_OK && S(nostr_keypair_public_key(&kp)->data, 32) == want, "the public key of %s after that of a near twin", hex(k).c_str()); nostr_keypair_destroy(&kp); continue; }
    string& q = b[s.below(b.size())]; nostr_key kq = PUB(q); uint8_t x[32]; CHECK(nostr_key_ecdh(&p, &kq, x) == NOSTR_OK, "ecdh"); secp256k1_pubkey P; string ser = "\x02" + q; CHECK(secp256k1_ec_pubkey_parse(secp(), &P, (const uint8_t*)ser.data(), 33), "oracle"); CHECK(secp256k1_ec_pubkey_tweak_mul(secp(), &P, (const uint8_t*)k.data()), "oracle"); uint8_t o[33]; size_t ol = 33; secp256k1_ec_pubkey_serialize(secp(), o, &ol, &P, SECP256K1_EC_COMPRESSED);
    CHECK(memcmp(o + 1, x, 32) == 0, "the shared secret of %s and %s after that of a near twin", hex(k).c_str(), hex(q).c_str()); }
}
PROP(P06, random_bytes, 1) {
  size_t n = s.chance(1, 10) ? 1000 + s.below(4000) : s.below(200); CBuf a(n), b(n); CHECK(nostr_random_bytes((uint8_t*)a.p, n) == 1 && nostr_random_bytes((uint8_t*)b.p, n) == 1, "random_bytes");
  for (size_t i = 0; i + 16 <= n; i += 16) CHECK(memcmp(a.p + i, b.p + i, 16) != 0, "two draws of %zu bytes agree at %zu", n, i); if (n >= 16) { CHECK(memcmp(a.p + n - 16, b.p + n - 16, 16) != 0, "tails agree"); c.nontrivial(); }
}
#ifndef VF_MBEDTLS
PROP(P06, generate_under_faults, 3) {   // the random source fails, or first yields values outside the group order
  static const char* N = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"; nostr_init(); rand_seed(s.u64(8)); c.nontrivial();
  nostr_privkey p; nostr_key k; memset(&p, 0, sizeof p); memset(&k, 0, sizeof k); nostr_keypair kp; nostr_keypair_init(&kp); bool pair = s.flip(); Key old = g_key(s); bool had = s.flip(); if (pair && had) { nostr_privkey op = PK(old.priv); CHECK(nostr_keypair_from_private_key(&kp, &op) == NOSTR_OK, "import"); }
  if (s.flip()) { rand_mode = 2; rand_fail_after = 0; nostr_error_t r = pair ? nostr_keypair_generate(&kp) : nostr_key_generate(&p, &k); rand_mode = 0; c.label("source fails"); CHECK(r != NOSTR_OK, "generate returned OK although the random source failed"); if (pair) check_dead(&kp); return; }
  unsigned bad = (unsigned)s.below(6); rand_script.clear(); for (unsigned i = 0; i < bad; i++) { string v = s.flip() ? string(32, 0) : s.flip() ? unhex(N) : string(32, (char)0xff); rand_script += v; }
  rand_mode = 3; nostr_error_t r = pair ? nostr_keypair_generate(&kp) : nostr_key_generate(&p, &k); rand_mode = 0; rand_script.clear(); c.label(bad ? "out-of-range draws" : "plain");
  if (r == NOSTR_OK) { string pr = pair ? S(kp.privkey.data, 32) : S(p.data, 32), pu = pair ? S(kp.pubkey.data, 32) : S(k.data, 32), w; CHECK(pub_of(pr, &w) && w == pu, "generated secret %s public %s", hex(pr).c_str(), hex(pu).c_str()); }
  else CHECK(bad > 0, "generate -> %d", r);
}
#endif

// ---------------------------------------------------------------- P07
struct B32 { string s, hrp, bytes; bool ok; };
static string g_hrp(Src& s, size_t max) { static const char* h[] = {"npub", "nsec", "note", "nprofile", "x", "bc", "lnurl", "n1pub", "ncryptsec"}; if (s.chance(3, 4)) { string r = s.pick(h); if (r.size() <= max) return r; } string o; size_t n = 1 + s.size(max - 1); while (n--) o += (char)"abcdefghijklmnopqrstuvwxyz0123456789!_~"[s.below(39)]; return o; }
// a bech32-like string: valid for (hrp, len bytes), or broken in a chosen way
static string g_b32(Src& s, const string& hrp, const string& payload) {
  string t = bech32_encode(hrp, payload);
  switch (s.below(17)) {
    case 0: case 1: case 2: case 3: return t;
    case 16: { string h = hrp; size_t p = s.below(h.size()); h[p] = s.flip() ? (char)toupper(h[p]) : (char)s.u8(); if (!h[p]) h[p] = ' '; return bech32_encode_raw(h, payload); }   // checksum over an unusable prefix
    case 4: return upper(t);
    case 5: { string u = t; size_t p = s.below(u.size()); u[p] = (char)toupper(u[p]); return u; }
    case 6: { size_t p = hrp.size() + 1 + s.below(t.size() - hrp.size() - 1); t[p] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[s.below(32)]; return t; }
    case 7: { auto d = to5(payload); if (d.empty()) return t; d.back() ^= (uint8_t)(1 << s.below(5)); return bech32_encode5(hrp, d); }          // non-zero padding, valid checksum
    case 8: { auto d = to5(payload); d.push_back((uint8_t)s.below(32)); return bech32_encode5(hrp, d); }                                            // extra symbol, valid checksum
    case 9: return bech32_encode(hrp, payload, 0x2bc830a3);                                                                                     // bech32m
    case 10: return bech32_encode(hrp, s.flip() ? g_bytes(s, 60) : payload.substr(0, s.below(payload.size() + 1)) + g_bytes(s, 3));             // another length
    case 11: return g_mut(s, t, 2);
    case 12: { size_t n = s.below(t.size()); return t.substr(0, n); }
    case 13: { string u; auto d = to5(payload); size_t k = s.below(90); vector<uint8_t> e; while (k--) e.push_back((uint8_t)s.below(32)); return bech32_encode5(hrp, e); }
    case 14: return g_hrp(s, 20) + "1" + g_ascii(s, 90, "qpzry9x8gf2tvdw0s3jn54khce6mua7l");
    default: return g_ascii(s, 95, "qpzry9x8gf2tvdw0s3jn54khce6mua7lnpubsecot1BIO ");
  }
}
PROP(P07, encode, 4) {
  string b = g_bin32(s); unsigned k = (unsigned)s.below(3); string hrp = k == 0 ? g_hrp(s, 31) : k == 1 ? "nsec" : "note"; string want = bech32_encode(hrp, b);
  size_t n = s.weighted({3, 2, 2, 1}); n = n == 0 ? want.size() + 1 : n == 1 ? want.size() : n == 2 ? s.below(want.size() + 1) : want.size() + 1 + s.below(50); CBuf o(n); nostr_error_t r; Raw rb(b);
  nostr_key kk = PUB(b); nostr_privkey pp = PK(b); CStr ch(hrp);
  r = k == 0 ? nostr_key_to_bech32(&kk, ch, o.p, n) : k == 1 ? nostr_privkey_to_bech32(&pp, o.p, n) : nostr_event_id_to_bech32((uint8_t*)rb.p, o.p, n); c.sample(show(want)); c.nontrivial();
  if (n > want.size()) { CHECK(r == NOSTR_OK && want == o.p, "%s encoded as %s (rc %d), expected %s", hex(b).c_str(), r == NOSTR_OK ? show(o.p).c_str() : "?", r, want.c_str()); c.label("fits"); } else { CHECK(r != NOSTR_OK, "encoding of %zu chars accepted a %zu-byte buffer", want.size(), n); c.label("too small"); }
}
PROP(P07, decode, 12) {
  unsigned k = (unsigned)s.below(3); string hrp = k == 0 ? g_hrp(s, s.chance(1, 8) ? 84 : 31) : s.chance(1, 8) ? g_hrp(s, 10) : k == 1 ? "nsec" : "note"; string b = g_bin32(s), t = g_b32(s, hrp, b); t = t.c_str();
  string h, by; bool valid = t.size() <= 90 && bech32_decode(t, &h, &by) && by.size() == 32 && (k == 0 || h == (k == 1 ? "nsec" : "note")); bool low = t == lower(t);
  CStr ct(t); nostr_key kk; nostr_privkey pp; uint8_t id[32]; nostr_error_t r = k == 0 ? nostr_key_from_bech32(ct, &kk) : k == 1 ? nostr_privkey_from_bech32(ct, &pp) : nostr_event_id_from_bech32(ct, id); string got = k == 0 ? S(kk.data, 32) : k == 1 ? S(pp.data, 32) : S(id, 32);
  c.label(valid ? low ? "valid" : "valid upper-case" : "invalid"); c.nontrivial(); c.sample(show(t)); c.note("text %s", t.c_str());
  if (!valid) CHECK(r != NOSTR_OK, "accepted %s", show(t, 200).c_str());
  if (valid && low && (k || h == "npub" || true)) CHECK(r == NOSTR_OK, "refused %s (%d)", show(t, 200).c_str(), r);
  if (r == NOSTR_OK) CHECK(got == by, "%s decoded to %s", t.c_str(), hex(got).c_str());
}

// ---------------------------------------------------------------- P08
struct Ent { int type = 0; string special; vector<string> relays; string author; bool has_kind = false; uint32_t kind = 0; };   // type: nostr_uri_type
static const char* HRP[] = {"npub", "nsec", "note", "nprofile", "nevent", "naddr", "nrelay"};
static string tlv_of(const Ent& e) { string o; auto put = [&](int t, const string& v) { o += (char)t; o += (char)v.size(); o += v; }; put(0, e.special); for (auto& r : e.relays) put(1, r); if (!e.author.empty()) put(2, e.author); if (e.has_kind) { string k; for (int i = 3; i >= 0; i--) k += (char)(e.kind >> (8 * i)); put(3, k); } return o; }
static string g_relay(Src& s) { string u = g_url(s); if (s.chance(1, 5)) { size_t n = s.flip() ? 255 : 6 + s.below(250); u = "wss://"; while (u.size() < n) u += (char)s.range(0x21, 0x7e); } if (u.size() < 6) u += "ab"; return u; }
static string g_ident(Src& s) { string d; switch (s.below(5)) { case 0: return ""; case 1: return g_text(s, 255); case 2: { string o; size_t n = s.flip() ? 255 : s.below(256); while (o.size() < n) o += (char)s.range(0x20, 0x7e); return o; } default: return g_text(s, 30); } }
static Ent g_ent(Src& s, int type) {
  Ent e; e.type = type; if (type == NOSTR_URI_NADDR) e.special = g_ident(s); else if (type == NOSTR_URI_NRELAY) { e.special = g_relay(s); } else e.special = g_bin32(s);
  if (type >= NOSTR_URI_NPROFILE && type <= NOSTR_URI_NADDR) { size_t n = s.chance(1, 10) ? 16 : s.below(4); bool longs = s.chance(1, 8); if (longs) n = s.below(17); while (n--) { string r = g_relay(s); if (longs) { r.resize(255, 'z'); } e.relays.push_back(r); } }
  if (type == NOSTR_URI_NEVENT) { if (s.flip()) e.author = g_bin32(s); e.has_kind = s.flip(); e.kind = (uint32_t)s.u64(4); if (!e.has_kind) e.kind = 0; } if (type == NOSTR_URI_NADDR) { e.author = g_bin32(s); e.has_kind = true; e.kind = (uint32_t)s.u64(4); }
  return e;
}
struct U { nostr_uri u; vector<std::unique_ptr<CStr>> keep; };
static void fill(U& x, const Ent& e) {
  memset(&x.u, 0, sizeof x.u); x.u.type = (nostr_uri_type)e.type; auto& d = x.u.data; auto rel = [&](char** r, size_t* n) { for (auto& y : e.relays) { x.keep.emplace_back(new CStr(y)); r[(*n)++] = x.keep.back()->p; } };
  switch (e.type) { case NOSTR_URI_NPUB: memcpy(d.npub.data, e.special.data(), 32); break; case NOSTR_URI_NSEC: memcpy(d.nsec.data, e.special.data(), 32); break; case NOSTR_URI_NOTE: memcpy(d.note, e.special.data(), 32); break;
    case NOSTR_URI_NPROFILE: memcpy(d.nprofile.pubkey.data, e.special.data(), 32); rel(d.nprofile.relays, &d.nprofile.relay_count); break;
    case NOSTR_URI_NEVENT: memcpy(d.nevent.id, e.special.data(), 32); rel(d.nevent.relays, &d.nevent.relay_count); if (!e.author.empty()) { d.nevent.has_author = 1; memcpy(d.nevent.author.data, e.author.data(), 32); } d.nevent.has_kind = e.has_kind; d.nevent.kind = e.kind; break;
    case NOSTR_URI_NADDR: memcpy(d.naddr.identifier, e.special.c_str(), e.special.size() + 1); memcpy(d.naddr.pubkey.data, e.author.data(), 32); d.naddr.kind = e.kind; rel(d.naddr.relays, &d.naddr.relay_count); break;
    default: memcpy(d.nrelay.url, e.special.c_str(), e.special.size() + 1); }
}
static Ent read(const nostr_uri& u) {
  Ent e; e.type = u.type; auto& d = u.data; auto rel = [&](char* const* r, size_t n) { CHECK(n <= NOSTR_URI_MAX_RELAYS, "relay_count %zu", n); for (size_t i = 0; i < n; i++) { CHECK(r[i], "relay %zu is NULL", i); e.relays.push_back(r[i]); } };
  switch (u.type) { case NOSTR_URI_NPUB: e.special = S(d.npub.data, 32); break; case NOSTR_URI_NSEC: e.special = S(d.nsec.data, 32); break; case NOSTR_URI_NOTE: e.special = S(d.note, 32); break;
    case NOSTR_URI_NPROFILE: e.special = S(d.nprofile.pubkey.data, 32); rel(d.nprofile.relays, d.nprofile.relay_count); break;
    case NOSTR_URI_NEVENT: e.special = S(d.nevent.id, 32); rel(d.nevent.relays, d.nevent.relay_count); if (d.nevent.has_author) e.author = S(d.nevent.author.data, 32); e.has_kind = d.nevent.has_kind; e.kind = e.has_kind ? d.nevent.kind : 0; break;
    case NOSTR_URI_NADDR: CHECK(strnlen(d.naddr.identifier, 256) < 256, "identifier not terminated"); e.special = d.naddr.identifier; e.author = S(d.naddr.pubkey.data, 32); e.has_kind = true; e.kind = d.naddr.kind; rel(d.naddr.relays, d.naddr.relay_count); break;
    default: CHECK(strnlen(d.nrelay.url, 256) < 256, "url not terminated"); e.special = d.nrelay.url; }
  return e;
}
static bool eq(const Ent& a, const Ent& b, string* why) { if (a.type != b.type) { *why = strf("type %d vs %d", a.type, b.type); return false; } if (a.special != b.special) { *why = "special " + hex(a.special) + " vs " + hex(b.special); return false; } if (a.relays != b.relays) { *why = strf("relays (%zu vs %zu)", a.relays.size(), b.relays.size()); return false; } if (a.author != b.author) { *why = "author"; return false; } if (a.has_kind != b.has_kind || a.kind != b.kind) { *why = strf("kind %u vs %u", a.kind, b.kind); return false; } return true; }
static nostr_error_t decode_direct(int type, const char* t, nostr_uri* u) { u->type = (nostr_uri_type)type; switch (type) { case NOSTR_URI_NPROFILE: return nostr_nprofile_decode(t, &u->data.nprofile); case NOSTR_URI_NEVENT: return nostr_nevent_decode(t, &u->data.nevent); case NOSTR_URI_NADDR: return nostr_naddr_decode(t, &u->data.naddr); case NOSTR_URI_NRELAY: return nostr_nrelay_decode(t, &u->data.nrelay); case NOSTR_URI_NPUB: return nostr_key_from_bech32(t, &u->data.npub); case NOSTR_URI_NSEC: return nostr_privkey_from_bech32(t, &u->data.nsec); default: return nostr_event_id_from_bech32(t, u->data.note); } }
static nostr_error_t encode_direct(int type, nostr_uri* u, char* o, size_t n) { switch (type) { case NOSTR_URI_NPROFILE: return nostr_nprofile_encode(&u->data.nprofile, o, n); case NOSTR_URI_NEVENT: return nostr_nevent_encode(&u->data.nevent, o, n); case NOSTR_URI_NADDR: return nostr_naddr_encode(&u->data.naddr, o, n); case NOSTR_URI_NRELAY: return nostr_nrelay_encode(&u->data.nrelay, o, n); case NOSTR_URI_NPUB: return nostr_key_to_bech32(&u->data.npub, "npub", o, n); case NOSTR_URI_NSEC: return nostr_privkey_to_bech32(&u->data.nsec, o, n); default: return nostr_event_id_to_bech32(u->data.note, o, n); } }
// decode an encoded text by the oracle into its TLV records; nullptr-like false when malformed
static bool records(const string& t, const char* hrp, vector<std::pair<int, string>>* out) { string h, b; if (!bech32_decode(t, &h, &b) || h != hrp) return false; for (size_t i = 0; i < b.size();) { if (i + 2 > b.size()) return false; size_t l = (uint8_t)b[i + 1]; if (i + 2 + l > b.size()) return false; out->push_back({(uint8_t)b[i], b.substr(i + 2, l)}); i += 2 + l; } return true; }
PROP(P08, encode_then_decode, 8) {
  int type = (int)s.below(7); Ent e = g_ent(s, type); U x; fill(x, e); bool uri = s.flip(); string pre = uri ? "nostr:" : "";
  size_t exact = pre.size() + strlen(HRP[type]) + 1 + 6 + (type <= NOSTR_URI_NOTE ? 52 : (tlv_of(e).size() * 8 + 4) / 5) + 1; size_t n = s.weighted({3, 1, 1, 1}); n = n == 0 ? exact : n == 1 ? exact - 1 : n == 2 ? s.below(exact) : exact + s.below(4000);
  CBuf o(n); nostr_error_t r = uri ? nostr_uri_encode(&x.u, o.p, n) : encode_direct(type, &x.u, o.p, n); c.label(HRP[type]); c.sample(strf("%s special %zu bytes, %zu relays, buffer %zu of %zu", HRP[type], e.special.size(), e.relays.size(), n, exact)); if (type >= NOSTR_URI_NPROFILE) c.nontrivial();
  if (n < exact) { CHECK(r != NOSTR_OK, "%s of %zu bytes encoded into %zu", HRP[type], exact, n); c.label("buffer too small"); return; }
  CHECK(r == NOSTR_OK, "encode %s -> %d", HRP[type], r); string t = o.p; c.note("text %s", t.c_str()); CHECK(t.compare(0, pre.size(), pre) == 0, "prefix"); string bare = t.substr(pre.size());
  if (type >= NOSTR_URI_NPROFILE) { vector<std::pair<int, string>> rec; CHECK(records(bare, HRP[type], &rec), "%s is not bech32 TLV", show(bare).c_str()); Ent g; g.type = type; int specials = 0; for (auto& p : rec) switch (p.first) { case 0: g.special = p.second; specials++; break; case 1: g.relays.push_back(p.second); break; case 2: g.author = p.second; break; case 3: CHECK(p.second.size() == 4, "kind record of %zu bytes", p.second.size()); g.has_kind = true; g.kind = 0; for (unsigned char ch : p.second) g.kind = g.kind << 8 | ch; break; default: CHECK(false, "record type %d", p.first); } string why; CHECK(specials == 1, "%d special records", specials); CHECK(eq(g, e, &why), "encoded records differ: %s", why.c_str()); }
  else { string h, b; CHECK(bech32_decode(bare, &h, &b) && h == HRP[type] && b == e.special, "%s", show(t).c_str()); }
  nostr_uri u; memset(&u, 0xa5, sizeof u); CStr ct(t); r = uri ? nostr_uri_parse(ct, &u) : decode_direct(type, ct, &u); CHECK(r == NOSTR_OK, "decode(encode) -> %d for %s", r, show(t, 300).c_str()); Ent g = read(u); string why; bool same = eq(g, e, &why); nostr_uri_free(&u); CHECK(same, "round trip: %s", why.c_str());
}
// A relay URL no record can hold is reported, not dropped
PROP(P08, oversized_relay, 1) { int type = NOSTR_URI_NPROFILE + (int)s.below(3); Ent e = g_ent(s, type); if (e.relays.size() > 14) e.relays.resize(3); string r = "wss://" + string(250 + s.below(300), 'a'); e.relays.insert(e.relays.begin() + s.below(e.relays.size() + 1), r); U x; fill(x, e); CBuf o(12000); nostr_error_t rc = encode_direct(type, &x.u, o.p, o.n); c.nontrivial(); c.sample(strf("relay of %zu bytes -> %d", r.size(), rc)); CHECK(rc != NOSTR_OK, "a relay URL of %zu bytes was accepted", r.size()); }
// An identifier that fills its array without a terminator cannot be encoded, and is not cut
PROP(P08, unterminated_identifier, 1) { Ent e = g_ent(s, NOSTR_URI_NADDR); U x; fill(x, e); for (auto& ch : x.u.data.naddr.identifier) ch = (char)s.range(0x20, 0x7e); CBuf o(12000); bool uri = s.flip(); nostr_error_t rc = uri ? nostr_uri_encode(&x.u, o.p, o.n) : encode_direct(NOSTR_URI_NADDR, &x.u, o.p, o.n); c.nontrivial(); CHECK(rc != NOSTR_OK, "an identifier of 256 bytes was encoded"); }
// Arbitrary record sequences from other implementations
PROP(P08, decode_foreign, 10) {
  int type = NOSTR_URI_NPROFILE + (int)s.below(4); vector<std::pair<int, string>> rec; Ent want; want.type = type; bool clean = true; int nsp = 0, nau = 0, nki = 0; Ent e = g_ent(s, type);
  rec.push_back({0, e.special}); if (!e.author.empty()) rec.push_back({2, e.author}); if (e.has_kind) { string k; for (int i = 3; i >= 0; i--) k += (char)(e.kind >> (8 * i)); rec.push_back({3, k}); }
  size_t nr = s.chance(1, 6) ? s.below(30) : e.relays.size(); for (size_t i = 0; i < nr; i++) { string u = s.chance(1, 6) ? g_bytes(s, 40) : g_relay(s); if (s.chance(1, 6)) { static const unsigned char odd[] = {0, 1, 9, 10, 0x1f, 0x20, 0x7f, 0x80, 0xff}; size_t at = s.below(u.size() + 1); u.insert(at, 1, (char)s.pick(odd)); } else if (s.chance(1, 8)) u = g_mut(s, u.substr(0, 7), 2); rec.push_back({1, u}); }
  for (size_t i = s.below(3); i--;) rec.push_back({(int)(4 + s.below(252)), g_bytes(s, s.chance(1, 8) ? 255 : 30)});       // unknown types must be skipped
  switch (s.below(8)) { case 0: rec[s.below(rec.size())].second = g_bytes(s, 40); break; case 1: rec.erase(rec.begin() + s.below(rec.size())); break; case 2: rec.push_back(rec[s.below(rec.size())]); break; case 3: rec.push_back({(int)s.below(4), g_bytes(s, 255)}); break; case 4: { auto& p = rec[s.below(std::min<size_t>(3, rec.size()))]; size_t z = p.second.size(); p.second = s.flip() ? p.second + g_bytes(s, s.flip() ? 3 : 200) : p.second.substr(0, z - std::min<size_t>(z, 1 + s.below(3))); break; } default: break; }
  if (s.flip()) for (size_t i = rec.size(); i > 1; i--) std::swap(rec[i - 1], rec[s.below(i)]);
  string b; for (auto& p : rec) { string v = p.second.substr(0, 255); b += (char)p.first; b += (char)v.size(); b += v; p.second = v; }
  bool trunc = s.chance(1, 8); if (trunc && !b.empty()) { b.resize(s.below(b.size())); }
  vector<uint8_t> groups = to5(b); if (s.chance(1, 10)) groups.push_back(s.chance(3, 4) ? 0 : (uint8_t)s.below(32)); string t = bech32_encode5(HRP[type], groups); if (s.chance(1, 10)) { size_t p = s.below(t.size()); t[p] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[s.below(32)]; } t = t.c_str();
  vector<std::pair<int, string>> R; bool wf = records(t, HRP[type], &R), badopt = false; Ent w; w.type = type; for (auto& p : R) switch (p.first) { case 0: nsp++; w.special = p.second; break; case 1: { bool ok = p.second.size() >= 6 && p.second.size() < 256 && (p.second.compare(0, 6, "wss://") == 0 || p.second.compare(0, 5, "ws://") == 0); for (unsigned char ch : p.second) if (ch < 0x21 || ch > 0x7e) ok = false; if (ok && w.relays.size() < 16 && type != NOSTR_URI_NRELAY) w.relays.push_back(p.second); break; } case 2: nau++; if (p.second.size() != 32) { badopt = true; break; } w.author = p.second; break; case 3: nki++; if (p.second.size() != 4) { badopt = true; break; } w.has_kind = true; w.kind = 0; for (unsigned char ch : p.second) w.kind = w.kind << 8 | ch; break; }
  if (nsp > 1 || nau > 1 || nki > 1) clean = false; if (w.special.find('\0') != string::npos && type >= NOSTR_URI_NADDR) clean = false; if (b.size() > 4000 || (type == NOSTR_URI_NRELAY && b.size() > 500)) clean = false; if (type == NOSTR_URI_NPROFILE || type == NOSTR_URI_NRELAY) { w.author.clear(); w.has_kind = false; w.kind = 0; }
  bool need = type == NOSTR_URI_NADDR ? !w.author.empty() && w.has_kind : type == NOSTR_URI_NRELAY ? nsp == 1 && !w.special.empty() : nsp == 1 && w.special.size() == 32;
  CStr ct("nostr:" + t); nostr_uri u; memset(&u, 0xa5, sizeof u); bool uri = s.flip(); nostr_error_t r = uri ? nostr_uri_parse(ct, &u) : decode_direct(type, ct.p + 6, &u); c.nontrivial(); c.label(HRP[type]); c.sample(strf("%s: %zu records, %zu bytes%s -> %d", HRP[type], rec.size(), b.size(), trunc ? " truncated" : "", r)); c.note("text %s", t.c_str());
  string hh, bb; bool bok = bech32_decode(t, &hh, &bb) && hh == HRP[type]; size_t rem = 0; if (bok && !wf) { size_t i = 0; while (i + 2 <= bb.size() && i + 2 + (uint8_t)bb[i + 1] <= bb.size()) i += 2 + (uint8_t)bb[i + 1]; rem = bb.size() - i; }
  if (r != NOSTR_OK) { c.label("refused"); if (wf && clean && need && (!badopt || type == NOSTR_URI_NPROFILE || type == NOSTR_URI_NRELAY)) CHECK(false, "refused a well-formed %s: %s", HRP[type], show(t, 300).c_str()); nostr_uri_free(&u); return; }
  c.label("accepted"); CHECK(bok, "accepted text that is not valid bech32: %s", show(t, 200).c_str()); CHECK(wf || rem == 1, "accepted a truncated record: %s", hex(bb).c_str()); Ent g = read(u); nostr_uri_free(&u);
  if (wf) { if (type != NOSTR_URI_NADDR) CHECK(nsp >= 1, "accepted a %s without its special record", HRP[type]); else CHECK(nau >= 1 && nki >= 1, "accepted naddr without author or kind"); }
  if (wf && clean) { CHECK(need, "accepted an incomplete or mis-sized %s", HRP[type]); string why; CHECK(eq(g, w, &why), "decoded %s: %s", HRP[type], why.c_str()); c.label("compared"); }
}
PROP(P08, uri_dispatch, 4) {   // scheme and type dispatch on arbitrary text
  int type = (int)s.below(7); Ent e = g_ent(s, type); string t = type <= NOSTR_URI_NOTE ? bech32_encode(HRP[type], e.special) : bech32_encode(HRP[type], tlv_of(e)); string pre = "nostr:", full; bool good = true;
  switch (s.below(7)) { case 0: full = pre + t; break; case 1: { static const char* bad[] = {"", "nostr", "nostr://", "web+nostr:", "nostr: ", " nostr:", "nostr:nostr:", "nost:"}; full = string(s.pick(bad)) + t; good = false; break; } case 2: full = pre + bech32_encode(HRP[s.below(7)], type <= NOSTR_URI_NOTE ? e.special : tlv_of(e)); good = false; break; case 3: full = pre + g_mut(s, t, 2); good = false; break; case 5: { string p2 = pre; p2[s.below(6)] = s.flip() ? "noNstr1:/ _;"[s.below(12)] : (char)(1 + s.below(255)); full = p2 + t; good = p2 == pre; break; } case 4: full = pre + t + g_text(s, 4); good = full == pre + t; break; default: full = pre + g_ascii(s, 90, "qpzry9x8gf2tvdw0s3jn54khce6mua7l1nevtaddrpubsco"); good = false; }
  full = full.c_str(); CStr cf(full); nostr_uri u; memset(&u, 0xa5, sizeof u); nostr_error_t r = nostr_uri_parse(cf, &u); c.nontrivial(); c.sample(show(full)); if (full == pre + t) good = true;
  if (good) CHECK(r == NOSTR_OK, "refused %s", show(full, 200).c_str());
  if (r == NOSTR_OK) { CHECK(full.compare(0, 6, "nostr:") == 0, "accepted %s", show(full).c_str()); string h, b; CHECK(bech32_decode(full.substr(6), &h, &b) && h == HRP[u.type], "accepted %s as type %d", show(full, 200).c_str(), u.type); if (good) { Ent g = read(u); string why; CHECK(eq(g, e, &why), "%s", why.c_str()); } c.label("accepted"); } else c.label("refused"); nostr_uri_free(&u);
}
