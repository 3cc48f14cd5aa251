// P36 NIP-44 sealing, P37 NIP-44 opening, P38 NIP-04
#include "enc.h"

static void self_check();
static int inited = (before_case = [] { static bool once = (self_check(), true); (void)once; rand_mode = 0; clock_virtual = false; nostr_init(); }, after_case = [] { rand_mode = 0; }, 0);
static size_t g_len44(Src& s) { switch (s.below(6)) { case 0: return 1 + s.below(80); case 1: { size_t p = (size_t)1 << (5 + s.below(11)); return std::min<size_t>(65535, std::max<int64_t>(1, (int64_t)p + s.range(-2, 2))); } case 2: { size_t n = 1 + s.below(65535), q = padded_len(n); return std::min<size_t>(65535, q + s.below(3) - 1); } case 3: return 1 + s.below(1200); case 4: { static const size_t b[] = {65535, 65534, 57344, 57345, 65533, 32768, 32769}; return s.pick(b); } default: return 1 + s.size(4000); } }
static string g_plain(Src& s, size_t n) { if (s.chance(1, 3)) { string t = g_text(s, 60); while (t.size() < n) t += t.empty() ? "x" : t; t.resize(n); return t; } if (s.chance(1, 6)) return string(n, (char)s.below(256)); return s.bulk(n); }
struct R44 { bool ok; string text; nostr_error_t e; };
static R44 lib_enc(const string& priv, const string& pub, const string& t) { nostr_privkey k = lpriv(priv); nostr_key p = lpub(pub); Raw r(t); char* out = nullptr; nostr_error_t e = nostr_nip44_encrypt(&k, &p, r.p, r.n, &out); CHECK((e == NOSTR_OK) == (out != nullptr), "encrypt -> %d with output %p", e, (void*)out); R44 x{e == NOSTR_OK, out ? out : "", e}; vf_free(out); return x; }
static R44 lib_dec(const string& priv, const string& pub, const string& t) { nostr_privkey k = lpriv(priv); nostr_key p = lpub(pub); CStr c(t); char* out = nullptr; size_t n = 12345; nostr_error_t e = nostr_nip44_decrypt(&k, &p, c, &out, &n); CHECK((e == NOSTR_OK) == (out != nullptr), "decrypt -> %d with output %p", e, (void*)out); R44 x{e == NOSTR_OK, out ? string(out, n) : "", e}; if (out) CHECK(out[n] == 0, "decrypted text is not terminated"); else CHECK(n == 12345 || n == 0, "a refused text has length %zu", n); vf_free(out); return x; }
struct Pair { Key a, b; string x; };
static Pair g_pair(Src& s) { Pair p; p.a = g_key(s); p.b = s.chance(1, 10) ? p.a : g_key(s); CHECK(ecdh_x(p.a.priv, p.b.pub, &p.x), "oracle: ecdh"); return p; }
static void self_check() {   // a vector of the NIP-44 text
  string a(32, 0), b(32, 0), pb, x, t; a[31] = 1; b[31] = 2; pub_of(b, &pb); ecdh_x(a, pb, &x); string n(32, 0); n[31] = 1; if (hex(hmac("SHA256", "nip44-v2", x)) != "c41c775356fd92eadc63ff5a0dc1da211b268cbea22316767095b2871ea1412d" || enc44(x, n, "a") != "AgAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAABee0G5VSK0/9YypIObAtDKfYEAjD35uVkHyB0F4DwrcNaCXlCWZKaArsGrY6M9wnuTMxWfp1RTN9Xga8no+kF5Vsb" || padded_len(257) != 320 || padded_len(65535) != 65536 || padded_len(515) != 640) { fprintf(stderr, "NIP-44 oracle is wrong\n"); abort(); } }

// ---------------------------------------------------------------- P36
PROP(P36, seal, 6) {
  Pair p = g_pair(s); size_t n = g_len44(s); string t = g_plain(s, n); c.label(n <= 32 ? "up to 32 bytes" : n <= 256 ? "up to 256" : n <= 4096 ? "up to 4096" : "longer"); c.nontrivial(); c.sample(strf("%zu bytes %s", n, vo::show(t, 40).c_str()));
  R44 r = lib_enc(p.a.priv, p.b.pub, t); CHECK(r.ok, "encrypting %zu bytes -> %d", n, r.e); string pl, got; CHECK(unb64(r.text, &pl) && b64(pl) == r.text, "not canonical base64: %s", vo::show(r.text).c_str()); CHECK(pl.size() == 65 + 2 + padded_len(n), "%zu bytes make a payload of %zu, not %zu", n, pl.size(), 67 + padded_len(n)); CHECK(pl[0] == 2, "version %d", pl[0]);
  CHECK(payload44(p.x, pl.substr(1, 32), pad44(t)) == pl, "the payload of %zu bytes is not that of NIP-44", n); R44 o = lib_dec(p.b.priv, p.a.pub, r.text), w = lib_dec(p.a.priv, p.b.pub, r.text); CHECK(o.ok && o.text == t, "%zu bytes: the recipient reads (%d) %zu bytes %s", n, o.e, o.text.size(), vo::show(o.text).c_str()); CHECK(w.ok && w.text == t, "%zu bytes: the sender reads (%d) %zu bytes", n, w.e, w.text.size());
}
PROP(P36, fresh, 1) { Pair p = g_pair(s); string t = g_plain(s, 1 + s.below(100)), n0; bool same[32]; memset(same, 1, sizeof same); for (int i = 0; i < 8; i++) { R44 r = lib_enc(p.a.priv, p.b.pub, t); string pl; CHECK(r.ok && unb64(r.text, &pl), "encrypt -> %d", r.e); string n = pl.substr(1, 32); if (i) for (int k = 0; k < 32; k++) if (n[k] != n0[k]) same[k] = false; if (!i) n0 = n; } for (int k = 0; k < 32; k++) CHECK(!same[k], "byte %d of the nonce is %02x in 8 encryptions", k, (uint8_t)n0[k]); c.nontrivial("nonces"); c.sample(strf("8 nonces, %zu bytes", t.size())); }
PROP(P36, refuse, 1) {
  Pair p = g_pair(s); string t = g_plain(s, 1 + s.below(200)), priv = p.a.priv, pub = p.b.pub; const char* what; int mode = (int)s.below(5); auto un = defer([] { rand_mode = 0; });
  if (mode == 0) { t = ""; what = "empty text"; } else if (mode == 1) { t = s.bulk(65536 + s.size(70000)); what = "long text"; } else if (mode == 2) { pub = bad_pub(s); what = "invalid public key"; } else if (mode == 3) { priv = bad_priv(s); what = "invalid private key"; } else {
#ifdef VF_MBEDTLS
    throw Discard();
#endif
    rand_mode = 2; rand_fail_after = 0; rand_calls = 0; what = "no randomness"; }
  R44 r = lib_enc(priv, pub, t); CHECK(!r.ok, "%s: encrypted to %s", what, r.text.c_str()); c.nontrivial(what); c.sample(what);
}
PROP(P36, bounds, 1) {   // configured limits
  Pair p = g_pair(s); nostr_config k; nostr_config_get_defaults(&k); k.nip44_min_plaintext_size = 1 + (uint32_t)s.size(300); k.nip44_max_plaintext_size = k.nip44_min_plaintext_size + (uint32_t)s.size(2000); size_t lo = k.nip44_min_plaintext_size, hi = k.nip44_max_plaintext_size; vector<size_t> ls = {lo, hi, hi + 1}; if (lo > 1) ls.push_back(lo - 1); c.nontrivial("configured limits"); c.sample(strf("%zu..%zu", lo, hi));
  forked([&] { CHECK(nostr_init_with_config(&k) == NOSTR_OK, "init"); for (size_t n : ls) { string t(n, 'q'); R44 r = lib_enc(p.a.priv, p.b.pub, t); CHECK(r.ok == (n >= lo && n <= hi), "limits %zu..%zu, %zu bytes: %d", lo, hi, n, r.e); R44 o = lib_dec(p.b.priv, p.a.pub, enc44(p.x, string(32, 5), t)); if (n > hi) CHECK(!o.ok, "limit %zu, %zu bytes decrypted", hi, n); else if (n >= lo) CHECK(o.ok && o.text == t, "limits %zu..%zu, %zu bytes: decrypt -> %d", lo, hi, n, o.e); } });
}
PROP(P36, memory, 1) { Pair p = g_pair(s); string t = g_plain(s, 1 + s.below(300)), ct = enc44(p.x, s.bulk(32), t); c.nontrivial("allocation failures"); c.sample(strf("%zu bytes", t.size())); with_faults(s, "encrypt", [&] { R44 r = lib_enc(p.a.priv, p.b.pub, t); string got; bool ok = r.ok && open44(p.x, r.text, &got); CHECK(r.ok == ok, "not a payload: %s", r.text.c_str()); return std::make_pair(r.ok, got); }); with_faults(s, "decrypt", [&] { R44 r = lib_dec(p.b.priv, p.a.pub, ct); return std::make_pair(r.ok, r.text); }); }

// ---------------------------------------------------------------- P37
PROP(P37, open, 4) { Pair p = g_pair(s); size_t n = g_len44(s); string t = g_plain(s, n), ct = enc44(p.x, s.bulk(32), t); c.nontrivial(n <= 256 ? "foreign, up to 256" : n <= 4096 ? "foreign, up to 4096" : "foreign, longer"); c.sample(strf("%zu bytes", n)); R44 r = s.flip() ? lib_dec(p.b.priv, p.a.pub, ct) : lib_dec(p.a.priv, p.b.pub, ct); CHECK(r.ok, "a proper payload of %zu bytes is refused (%d)", n, r.e); CHECK(r.text == t, "%zu bytes read as %zu: %s", n, r.text.size(), vo::show(r.text).c_str()); }
PROP(P37, refuse, 8) {
  Pair p = g_pair(s); size_t n = s.chance(1, 4) ? g_len44(s) : 1 + s.below(300); string t = g_plain(s, n), nonce = s.bulk(32), pl = payload44(p.x, nonce, pad44(t)), text, priv = p.b.priv, pub = p.a.pub; const char* what = "?";
  switch (s.below(13)) {
    case 12: { text = b64(pl); size_t at = text.find_first_of("+/"); REQUIRE_CASE(at != string::npos); bool all = s.flip(); for (; at != string::npos; at = text.find_first_of("+/", at)) { text[at] = text[at] == '+' ? '-' : '_'; if (!all) break; } what = "another alphabet"; break; }
    case 0: { size_t i = s.below(pl.size()); pl[i] ^= (char)(1 << s.below(8)); text = b64(pl); what = "bit flipped"; break; }
    case 1: pl.resize(s.chance(1, 3) ? s.below(pl.size()) : pl.size() - 1 - s.below(std::min<size_t>(pl.size() - 1, 33))); text = b64(pl); what = "truncated"; break;
    case 2: pl += s.bulk(1 + s.below(40)); text = b64(pl); what = "extended"; break;
    case 3: { char v = (char)s.below(256); if (v == 2) v = 1; text = b64(payload44(p.x, nonce, pad44(t), v)); what = "other version"; break; }
    case 4: { string q = pad44(t); size_t v = s.below(4) == 0 ? 0 : s.flip() ? n + 1 + s.below(2000) : s.below(n); q[0] = (char)(v >> 8); q[1] = (char)v; text = b64(payload44(p.x, nonce, q)); what = "wrong length prefix"; break; }
    case 5: { string q = pad44(t); if (s.flip()) q += string(32 * (1 + s.below(4)), 0); else if (s.flip()) q += string(1 + s.below(31), 0); else q.resize(2 + s.below(q.size() - 2)); text = b64(payload44(p.x, nonce, q)); what = "wrong padding"; break; }
    case 6: { Key o = g_key(s); string x; if (s.flip()) priv = o.priv; else pub = o.pub; text = b64(pl); what = "other key"; break; }
    case 7: { text = b64(pl); static const char* j[] = {"=", "*", " ", "\n", "-", "_", "\xd1\x84", "A", "===", "."}; string k = s.pick(j); size_t at = s.below(text.size() + 1); if (s.flip()) at = text.size(); if (s.flip() && at < text.size()) text.replace(at, 1, k); else text.insert(at, k); what = "damaged base64"; break; }
    case 8: text = g_mut(s, b64(pl), 3); text = text.c_str(); what = "mutated text"; break;
    case 9: text = s.flip() ? "" : s.flip() ? "#" + b64(pl) : g_cstr(s, 300); what = "garbage"; break;
    case 10: { text = b64(pl); while (!text.empty() && text.back() == '=') text.pop_back(); if (s.flip()) text.resize(text.size() - s.below(std::min<size_t>(4, text.size()))); what = "unpadded base64"; break; }
    default: { string nn = s.bulk(32); text = b64(string(1, 2) + nn + pl.substr(33)); what = "other nonce"; break; }
  }
  string x, want; bool ok = ecdh_x(priv, pub, &x) && open44(x, text, &want); c.label(ok ? "still proper" : what); c.nontrivial(); c.sample(string(what) + " " + vo::show(text, 60)); R44 r = lib_dec(priv, pub, text); CHECK(r.ok == ok, "%s (%zu bytes): decrypt -> %d, %s\n  text %s", what, n, r.e, ok ? "but it is proper" : "but it is not a payload for this key", vo::show(text, 300).c_str()); if (ok) CHECK(r.text == want, "%s: another text", what);
}
PROP(P37, any_order, 2) {   // near twins of one payload, between keys that are near twins, in any order: each is read as what it is
  struct Tw { string priv, pub, text; bool ok; string want; }; Pair p = g_pair(s); string t = g_plain(s, 1 + s.below(120)), pl = payload44(p.x, s.bulk(32), pad44(t)); vector<Tw> v{{p.b.priv, p.a.pub, b64(pl), true, t}}; Tw base = v[0];
  for (unsigned i = 2 + (unsigned)s.below(5); i; i--) { Tw w = base; switch (s.below(7)) { case 0: { string q = pl; q[33 + s.below(q.size() - 33)] ^= (char)(1 << s.below(8)); w.text = b64(q); break; } case 1: { string q = pl; q[1 + s.below(32)] ^= (char)(1 << s.below(8)); w.text = b64(q); break; } case 2: w.priv[31] ^= (char)(1 << s.below(8)); break; case 3: w.pub = g_key(s).pub; break; case 4: { string t2 = t; t2[s.below(t2.size())] ^= 1; w.text = b64(payload44(p.x, pl.substr(1, 32), pad44(t2))); break; } case 5: w.priv[31] ^= (char)(1 << s.below(8)); { string x; if (ecdh_x(w.priv, w.pub, &x)) w.text = b64(payload44(x, pl.substr(1, 32), pad44(t))); } break; default: w.text = b64(payload44(p.x, s.bulk(32), pad44(t))); } string x; w.want = ""; w.ok = ecdh_x(w.priv, w.pub, &x) && open44(x, w.text, &w.want); v.push_back(w); }
  c.nontrivial("near twins"); c.sample(strf("%zu near twins", v.size())); for (unsigned i = 3 + (unsigned)s.below(8); i; i--) { size_t n = s.below(v.size()); R44 r = lib_dec(v[n].priv, v[n].pub, v[n].text); CHECK(r.ok == v[n].ok && (!r.ok || r.text == v[n].want), "twin %zu: decrypt -> %d after others, %s", n, r.e, v[n].ok ? "but it is proper" : "but it is not a payload for this key"); if (s.flip()) { string x, got; CHECK(ecdh_x(v[n].priv, v[n].pub, &x), "oracle: ecdh"); R44 e = lib_enc(v[n].priv, v[n].pub, t); CHECK(e.ok && open44(x, e.text, &got) && got == t, "what was encrypted for twin %zu is not for its keys", n); } }
}
PROP(P37, keys, 1) { Pair p = g_pair(s); string t = g_plain(s, 1 + s.below(100)), ct = enc44(p.x, s.bulk(32), t), priv = p.b.priv, pub = p.a.pub; bool a = s.flip(); if (a) priv = bad_priv(s); else pub = bad_pub(s); R44 r = lib_dec(priv, pub, ct); CHECK(!r.ok, "decrypts under an invalid key"); c.nontrivial(a ? "invalid private key" : "invalid public key"); c.sample("invalid key"); }

// ---------------------------------------------------------------- P38
static R44 enc04(const string& priv, const string& pub, const string& t) { nostr_privkey k = lpriv(priv); nostr_key p = lpub(pub); CStr m(t); char* out = nullptr; nostr_error_t e = nostr_nip04_encrypt(&k, &p, m, &out); CHECK((e == NOSTR_OK) == (out != nullptr), "encrypt -> %d with output %p", e, (void*)out); R44 x{e == NOSTR_OK, out ? out : "", e}; vf_free(out); return x; }
static R44 dec04(const string& priv, const string& pub, const string& t) { nostr_privkey k = lpriv(priv); nostr_key p = lpub(pub); CStr m(t); char* out = nullptr; nostr_error_t e = nostr_nip04_decrypt(&k, &p, m, &out); CHECK((e == NOSTR_OK) == (out != nullptr), "decrypt -> %d with output %p", e, (void*)out); R44 x{e == NOSTR_OK, out ? out : "", e}; vf_free(out); return x; }
#ifdef VF_MBEDTLS
PROP(P38, absent, 1) { Pair p = g_pair(s); R44 r = enc04(p.a.priv, p.b.pub, g_cstr(s, 50)), d = dec04(p.a.priv, p.b.pub, g_cstr(s, 50)); c.label("mbedTLS: not supported"); CHECK(!r.ok && !d.ok && r.e == NOSTR_ERR_NOT_SUPPORTED && d.e == NOSTR_ERR_NOT_SUPPORTED, "%d %d", r.e, d.e); }
#else
PROP(P38, seal, 4) {
  Pair p = g_pair(s); string t = s.chance(1, 4) ? string(s.size(20000), 'm') : s.chance(1, 3) ? string(16 * s.below(6) + s.below(3), 'z') : g_cstr(s, 200); c.nontrivial(t.empty() ? "empty" : t.size() % 16 ? "partial block" : "whole blocks"); c.sample(strf("%zu bytes %s", t.size(), vo::show(t, 40).c_str()));
  R44 r = enc04(p.a.priv, p.b.pub, t), r2 = enc04(p.a.priv, p.b.pub, t); CHECK(r.ok && r2.ok, "encrypt -> %d", r.e); string got; CHECK(open04(p.x, r.text, &got) && got == t, "not the NIP-04 form of the text: %s", vo::show(r.text).c_str()); CHECK(r.text.substr(r.text.find("?iv=")) != r2.text.substr(r2.text.find("?iv=")), "the same IV twice"); for (int i = 0; i < 2; i++) { R44 o = i ? dec04(p.b.priv, p.a.pub, r.text) : dec04(p.a.priv, p.b.pub, r.text); CHECK(o.ok && o.text == t, "read back (%d) as %s", o.e, vo::show(o.text).c_str()); }
}
PROP(P38, open, 8) {
  Pair p = g_pair(s); string t = g_cstr(s, 150), iv = s.bulk(16), priv = p.b.priv, pub = p.a.pub; bool ok; string ct = aes_cbc(true, p.x, iv, t, &ok), text; const char* what = "foreign";
  switch (s.below(9)) { case 0: case 1: text = b64(ct) + "?iv=" + b64(iv); break; case 2: { ct[s.below(ct.size())] ^= (char)(1 << s.below(8)); text = b64(ct) + "?iv=" + b64(iv); what = "bit flipped"; break; } case 3: if (s.flip()) ct.resize(s.below(ct.size())); else ct += s.bulk(1 + s.below(20)); text = b64(ct) + "?iv=" + b64(iv); what = "other length"; break; case 4: if (s.flip()) iv.resize(s.below(16)); else iv += s.bulk(1 + s.below(20)); text = b64(ct) + "?iv=" + b64(iv); what = "other IV length"; break;
    case 5: { static const char* sep[] = {"", "?iv", "?IV=", "&iv=", "?iv=?iv=", "?iv= ", "?iv=\n"}; text = b64(ct) + s.pick(sep) + b64(iv); what = "other separator"; break; } case 6: { text = b64(ct) + "?iv=" + b64(iv); static const char* j[] = {"=", "*", " ", "\n", "-", "A", "?", "&x"}; string k = s.pick(j); size_t at = s.flip() ? text.size() : s.below(text.size()); if (s.flip() && at < text.size()) text.replace(at, 1, k); else text.insert(at, k); what = "damaged base64"; break; } case 7: text = g_mut(s, b64(ct) + "?iv=" + b64(iv), 3); text = text.c_str(); what = "mutated"; break; default: { static const char* g[] = {"", "?iv=", "A?iv=", "?iv=AAAAAAAAAAAAAAAAAAAAAA==", "AAAA?iv=", "====?iv=====", "!!!!?iv=!!!!", "AAAAAAAAAAAAAAAAAAAAAA==?iv=*"}; text = s.pick(g); what = "fixed"; } }
  if (s.chance(1, 12)) { priv = g_key(s).priv; what = "other key"; } string x, want; bool good = ecdh_x(priv, pub, &x) && open04(x, text, &want); if (good) want = want.c_str(); c.label(good ? "proper" : what); c.nontrivial(); c.sample(string(what) + " " + vo::show(text, 60)); R44 r = dec04(priv, pub, text);
  CHECK(r.ok == good, "%s: decrypt -> %d, %s\n  text %s", what, r.e, good ? "but it is proper" : "but it is no NIP-04 message for this key", vo::show(text, 300).c_str()); if (good) CHECK(r.text == want, "%s: read as %s instead of %s", what, vo::show(r.text).c_str(), vo::show(want).c_str());
}
PROP(P38, refuse, 1) { Pair p = g_pair(s); string t = g_cstr(s, 60), priv = p.a.priv, pub = p.b.pub; int m = (int)s.below(3); auto un = defer([] { rand_mode = 0; }); if (m == 0) priv = bad_priv(s); else if (m == 1) pub = bad_pub(s); else { rand_mode = 2; rand_fail_after = 0; rand_calls = 0; } c.nontrivial(m == 2 ? "no randomness" : "invalid key"); c.sample("refused"); CHECK(!enc04(priv, pub, t).ok, "mode %d: encrypted", m); rand_mode = 0; if (m < 2) { bool ok; string iv(16, 1); CHECK(!dec04(priv, pub, b64(aes_cbc(true, p.x, iv, t, &ok)) + "?iv=" + b64(iv)).ok, "decrypts under an invalid key"); } }
PROP(P38, memory, 1) { Pair p = g_pair(s); string t = g_cstr(s, 100), iv = s.bulk(16); bool ok; string ct = b64(aes_cbc(true, p.x, iv, t, &ok)) + "?iv=" + b64(iv); c.nontrivial("allocation failures"); c.sample("memory"); with_faults(s, "encrypt", [&] { R44 r = enc04(p.a.priv, p.b.pub, t); return std::make_pair(r.ok, r.text); }); with_faults(s, "decrypt", [&] { R44 r = dec04(p.b.priv, p.a.pub, ct); return std::make_pair(r.ok, r.text); }); }
#endif
