// P46 secrets leave no trace
#include "enc.h"
#include <memory>
#include <set>
#include <unordered_map>
#include <malloc.h>
#include <sys/mman.h>
#include <ucontext.h>
#include "bip39_words.h"

extern "C" long vs_fail;                       // the n-th call to a cryptographic function fails; counts down
static const int64_t NOW = 1700000000;
static int inited = (mallopt(M_PERTURB, 0xa5), before_case = [] { rand_mode = 0; vs_fail = 0; nostr_init(); clock_virtual = true; clock_now = NOW; scrypt_stub = true; }, after_case = [] { rand_mode = 0; vs_fail = 0; freeing = nullptr; rand_log = nullptr; clock_virtual = false; scrypt_stub = false; heap_reset(); }, 0);

// ---- what is looked for: eight-byte pieces of every secret
struct Hunt {
  struct Piece { string what, bytes; };   // bytes: what must follow, so that a chance match is out of the question
  vector<uint64_t> keys; std::unordered_map<uint64_t, Piece> where; vector<bool> bloom = vector<bool>(65536); std::set<string> names;
  void add(const string& name, const string& b, size_t len = 8) {
    names.insert(name); for (size_t i = 0; i + len <= b.size(); i += 2) { std::set<char> d(b.begin() + (long)i, b.begin() + (long)i + 8); if (d.size() < (len > 8 ? 4 : 5)) continue; uint64_t v; memcpy(&v, b.data() + i, 8); where.emplace(v, Piece{name + strf(" (bytes %zu-%zu)", i, i + len - 1), b.substr(i, len)}); bloom[v & 65535] = true; }
  }
  void add_key(const string& name, const string& b) { add(name, b); if (b.size() != 32) return; add(name + " in hex", vo::hex(b), 18); auto v = to5(b); add(name + " in 5-bit groups", string(v.begin(), v.end()), 14); add(name + " in bech32", bech32_encode("nsec", b), 14); }
  string in(const void* p, size_t n) const { const uint8_t* q = (const uint8_t*)p; for (size_t i = 0; i + 8 <= n; i++) { uint64_t v; memcpy(&v, q + i, 8); if (!v || !bloom[v & 65535]) continue; auto it = where.find(v); if (it != where.end() && i + it->second.bytes.size() <= n && !memcmp(q + i, it->second.bytes.data(), it->second.bytes.size())) return it->second.what + strf(" at %zu of %zu", i, n); } return ""; }
};
// ---- a stack of its own for the library
static const size_t STK = 2 << 20; static uint8_t* stk; static ucontext_t back, there; static const std::function<void()>* job; static uint8_t* top;
static void __attribute__((noinline)) entry() { volatile char mark = 0; top = (uint8_t*)&mark; (*job)(); }
static void on_stack(const std::function<void()>& f) {
  if (!stk) stk = (uint8_t*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t lo = 0; while (lo < STK && !*(uint64_t*)(stk + lo)) lo += 8; memset(stk + lo, 0, STK - lo); job = &f; getcontext(&there); there.uc_stack.ss_sp = stk; there.uc_stack.ss_size = STK; there.uc_link = &back; makecontext(&there, entry, 0); swapcontext(&back, &there);
}
static vector<string>* freed;   // blocks that looked non-empty when released
struct Out { void* p; size_t n; };
struct Op {
  string name; std::function<bool()> run; std::function<void()> reset = [] {}; vector<std::pair<string, string>> secrets; std::function<vector<std::pair<string, string>>()> learn; vector<Out> outs; bool random = false;   // outs: must not hold secrets after a failure
};
static void look(const Op& o, const Hunt& h, bool ok, const string& how) {
  size_t lo = 0; while (lo < STK && !*(uint64_t*)(stk + lo)) lo += 8; string w = h.in(stk + lo, (size_t)(top - (stk + lo))); CHECK(w.empty(), "%s%s -> %s: the stack it used still holds %s", o.name.c_str(), how.c_str(), ok ? "done" : "failed", w.c_str());
  for (auto& b : *freed) { w = h.in(b.data(), b.size()); CHECK(w.empty(), "%s%s -> %s: memory released with %s", o.name.c_str(), how.c_str(), ok ? "done" : "failed", w.c_str()); }
  if (!ok) for (auto& x : o.outs) { w = h.in(x.p, x.n); CHECK(w.empty(), "%s%s failed: its output holds %s", o.name.c_str(), how.c_str(), w.c_str()); }
}
static void hunt(Src& s, Ctx& c, Op& o, const std::function<void()>& rnd = [] { rand_mode = 1; rand_seed(11); }) {
  Hunt h; for (auto& x : o.secrets) h.add_key(x.first, x.second); vector<string> released; freed = &released;
  auto once = [&](long crypto, long rnd_after, long heap, bool sticky, long* ncrypto, long* nrand, long* nheap) {
    released.clear(); o.reset(); for (auto& x : o.outs) memset(x.p, 0xee, x.n); heap_reset(); rnd(); if (rnd_after >= 0) { rand_mode = rand_mode == 3 ? 5 : 2; rand_fail_after = rnd_after; } rand_calls = 0; if (heap >= 0) { if (sticky) heap_fail_from(heap); else heap_fail_at(heap); } else heap_fail_at(-1);
    freeing = [](const void* p, size_t n) { if (freed->size() < 4000) freed->emplace_back((const char*)p, n); }; vs_fail = crypto; bool ok = false; on_stack([&] { ok = o.run(); }); if (ncrypto) *ncrypto = crypto - vs_fail; vs_fail = 0; freeing = nullptr; if (nrand) *nrand = rand_calls; if (nheap) *nheap = heap_count(); heap_fail_at(-1); rand_mode = 0; return ok;
  };
  long nc, nr, nh; vector<string> log; rand_log = &log; bool ok = once(0, -1, -1, false, &nc, &nr, &nh); rand_log = nullptr; if (o.learn) for (auto& x : o.learn()) h.add_key(x.first, x.second); look(o, h, ok, ""); c.nontrivial(o.name.c_str()); c.sample(strf("%s: %ld calls to primitives, %ld draws, %ld allocations; secrets:", o.name.c_str(), nc, nr, nh) + [&] { string t; for (auto& n : h.names) t += " " + n; return t; }());
  auto places = [&](long n, size_t max) { vector<long> k; if (n <= (long)max) for (long i = 0; i < n; i++) k.push_back(i); else while (k.size() < max) k.push_back((long)s.below((uint64_t)n)); return k; };
  for (long k : places(nc, 8)) { ok = once(k + 1, -1, -1, false, nullptr, nullptr, nullptr); look(o, h, ok, strf(" (primitive %ld of %ld failing)", k, nc)); }
  for (long k : places(nr, 4)) { ok = once(0, k, -1, false, nullptr, nullptr, nullptr); look(o, h, ok, strf(" (draw %ld of %ld failing)", k, nr)); }
  for (long k : places(nh, 8)) { ok = once(0, -1, k, s.flip(), nullptr, nullptr, nullptr); look(o, h, ok, strf(" (allocation %ld of %ld failing)", k, nh)); }
  o.reset();
}
static Key rkey(Src& s) { static uint64_t n; for (;;) { Key k; k.priv = sha256(s.bulk(32) + strf("%llu", (unsigned long long)n++)); if (pub_of(k.priv, &k.pub)) return k; } }
static string B(const void* p, size_t n) { return string((const char*)p, n); }

PROP(P46, keys, 4) {
  Key k = rkey(s), other = rkey(s); nostr_privkey pk = lpriv(k.priv), op; nostr_key qk = lpub(other.pub), oq; nostr_keypair kp; uint8_t sh[32]; char hx[65]; string x; ecdh_x(k.priv, other.pub, &x); Op o; o.secrets = {{"private key", k.priv}}; string bad(s.below(4), (char)0xff); for (size_t i = 0; i < bad.size(); i++) bad[i] = (char)0xff;
  string script; for (size_t i = s.below(3); i; i--) script += string(32, (char)0xff); script += k.priv; auto scripted = [&] { rand_mode = 3; rand_script = script; };
  string h = hex(k.priv); if (s.chance(1, 4)) h[s.below(64)] = 'g'; else if (s.chance(1, 6)) h = h.substr(0, 62); CStr ch(h); CStr b(bech32_encode("nsec", k.priv));
  char txt[100]; size_t room = s.chance(3, 4) ? sizeof txt : s.below(70), hroom = s.chance(3, 4) ? 65 : s.below(65);
  switch (s.below(12)) {
    case 9: o.name = "nostr_privkey_to_bech32"; o.outs = {{txt, sizeof txt}}; o.run = [&] { return nostr_privkey_to_bech32(&pk, txt, room) == NOSTR_OK; }; hunt(s, c, o); break;
    case 10: o.name = "nostr_privkey_to_hex"; o.outs = {{hx, sizeof hx}}; o.run = [&] { return nostr_privkey_to_hex(&pk, hx, hroom) == NOSTR_OK; }; hunt(s, c, o); break;
    case 11: o.name = "nostr_keypair_export_private_hex"; o.outs = {{hx, sizeof hx}}; o.reset = [&] { nostr_keypair_from_private_key(&kp, &pk); }; o.run = [&] { return nostr_keypair_export_private_hex(&kp, hx, hroom) == NOSTR_OK; }; hunt(s, c, o); break;
    case 0: o.name = "nostr_key_generate"; o.outs = {{&op, sizeof op}}; o.run = [&] { return nostr_key_generate(&op, &oq) == NOSTR_OK; }; hunt(s, c, o, scripted); break;
    case 1: o.name = "nostr_keypair_generate"; o.outs = {{&kp, sizeof kp}}; o.run = [&] { return nostr_keypair_generate(&kp) == NOSTR_OK; }; hunt(s, c, o, scripted); break;
    case 2: o.name = "nostr_keypair_from_private_hex"; o.outs = {{&kp, sizeof kp}}; o.run = [&] { return nostr_keypair_from_private_hex(&kp, ch) == NOSTR_OK; }; hunt(s, c, o); break;
    case 3: o.name = "nostr_keypair_from_private_key"; o.outs = {{&kp, sizeof kp}}; o.run = [&] { return nostr_keypair_from_private_key(&kp, &pk) == NOSTR_OK; }; hunt(s, c, o); break;
    case 4: o.name = "nostr_keypair_destroy"; o.reset = [&] { nostr_keypair_from_private_key(&kp, &pk); }; o.run = [&] { nostr_keypair_destroy(&kp); return true; }; hunt(s, c, o); nostr_keypair_from_private_key(&kp, &pk); { Hunt q; q.add("private key", k.priv); nostr_keypair_destroy(&kp); string w = q.in(&kp, sizeof kp); CHECK(w.empty(), "a destroyed key pair holds %s", w.c_str()); } break;
    case 5: o.name = "nostr_privkey_from_hex"; o.outs = {{&op, sizeof op}}; o.run = [&] { return nostr_privkey_from_hex(ch, &op) == NOSTR_OK; }; hunt(s, c, o); break;
    case 6: o.name = "nostr_keypair_validate"; o.reset = [&] { nostr_keypair_from_private_key(&kp, &pk); }; o.run = [&] { return nostr_keypair_validate(&kp) == NOSTR_OK; }; hunt(s, c, o); break;
    case 7: o.name = "nostr_key_ecdh"; o.secrets.push_back({"shared x", x}); o.outs = {{sh, 32}}; o.run = [&] { return nostr_key_ecdh(&pk, &qk, sh) == NOSTR_OK; }; hunt(s, c, o); break;
    case 8: o.name = "nostr_privkey_from_bech32"; o.outs = {{&op, sizeof op}}; o.run = [&] { return nostr_privkey_from_bech32(b, &op) == NOSTR_OK; }; hunt(s, c, o); break;
  }
}
PROP(P46, uri, 1) {
  Key k = rkey(s); CStr u("nostr:" + bech32_encode("nsec", k.priv)); nostr_uri r; memset(&r, 0, sizeof r); Op o; o.secrets = {{"private key", k.priv}};
  if (s.flip()) { o.name = "nostr_uri_parse"; o.outs = {{&r, sizeof r}}; o.run = [&] { return nostr_uri_parse(u, &r) == NOSTR_OK; }; hunt(s, c, o); }
  else { o.name = "nostr_uri_free"; o.reset = [&] { nostr_uri_parse(u, &r); }; o.run = [&] { nostr_uri_free(&r); return true; }; hunt(s, c, o); CHECK(nostr_uri_parse(u, &r) == NOSTR_OK, "nsec URI refused"); nostr_uri_free(&r); Hunt q; q.add("private key", k.priv); string w = q.in(&r, sizeof r); CHECK(w.empty(), "a released URI holds %s", w.c_str()); }
}
PROP(P46, sign, 2) {
  Key k = rkey(s), d = rkey(s); nostr_privkey pk = lpriv(k.priv); nostr_key dk = lpub(d.pub); Op o; o.secrets = {{"private key", k.priv}};
  if (s.flip()) { Ev e = g_ev(s); e.content = e.content.substr(0, 0) + "x"; EvPtr x; o.name = "nostr_event_sign"; o.reset = [&] { if (x.e) nostr_event_destroy(x.e); x.e = lib_event(e); }; o.run = [&] { return nostr_event_sign(x.e, &pk) == NOSTR_OK; }; hunt(s, c, o); }
  else { nostr_delegation g; memset(&g, 0, sizeof g); bool made = false; o.name = "nostr_delegation_create"; o.reset = [&] { if (made) nostr_delegation_free(&g); made = false; }; o.run = [&] { return made = nostr_delegation_create(&pk, &dk, "kind=1&created_at>5", &g) == NOSTR_OK; }; hunt(s, c, o); }
}
PROP(P46, hd, 3) {
  string seed = s.bulk(16 + s.below(49)); nostr_hd_key m, ch; nostr_keypair kp; Raw sd(seed); Op o; CHECK(nostr_hd_key_from_seed((uint8_t*)sd.p, sd.n, &m) == NOSTR_OK, "seed refused"); auto keyof = [](const char* n, const nostr_hd_key& k) { return vector<std::pair<string, string>>{{string(n) + " key", B(k.privkey.data, 32)}, {string(n) + " chain code", B(k.chain_code, 32)}}; }; uint32_t i = (uint32_t)s.u64(4);
  switch (s.below(4)) {
    case 0: o.name = "nostr_hd_key_from_seed"; o.secrets = keyof("master", m); o.secrets.push_back({"seed", seed}); o.outs = {{&ch, sizeof ch}}; o.run = [&] { return nostr_hd_key_from_seed((uint8_t*)sd.p, sd.n, &ch) == NOSTR_OK; }; hunt(s, c, o); break;
    case 1: o.name = "nostr_hd_key_derive"; o.secrets = keyof("parent", m); o.outs = {{&ch, sizeof ch}}; o.run = [&] { return nostr_hd_key_derive(&m, i, &ch) == NOSTR_OK; }; o.learn = [&] { return keyof("child", ch); }; hunt(s, c, o); break;
    case 2: { static const char* p[] = {"m", "m/0", "m/1'/2", "m/44'/1237'/0'/0/0", "m/0/x", "m/1/2/99999999999"}; CStr path(s.pick(p)); o.name = "nostr_hd_key_derive_path"; o.secrets = keyof("master", m); o.outs = {{&ch, sizeof ch}}; o.run = [&] { return nostr_hd_key_derive_path(&m, path, &ch) == NOSTR_OK; };
      { nostr_hd_key a = m, b; string t = (const char*)path; size_t q = 1; int lv = 0; while (q < t.size() && t[q] == '/') { char* e; unsigned long v = strtoul(t.c_str() + q + 1, &e, 10); if (v > 0x7fffffff) break; uint32_t ix = (uint32_t)v; if (*e == '\'') { ix |= 0x80000000; e++; } if (e == t.c_str() + q + 1 || nostr_hd_key_derive(&a, ix, &b) != NOSTR_OK) break; for (auto& x : keyof(strf("level %d", ++lv).c_str(), b)) o.secrets.push_back(x); a = b; q = (size_t)(e - t.c_str()); } } hunt(s, c, o); break; }
    case 3: o.name = "nostr_hd_key_to_keypair"; o.secrets = keyof("master", m); o.outs = {{&kp, sizeof kp}}; o.run = [&] { return nostr_hd_key_to_keypair(&m, &kp) == NOSTR_OK; }; hunt(s, c, o); break;
  }
}
PROP(P46, mnemonic, 2) {
  bool w24 = s.flip(); string ent = s.bulk(w24 ? 32 : 16), full = ent + sha256(ent)[0], text; vector<int> ix; for (int i = 0; i < (w24 ? 24 : 12); i++) { int v = 0; for (int b = 0; b < 11; b++) { int q = i * 11 + b; v = v << 1 | ((uint8_t)full[(size_t)q / 8] >> (7 - q % 8) & 1); } ix.push_back(v); }
  for (size_t i = 0; i < ix.size(); i++) text += (i ? " " : "") + string(BIP39[ix[i]]); string pass = g_ascii(s, 0, "x"); { static const char al[] = "abcdefghijkmnopqrstuvwxyz23456789"; string r = s.bulk(24); for (char q : r) pass += al[(uint8_t)q % 33]; }
  string given = text; size_t dmg = s.below(5); if (dmg == 1) given += " zzz"; if (dmg == 2) given += " zoo"; if (dmg == 3) given = text.substr(0, text.rfind(' ')) + " " + BIP39[(ix.back() + 1) % 2048]; CStr m(given), p(pass); bool hp = s.chance(3, 4); const char* pp = hp ? (const char*)p : nullptr; nostr_keypair kp; uint8_t seed[64]; char out[300]; Op o; o.secrets = {{"entropy", ent}, {"mnemonic", given}, {"passphrase", pass}};
  switch (s.below(8)) {
    case 0: case 1: { size_t room = s.flip() ? sizeof out : s.below(text.size()); o.name = "nostr_mnemonic_generate"; o.run = [&, room] { return nostr_mnemonic_generate(w24 ? 24 : 12, out, room) == NOSTR_OK; }; o.secrets = {{"entropy", ent}, {"mnemonic", text}}; o.outs = {{out, room}}; hunt(s, c, o, [&] { rand_mode = 3; rand_script = ent; }); break; }
    case 2: case 3: case 4: o.name = "nostr_mnemonic_validate"; o.run = [&] { return nostr_mnemonic_validate(m) == NOSTR_OK; }; hunt(s, c, o); break;
    case 5: case 6: o.name = "nostr_mnemonic_to_seed"; o.outs = {{seed, 64}}; o.run = [&] { return nostr_mnemonic_to_seed(m, pp, seed) == NOSTR_OK; }; o.learn = [&] { vector<std::pair<string, string>> v; if (nostr_mnemonic_to_seed(m, pp, seed) == NOSTR_OK) v.push_back({"seed", B(seed, 64)}); return v; }; hunt(s, c, o); break;
    default: { uint32_t acc = (uint32_t)s.below(5); o.name = "nostr_mnemonic_to_keypair"; o.outs = {{&kp, sizeof kp}}; o.run = [&, acc] { return nostr_mnemonic_to_keypair(m, pp, acc, &kp) == NOSTR_OK; }; if (nostr_mnemonic_to_seed(m, pp, seed) == NOSTR_OK) { o.secrets.push_back({"seed", B(seed, 64)}); nostr_hd_key a, b; nostr_hd_key_from_seed(seed, 64, &a); int lv = 0; for (uint32_t i : {0x8000002cu, 0x800004d5u, 0x80000000u | acc, 0u, 0u}) { o.secrets.push_back({strf("level %d key", lv), B(a.privkey.data, 32)}); o.secrets.push_back({strf("level %d chain code", lv++), B(a.chain_code, 32)}); if (nostr_hd_key_derive(&a, i, &b) == NOSTR_OK) a = b; } o.secrets.push_back({"account key", B(a.privkey.data, 32)}); } hunt(s, c, o); }
  }
}
PROP(P46, ncryptsec, 2) {
  Key k = rkey(s); string pass; { static const char al[] = "abcdefghijkmnopqrstuvwxyz23456789"; for (char q : s.bulk(20)) pass += al[(uint8_t)q % 33]; } nostr_privkey pk = lpriv(k.priv), op; CStr p(pass), wrong(pass + "x"); char t[200]; Op o; o.secrets = {{"private key", k.priv}, {"password", pass}}; rand_mode = 1; rand_seed(11); vector<string> log; rand_log = &log; CHECK(nostr_ncryptsec_encrypt(&pk, p, 16, t, sizeof t) == NOSTR_OK, "not encrypted"); rand_log = nullptr; rand_mode = 0; for (auto& d : log) if (d.size() == 16) o.secrets.push_back({"symmetric key", scrypt_stub_key(pass, d, 1 << 16, 8, 1, 32)}); string text = t; CStr ct(text); bool good = s.flip(); if (!good) for (auto& d : log) if (d.size() == 16) o.secrets.push_back({"wrong symmetric key", scrypt_stub_key(pass + "x", d, 1 << 16, 8, 1, 32)});
  if (s.flip()) { o.name = "nostr_ncryptsec_encrypt"; size_t room = s.chance(3, 4) ? sizeof t : s.below(160); o.run = [&, room] { return nostr_ncryptsec_encrypt(&pk, p, 16, t, room) == NOSTR_OK; }; hunt(s, c, o); }
  else { o.name = "nostr_ncryptsec_decrypt"; o.outs = {{&op, sizeof op}}; o.run = [&] { return nostr_ncryptsec_decrypt(ct, good ? p : wrong, &op) == NOSTR_OK; }; hunt(s, c, o); }
}
#ifdef VF_NOSCRYPT
PROP(P46, nip44, 3) {
  Key a = rkey(s), b = rkey(s); string x; ecdh_x(a.priv, b.pub, &x); nostr_privkey pk = lpriv(a.priv); nostr_key qk = lpub(b.pub); string msg; for (char q : s.bulk(1 + s.below(300))) msg += (char)('a' + (uint8_t)q % 26); Raw m(msg); CStr cm(msg); char* out = nullptr; size_t n = 0; Op o; o.secrets = {{"private key", a.priv}, {"shared x", x}}; o.reset = [&] { if (out) vf_free(out); out = nullptr; };
  string nonce = sha256("nonce" + s.bulk(32)); K44 kk = keys44(x, nonce); o.secrets.push_back({"shared x", x}); o.secrets.push_back({"conversation key", hmac("SHA256", "nip44-v2", x)}); CStr ct(enc44(x, nonce, msg)); if (s.chance(1, 4)) ct.p[s.below(strlen(ct.p))] = 'A'; string iv = sha256("iv" + s.bulk(16)).substr(0, 16); bool ok; CStr c04(b64(aes_cbc(true, x, iv, msg, &ok)) + "?iv=" + b64(iv));
  switch (s.below(4)) {
    case 0: o.name = "nostr_nip44_encrypt"; o.run = [&] { return nostr_nip44_encrypt(&pk, &qk, m.p, m.n, &out) == NOSTR_OK; }; o.learn = [&] { vector<std::pair<string, string>> v; string p; if (out && unb64(out, &p)) { K44 q = keys44(x, p.substr(1, 32)); v = {{"cipher key", q.ck}, {"authentication key", q.hk}}; } return v; }; hunt(s, c, o); break;
    case 1: o.name = "nostr_nip44_decrypt"; o.secrets.push_back({"cipher key", kk.ck}); o.secrets.push_back({"authentication key", kk.hk}); o.run = [&] { return nostr_nip44_decrypt(&pk, &qk, ct, &out, &n) == NOSTR_OK; }; hunt(s, c, o); break;
    case 2: o.name = "nostr_nip04_encrypt"; o.run = [&] { return nostr_nip04_encrypt(&pk, &qk, cm, &out) == NOSTR_OK; }; hunt(s, c, o); break;
    case 3: o.name = "nostr_nip04_decrypt"; o.run = [&] { return nostr_nip04_decrypt(&pk, &qk, c04, &out) == NOSTR_OK; }; hunt(s, c, o); break;
  }
}
PROP(P46, wraps, 3) {
  Key a = rkey(s), b = rkey(s); nostr_privkey pk = lpriv(a.priv), rk = lpriv(b.priv); nostr_key qk = lpub(b.pub), au; nostr_event *out = nullptr; Op o; o.secrets = {{"sender's key", a.priv}, {"recipient's key", b.priv}}; o.reset = [&] { if (out) nostr_event_destroy(out); out = nullptr; };
  vector<string> log; auto eph = [&] { vector<std::pair<string, string>> v; if (out) for (auto& d : log) { string q; if (d.size() == 32 && pub_of(d, &q) && q == B(out->pubkey.data, 32)) v.push_back({"one-time key", d}); } CHECK(!out || !v.empty(), "the one-time key is none of the 32-byte draws"); return v; };
  Ev e = g_ev(s); e.content = "hello"; e.tags.clear(); e.created_at = NOW; e.pubkey = a.pub; EvPtr ev(lib_event(e)); rand_mode = 1; rand_seed(5); nostr_event* w0 = nullptr; nostr_event* seal = nullptr; CHECK(nostr_nip17_send_dm(&w0, "hi", &pk, &qk, nullptr, nullptr, NOW) == NOSTR_OK && nostr_nip59_create_seal(&seal, ev.e, &pk, &qk) == NOSTR_OK, "no wrap"); rand_mode = 0; EvPtr w(w0), sl(seal);
  auto go = [&](const char* name, std::function<bool()> run, bool wraps) { o.name = name; if (wraps) { o.run = run; o.reset(); rand_log = &log; rand_mode = 1; rand_seed(11); rand_calls = 0; run(); rand_log = nullptr; rand_mode = 0; auto v = eph(); for (auto& x : v) o.secrets.push_back(x); o.reset(); } o.run = run; hunt(s, c, o); };
  switch (s.below(7)) {
    case 0: go("nostr_nip17_send_dm", [&] { return nostr_nip17_send_dm(&out, "hi", &pk, &qk, nullptr, nullptr, NOW) == NOSTR_OK; }, true); break;
    case 1: go("nostr_nip59_wrap_event", [&] { return nostr_nip59_wrap_event(&out, ev.e, &pk, &qk) == NOSTR_OK; }, true); break;
    case 2: go("nostr_nip17_create_gift_wrap", [&] { return nostr_nip17_create_gift_wrap(&out, sl.e, &qk) == NOSTR_OK; }, true); break;
    case 3: go("nostr_nip59_create_gift_wrap", [&] { return nostr_nip59_create_gift_wrap(&out, sl.e, &qk, nullptr, 0) == NOSTR_OK; }, true); break;
    case 4: go("nostr_nip17_unwrap_dm", [&] { return nostr_nip17_unwrap_dm(w.e, &rk, &out, &au) == NOSTR_OK; }, false); break;
    case 5: go("nostr_nip59_unwrap_event", [&] { return nostr_nip59_unwrap_event(w.e, &rk, &out, &au) == NOSTR_OK; }, false); break;
    case 6: go(s.flip() ? "nostr_nip17_create_seal" : "nostr_nip59_create_seal", [&] { return (o.name[9] == '7' ? nostr_nip17_create_seal : nostr_nip59_create_seal)(&out, ev.e, &pk, &qk) == NOSTR_OK; }, false); break;
  }
}
PROP(P46, wallet, 2) {
  Key a = rkey(s), w = rkey(s); CStr u("nostr+walletconnect://" + hex(w.pub) + "?relay=wss%3A%2F%2Fr.example&secret=" + hex(a.priv) + (s.flip() ? "&lud16=a%40b.c" : "") + (s.chance(1, 4) ? "&relay=x%2" : "")); struct nwc_connection* cn = nullptr; Op o; o.secrets = {{"wallet secret", a.priv}}; nostr_event* ev = nullptr; 
  switch (s.below(3)) {
    case 0: o.name = "nostr_nip47_parse_connection_uri"; o.reset = [&] { if (cn) nostr_nip47_free_connection(cn); cn = nullptr; }; o.run = [&] { return nostr_nip47_parse_connection_uri(u, &cn) == NOSTR_OK; }; hunt(s, c, o); break;
    case 1: o.name = "nostr_nip47_free_connection"; o.reset = [&] { if (!cn) nostr_nip47_parse_connection_uri(u, &cn); }; o.run = [&] { if (cn) nostr_nip47_free_connection(cn); cn = nullptr; return true; }; hunt(s, c, o); if (cn) nostr_nip47_free_connection(cn); break;
    case 2: { nostr_nip47_parse_connection_uri(u, &cn); REQUIRE_CASE(cn); o.name = "nostr_nip47_create_request_event"; o.reset = [&] { if (ev) nostr_event_destroy(ev); ev = nullptr; }; o.run = [&] { return nostr_nip47_create_request_event(&ev, cn, "get_balance", "{}", 1) == NOSTR_OK; }; hunt(s, c, o); nostr_nip47_free_connection(cn); break; }
  }
}
// callers of NIP-44: remote signing, wallet answers, private lists
PROP(P46, remote, 2) {
  Key a = rkey(s), b = rkey(s); nostr_privkey pk = lpriv(a.priv); nostr_key qk = lpub(b.pub); string x, own; ecdh_x(a.priv, b.pub, &x); ecdh_x(a.priv, a.pub, &own); nostr_event* out = nullptr; Op o; o.secrets = {{"private key", a.priv}, {"shared x", x}, {"own shared x", own}, {"conversation key", hmac("SHA256", "nip44-v2", x)}, {"own conversation key", hmac("SHA256", "nip44-v2", own)}}; o.reset = [&] { if (out) nostr_event_destroy(out); out = nullptr; };
  auto from = [&](int64_t kind, const string& text, const string& shared) { Ev e; e.kind = kind; e.created_at = NOW; e.content = enc44(shared, sha256("nonce" + s.bulk(32)), text); if (s.chance(1, 6)) e.content[s.below(e.content.size())] = 'A'; e.seal(shared == own ? a.priv : b.priv); return lib_event(e); };
  switch (s.below(5)) {
    case 0: { CStr res("pong"); nostr_nip46_response_t r; memset(&r, 0, sizeof r); strcpy(r.id, "1"); r.result = res.p; o.name = "nostr_nip46_create_response"; o.run = [&] { return nostr_nip46_create_response(&r, &pk, &qk, &out) == NOSTR_OK; }; hunt(s, c, o); break; }
    case 1: { EvPtr e(from(24133, "{\"id\":\"1\",\"method\":\"ping\",\"params\":[]}", x)); nostr_nip46_request_t r; memset(&r, 0, sizeof r); o.name = "nostr_nip46_parse_request"; o.reset = [&] { nostr_nip46_request_free(&r); }; o.run = [&] { return nostr_nip46_parse_request(e.e, &pk, &r) == NOSTR_OK; }; hunt(s, c, o); nostr_nip46_request_free(&r); break; }
    case 2: { EvPtr e(from(23195, "{\"result_type\":\"get_balance\",\"result\":{\"balance\":1}}", x)); char *t = nullptr, *j = nullptr, *ec = nullptr, *em = nullptr; o.name = "nostr_nip47_parse_response_event"; o.reset = [&] { for (char** q : {&t, &j, &ec, &em}) { vf_free(*q); *q = nullptr; } }; o.run = [&] { return nostr_nip47_parse_response_event(e.e, &pk, &t, &j, &ec, &em) == NOSTR_OK; }; hunt(s, c, o); o.reset(); break; }
    case 3: case 4: {
      nostr_keypair kp; CHECK(nostr_keypair_from_private_key(&kp, &pk) == NOSTR_OK, "key pair"); nostr_list* l = nullptr; bool read = s.flip(); EvPtr e(read ? from(10000, "[[\"word\",\"quiet\"],[\"t\",\"x\"]]", own) : nullptr);
      if (read) { o.name = "nostr_list_from_event"; o.reset = [&] { if (l) nostr_list_free(l); l = nullptr; }; o.run = [&] { return nostr_list_from_event(e.e, &kp, &l) == NOSTR_OK; }; hunt(s, c, o); }
      else { CHECK(nostr_list_create(&l, 10000) == NOSTR_OK && nostr_list_add_word(l, "quiet", true) == NOSTR_OK, "list"); o.name = "nostr_list_to_event"; o.run = [&] { return nostr_list_to_event(l, &kp, &out) == NOSTR_OK; }; hunt(s, c, o); }
      if (l) nostr_list_free(l); break; }
  }
}
#endif
