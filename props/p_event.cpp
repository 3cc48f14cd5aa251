// P01 event id / canonical form, P02 signatures, P03 JSON round trip, P04 JSON strictness, P05 tag histories
#include "oracle.h"
#include <algorithm>
using namespace vf; using namespace vo;

// ---------------------------------------------------------------- P01
// An event, now and then a large one: hundreds of tags, hundreds of values in one of them, or content beyond a megabyte.
static Ev g_event(Src& s, Ctx& c) {
  Ev e = g_ev(s); if (!s.chance(1, 80)) return e;
  switch (s.below(4)) {
    case 0: { size_t n = 100 + s.size(1200); auto base = e.tags; base.push_back({"t", "x"}); while (e.tags.size() < n) { auto t = base[e.tags.size() % base.size()]; t.push_back(strf("%zu", e.tags.size())); e.tags.push_back(t); } break; }
    case 1: { vector<string> t{"t"}; size_t n = 100 + s.size(700); while (t.size() < n) t.push_back(strf("v%zu", t.size())); e.tags.push_back(t); break; }
    default: { string b = g_text(s, 40) + "x"; size_t n = s.chance(1, 4) ? 1100000 + s.size(1200000) : 65000 + s.size(80000); e.content.clear(); while (e.content.size() < n) e.content += b; }
  }
  c.label("large"); return e;
}
PROP(P01, canonical_and_id, 10) {
  Ev e = g_event(s, c);
  if (s.chance(1, 6)) e.created_at = (int64_t)s.u64(8);            // the whole 64-bit range
  if (s.chance(1, 8)) e.tags.push_back(vector<string>(1 + s.size(80), g_text(s, 30)));
  if (s.chance(1, 60)) e.content = g_text(s, 120000);
  EvPtr x(lib_event(e));
  bool null_content = s.chance(1, 20); if (null_content) { nostr_event_set_content(x.e, ""); e.content = ""; }
  string want = e.serial(), id = sha256(want);
  c.sample(show(e)); c.note("event %s", e.json_text().c_str()); c.note("canonical %s", want.c_str());
  if (!e.tags.empty()) c.label("tags"); if (e.content.size() > 1000) c.label("long content"); if (e.created_at < 0 || e.created_at >= (1LL << 53)) c.label("extreme created_at");
  if (!e.tags.empty() || e.content.find_first_of("\"\\\n\r\t\b\f") != string::npos) c.nontrivial();
  nostr_error_t r = nostr_event_compute_id(x.e);
  CHECK(r == NOSTR_OK, "compute_id -> %d", r);
  CHECK(string((char*)x->id, 32) == id, "id %s expected %s canonical %s", hex(x->id, 32).c_str(), hex(id).c_str(), show(want, 400).c_str());
  string why; Ev after = from_lib(x.e); after.id = e.id; CHECK(same(after, e, &why), "compute_id altered the event: %s", why.c_str());
  // canonical serialization with every interesting buffer size
  size_t n; switch (s.below(6)) { case 0: n = want.size() + 1; break; case 1: n = want.size(); break; case 2: n = 1 + s.size(want.size()); break; case 3: n = want.size() + 1 + s.below(20); break; case 4: n = 1; break; default: n = want.size() > 1 ? want.size() - 1 : 1; }
  CBuf b(n); size_t out = 12345;
  nostr_relay_error_t rr = nostr_event_serialize_canonical(x.e, b.p, n, s.chance(1, 10) ? nullptr : &out);
  if (n > want.size()) { c.label("fits"); CHECK(rr == NOSTR_RELAY_OK, "canonical(buf %zu, need %zu) -> %d", n, want.size() + 1, rr); CHECK(string(b.p) == want, "canonical text %s expected %s", show(b.p, 400).c_str(), show(want, 400).c_str()); }
  else { c.label("too small"); CHECK(rr == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, "canonical(buf %zu, need %zu) -> %d", n, want.size() + 1, rr); }
  if (out != 12345) CHECK(out == want.size(), "out_len %zu expected %zu", out, want.size());
}
// Two events that differ in any hashed field have different ids; fields outside the hash do not matter.
PROP(P01, id_depends_on_every_field, 3) {
  Ev e = g_event(s, c), f = e;
  switch (s.below(8)) {
    case 0: f.pubkey[s.below(32)] ^= (char)(1 << s.below(8)); c.label("diff:pubkey"); break; case 1: f.created_at ^= (int64_t)1 << s.below(53); c.label("diff:created_at"); break;
    case 2: f.kind ^= 1u << s.below(16); c.label("diff:kind"); break; case 3: f.content = g_mut(s, f.content, 1); f.content = f.content.c_str(); REQUIRE_CASE(utf8_valid(f.content)); c.label("diff:content"); break;
    case 4: f.tags.push_back(g_tag(s)); c.label("diff:tag added"); break;
    case 5: REQUIRE_CASE(!f.tags.empty()); f.tags[s.below(f.tags.size())].push_back(""); c.label("diff:value appended"); break;
    case 6: { REQUIRE_CASE(f.tags.size() >= 2); std::swap(f.tags[0], f.tags[f.tags.size() - 1]); c.label("diff:tag order"); break; }
    default: f.sig[s.below(64)] ^= 1; f.id = g_bin32(s); c.label("same:sig,id"); break;
  }
  EvPtr x(lib_event(e)), y(lib_event(f));
  CHECK(nostr_event_compute_id(x.e) == NOSTR_OK && nostr_event_compute_id(y.e) == NOSTR_OK, "compute_id");
  bool eq = e.serial() == f.serial(); if (!eq) c.nontrivial(); c.sample(show(e));
  CHECK((memcmp(x->id, y->id, 32) == 0) == eq, "ids %s and %s for serializations %s and %s", hex(x->id, 32).c_str(), hex(y->id, 32).c_str(), show(e.serial(), 300).c_str(), show(f.serial(), 300).c_str());
}

// ---------------------------------------------------------------- P02
static nostr_privkey PK(const string& p) { nostr_privkey k; memcpy(k.data, p.data(), 32); return k; }
PROP(P02, sign_then_verify, 5) {
  Ev e = g_event(s, c); Key k = g_key(s); EvPtr x(lib_event(e)); nostr_privkey pk = PK(k.priv);
  nostr_error_t r = nostr_event_sign(x.e, &pk); CHECK(r == NOSTR_OK, "sign -> %d", r);
  Ev want = e; want.pubkey = k.pub; want.id = sha256(want.serial()); Ev got = from_lib(x.e); want.sig = got.sig; string why;
  c.sample(show(e)); c.nontrivial();
  CHECK(same(got, want, &why), "signed event: %s", why.c_str());
  CHECK(schnorr_verify(got.pubkey, got.id, got.sig), "signature does not verify under BIP-340");
  CHECK(nostr_event_verify(x.e) == NOSTR_OK, "verify rejects the library's own signature");
  if (s.flip()) { r = nostr_event_sign(x.e, &pk); Ev g2 = from_lib(x.e); CHECK(r == NOSTR_OK && g2.id == got.id && nostr_event_verify(x.e) == NOSTR_OK, "re-sign"); c.label("re-signed"); }
}
// verify accepts exactly (id == H(fields)) and (BIP-340 verifies); any mutation is judged by the oracle
PROP(P02, tamper, 12) {
  Ev e = g_event(s, c); Key k = g_key(s); e.seal(k.priv);
  unsigned n = (unsigned)s.below(3); string what = n ? "" : "untouched";
  for (unsigned i = 0; i < n; i++) switch (s.below(14)) {
    case 0: e.id[s.below(32)] ^= (char)(1 << s.below(8)); what += " id"; break;
    case 1: e.sig[s.below(64)] ^= (char)(1 << s.below(8)); what += " sig"; break;
    case 2: e.pubkey[s.below(32)] ^= (char)(1 << s.below(8)); what += " pubkey"; break;
    case 3: e.created_at += s.range(-2, 2); what += " created_at"; break;
    case 4: e.kind = (e.kind ^ (1u << s.below(16))) & 0xffff; what += " kind"; break;
    case 5: e.content += g_text(s, 5); what += " content+"; break;
    case 6: if (!e.content.empty()) { size_t p = s.below(e.content.size()); e.content[p] = (char)(e.content[p] == 'x' ? 'y' : 'x'); } what += " content"; break;
    case 7: e.tags.push_back(g_tag(s)); what += " tag+"; break;
    case 8: if (!e.tags.empty()) e.tags.erase(e.tags.begin() + s.below(e.tags.size())); what += " tag-"; break;
    case 9: if (!e.tags.empty()) { auto& t = e.tags[s.below(e.tags.size())]; t[s.below(t.size())] += "x"; } what += " tagval"; break;
    case 10: if (!e.tags.empty()) { auto& t = e.tags[s.below(e.tags.size())]; t.push_back(""); } what += " tagval+"; break;
    case 11: { e.id = sha256(e.serial()); what += " rehash"; break; }                     // attacker recomputes the id
    case 12: { Key o = g_key(s); e.sig = schnorr_sign(o.priv, e.id, string(32, 1)); what += " foreign sig"; break; }
    default: { static const char* bad[] = {"00", "ff"}; e.sig = string(64, s.flip() ? 0 : (char)0xff); what += " degenerate sig"; break; }
  }
  if (n && s.chance(1, 4)) { e.id = sha256(e.serial()); what += " rehash"; }
  if (s.chance(1, 12)) { e.pubkey = s.flip() ? string(32, 0) : string(32, (char)0xff); what += " bad pubkey"; if (s.flip()) e.id = sha256(e.serial()); }
  if (s.chance(1, 12)) { // replace s by n - s style malleation and R flips
    string sg = e.sig; std::reverse(sg.begin() + 32, sg.end()); e.sig = sg; what += " malleated s"; }
  REQUIRE_CASE(utf8_valid(e.content));
  bool want = e.id == sha256(e.serial()) && schnorr_verify(e.pubkey, e.id, e.sig);
  EvPtr x(lib_event(e)); nostr_error_t r = nostr_event_verify(x.e);
  c.label(want ? "valid" : "invalid"); if (n) c.nontrivial(); c.sample(what + " -> " + (want ? "valid" : "invalid"));
  c.note("mutations:%s event %s", what.c_str(), e.json_text().c_str());
  CHECK((r == NOSTR_OK) == want, "verify -> %d, expected %s after:%s", r, want ? "valid" : "invalid", what.c_str());
  Ev back = from_lib(x.e); string why; CHECK(same(back, e, &why), "verify changed the event: %s", why.c_str());
}
// out-of-range secrets and RNG failure are refused; nothing that verifies is produced
PROP(P02, bad_secret, 2) {
  static const char* N = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
  string p; switch (s.below(4)) { case 0: p = string(32, 0); break; case 1: p = unhex(N); break; case 2: p = string(32, (char)0xff); break; default: p = unhex(N); for (int i = 31; i >= 0; i--) { if ((uint8_t)++p[i]) break; } if (s.flip()) p[16] = (char)0xff; }
  string q; REQUIRE_CASE(!pub_of(p, &q)); c.nontrivial(); c.sample(hex(p));
  Ev e = g_ev(s); EvPtr x(lib_event(e)); nostr_privkey pk = PK(p);
  nostr_error_t r = nostr_event_sign(x.e, &pk); CHECK(r != NOSTR_OK, "sign with an invalid secret key returned OK");
}
#ifndef VF_MBEDTLS
PROP(P02, rng_failure, 1) {
  Ev e = g_ev(s); Key k = g_key(s); EvPtr x(lib_event(e)); nostr_privkey pk = PK(k.priv); nostr_init();
  rand_mode = 2; rand_fail_after = 0; nostr_error_t r = nostr_event_sign(x.e, &pk); rand_mode = 0;
  c.nontrivial(); CHECK(r != NOSTR_OK, "sign returned OK although the system RNG failed");
}
#endif

PROP(P02, any_order, 3) {   // the verdict on an event is the same whatever was verified before: near twins in any order, in place or as events of their own
  Ev e = g_event(s, c); Key k = g_key(s); e.seal(k.priv); REQUIRE_CASE(utf8_valid(e.content)); vector<Ev> v = {e};
  for (unsigned i = 1 + (unsigned)s.below(3); i; i--) { Ev f = e; switch (s.below(6)) { case 0: f.sig[s.below(64)] ^= (char)(1 << s.below(8)); break; case 1: f.sig = schnorr_sign(g_key(s).priv, e.id, string(32, 1)); break; case 2: f.content += "x"; break; case 3: f.pubkey = g_key(s).pub; break; case 4: f.created_at++; f.id = sha256(f.serial()); break; default: f.pubkey = g_key(s).pub; f.id = sha256(f.serial()); } v.push_back(f); }
  vector<std::unique_ptr<EvPtr>> x; for (auto& f : v) x.emplace_back(new EvPtr(lib_event(f))); c.nontrivial(); c.sample(strf("%zu near twins", v.size()));
  for (unsigned i = 3 + (unsigned)s.below(8); i; i--) { size_t n = s.below(v.size()); bool want = v[n].id == sha256(v[n].serial()) && schnorr_verify(v[n].pubkey, v[n].id, v[n].sig), got;
    if (s.flip()) { nostr_event* b = x[n]->e; got = nostr_event_verify(b) == NOSTR_OK; }
    else { EvPtr y(lib_event(v[n])); got = nostr_event_verify(y.e) == NOSTR_OK; }
    CHECK(got == want, "verify of twin %zu -> %d after other twins were verified, expected %d", n, got, want); }
}
// ---------------------------------------------------------------- P03
static void check_json_of(const Ev& e, const string& t, bool with_sig = true) {
  JV v; string err; CHECK(json_parse(t, &v, &err), "output is not strict JSON (%s): %s", err.c_str(), show(t, 300).c_str());
  CHECK(v.t == JV::Obj, "not an object");
  static const char* f[] = {"id", "pubkey", "created_at", "kind", "tags", "content", "sig"};
  CHECK(v.o.size() == 7, "%zu members: %s", v.o.size(), show(t, 300).c_str());
  for (auto k : f) CHECK(v.get(k), "member %s missing", k);
  CHECK(v.get("id")->s == hex(e.id), "id %s", v.get("id")->s.c_str()); CHECK(v.get("pubkey")->s == hex(e.pubkey), "pubkey"); CHECK(v.get("sig")->s == hex(e.sig), "sig");
  int64_t i; CHECK(v.get("created_at")->is_int(&i) && i == e.created_at, "created_at printed as %s, is %lld", v.get("created_at")->s.c_str(), (long long)e.created_at);
  CHECK(v.get("kind")->is_int(&i) && i == e.kind, "kind %s", v.get("kind")->s.c_str());
  CHECK(v.get("content")->t == JV::Str && v.get("content")->s == e.content, "content %s", show(v.get("content")->s).c_str());
  auto& T = *v.get("tags"); CHECK(T.t == JV::Arr && T.a.size() == e.tags.size(), "tags");
  for (size_t a = 0; a < T.a.size(); a++) { CHECK(T.a[a].t == JV::Arr && T.a[a].a.size() == e.tags[a].size(), "tag %zu has %zu values", a, T.a[a].a.size()); for (size_t b = 0; b < T.a[a].a.size(); b++) CHECK(T.a[a].a[b].t == JV::Str && T.a[a].a[b].s == e.tags[a][b], "tag %zu value %zu", a, b); }
}
PROP(P03, to_json_and_back, 8) {
  Ev e = g_event(s, c); bool safe = true; if (s.chance(1, 8)) { e.created_at = (int64_t)s.u64(8); safe = llabs(e.created_at / 2) < (1LL << 52) && e.created_at != (1LL << 53) && e.created_at != -(1LL << 53); }
  bool sealed = s.flip(); if (sealed) { Key k = g_key(s); e.seal(k.priv); }
  EvPtr x(lib_event(e)); char* j = nullptr; nostr_error_t r = nostr_event_to_json(x.e, &j); CHECK(r == NOSTR_OK && j, "to_json -> %d", r);
  string t = j; nostr_free(j); c.sample(show(t, 200)); if (!e.tags.empty() && !e.content.empty()) c.nontrivial();
  check_json_of(e, t);
  size_t n; switch (s.below(5)) { case 0: n = t.size() + 1; break; case 1: n = t.size(); break; case 2: n = 1 + s.size(t.size()); break; default: n = t.size() + 1 + s.below(40); }
  CBuf b(n); size_t out = 0; nostr_relay_error_t rr = nostr_event_serialize(x.e, b.p, n, &out);
  if (rr == NOSTR_RELAY_OK) { string u = b.p; CHECK(out == u.size() && out < n, "out_len %zu text %zu buffer %zu", out, u.size(), n); check_json_of(e, u); c.label("serialize:fits"); }
  else { CHECK(rr == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL && out >= n, "serialize(buf %zu) -> %d out_len %zu", n, rr, out); c.label("serialize:too small"); CBuf b2(out + 1); size_t o2; CHECK(nostr_event_serialize(x.e, b2.p, out + 1, &o2) == NOSTR_RELAY_OK && o2 == out, "buffer of the reported size is refused"); check_json_of(e, b2.p); }
  if (safe) {
    nostr_event* y = nullptr; CStr ct(t); r = nostr_event_from_json(ct, &y); CHECK(r == NOSTR_OK && y, "from_json(to_json) -> %d", r); EvPtr yp(y); string why; Ev back = from_lib(y); CHECK(same(back, e, &why), "round trip: %s", why.c_str());
    if (sealed) { CHECK(nostr_event_verify(y) == NOSTR_OK, "signature lost in round trip"); c.label("verified after round trip"); }
  }
}
// Any spelling of a well-formed event object is read back exactly, by both entry points
PROP(P03, from_any_spelling, 10) {
  Ev e = g_event(s, c); if (s.chance(1, 2)) { Key k = g_key(s); e.seal(k.priv); }
  JV v = e.json();
  if (s.chance(1, 2)) for (size_t i = v.o.size() - 1; i > 0; i--) std::swap(v.o[i], v.o[s.below(i + 1)]);
  if (s.chance(1, 4)) { static const char* xs[] = {"relay", "seen", "ots", "x", "ID2", "extra"}; JV y = s.flip() ? jstr(g_text(s, 10)) : jarr({jint(3), jobj({{"id", jstr("no")}}), jnull(), jraw("1.5e3")}); v.o.insert(v.o.begin() + s.below(v.o.size() + 1), {string(s.pick(xs)), y}); c.label("extra member"); }
  if (s.chance(1, 4)) for (auto& m : v.o) if (m.first == "id" || m.first == "pubkey" || m.first == "sig") m.second.s = upper(m.second.s);
  string t = g_ws(s) + json_variant(v, s) + g_ws(s);
  c.sample(show(t, 200)); c.note("text %s", t.c_str()); c.nontrivial();
  nostr_event* y = nullptr; string why;
  if (s.flip()) { CStr ct(t); nostr_error_t r = nostr_event_from_json(ct, &y); CHECK(r == NOSTR_OK && y, "from_json -> %d for %s", r, show(t, 400).c_str()); c.label("from_json"); }
  else { // the text is given with its length: bytes after it must not matter, and need not exist
    string junk = s.flip() ? g_text(s, 10) : ""; Raw raw(t + junk); nostr_relay_error_t r = nostr_event_parse(raw.p, t.size(), &y); CHECK(r == NOSTR_RELAY_OK && y, "event_parse(len) -> %d for %s", r, show(t, 400).c_str()); c.label("event_parse"); }
  EvPtr yp(y); Ev back = from_lib(y); CHECK(same(back, e, &why), "%s", why.c_str());
}

// ---------------------------------------------------------------- P04
// Malformed inputs: each accepted text must be faithful (accept => every member equals the text's member).
static void check_faithful(const JV& v, const Ev& g, const string& t) {
  CHECK(v.t == JV::Obj, "accepted a non-object: %s", show(t, 200).c_str());
  auto dup = [&](const char* k) { int n = 0; for (auto& m : v.o) n += m.first == k; return n > 1; };
  auto hexf = [&](const char* k, const string& got) { const JV* x = v.get(k); if (!x || x->t == JV::Null || dup(k)) { if (!x) CHECK(got == string(got.size(), 0), "%s invented", k); return; } string b; CHECK(x->t == JV::Str && strict_hex(x->s, got.size(), &b), "accepted %s = %s", k, show(json_compact(*x), 160).c_str()); CHECK(b == got, "%s differs from text", k); };
  hexf("id", g.id); hexf("pubkey", g.pubkey); hexf("sig", g.sig);
  auto numf = [&](const char* k, int64_t got, double lo, double hi) { const JV* x = v.get(k); if (!x || x->t == JV::Null || dup(k)) { if (!x) CHECK(got == 0, "%s invented (%lld)", k, (long long)got); return; } CHECK(x->t == JV::Num, "accepted %s = %s", k, show(json_compact(*x), 80).c_str()); double d = strtod(x->s.c_str(), nullptr); CHECK(d >= lo && d <= hi && d == (double)got, "accepted %s = %s as %lld", k, x->s.c_str(), (long long)got); int64_t iv; if (x->is_int(&iv)) CHECK(iv == got, "%s = %s became %lld", k, x->s.c_str(), (long long)got); };
  numf("created_at", g.created_at, -9223372036854775808.0, 9223372036854774784.0); numf("kind", g.kind, 0, 65535);
  const JV* x = v.get("content"); if (x && x->t != JV::Null && !dup("content")) CHECK(x->t == JV::Str && x->s == g.content, "accepted content = %s as %s", show(json_compact(*x), 80).c_str(), show(g.content, 80).c_str()); if (!x) CHECK(g.content.empty(), "content invented");
  x = v.get("tags"); if (!x) CHECK(g.tags.empty(), "tags invented");
  if (x && x->t != JV::Null && !dup("tags")) { CHECK(x->t == JV::Arr, "accepted tags = %s", show(json_compact(*x), 80).c_str()); CHECK(x->a.size() == g.tags.size(), "tags: text has %zu, event has %zu: %s", x->a.size(), g.tags.size(), show(json_compact(*x), 200).c_str());
    for (size_t i = 0; i < g.tags.size(); i++) { auto& T = x->a[i]; CHECK(T.t == JV::Arr && T.a.size() == g.tags[i].size(), "tag %zu", i); for (size_t j = 0; j < T.a.size(); j++) CHECK(T.a[j].t == JV::Str && T.a[j].s == g.tags[i][j], "tag %zu value %zu: %s became [%s]", i, j, show(json_compact(T.a[j]), 60).c_str(), show(g.tags[i][j], 40).c_str()); } }
}
static bool has_nul(const JV& v) { if (v.s.find('\0') != string::npos) return true; for (auto& x : v.a) if (has_nul(x)) return true; for (auto& m : v.o) if (m.first.find('\0') != string::npos || has_nul(m.second)) return true; return false; }
static JV g_badval(Src& s) { switch (s.below(10)) { case 0: return jnull(); case 1: return jbool(s.flip()); case 2: return jint((int64_t)s.u64(8)); case 3: { static const char* n[] = {"1.5", "-1", "65536", "65537", "131073", "-65535", "1e400", "1e19", "-1e300", "9007199254740993", "9223372036854775808", "18446744073709551617", "1e5", "0.1", "4294967297", "-0", "1e-3"}; return jraw(s.pick(n)); } case 4: return jstr(g_text(s, 70)); case 5: return jarr({}); case 6: return jobj({}); case 7: return jarr({jstr("e")}); case 8: return jstr(g_hexid(s)); default: return jarr({jarr({jstr("e"), jint(1)}), jarr({})}); } }
static void try_text(Ctx& c, Src& s, const string& t) {
  JV v; bool ok = json_parse(t, &v); c.note("text %s", t.c_str()); c.sample(show(t, 160));
  nostr_event* y = (nostr_event*)0x1; bool acc; string t2 = t; bool viaparse = s.flip();
  if (!viaparse) { CStr ct(t); y = nullptr; nostr_error_t r = nostr_event_from_json(ct, &y); acc = r == NOSTR_OK; }
  else { Raw raw(t); y = nullptr; nostr_relay_error_t r = nostr_event_parse(raw.p, t.size(), &y); acc = r == NOSTR_RELAY_OK; if (t.empty()) { if (y && acc) nostr_event_destroy(y); return; } }
  if (!acc) { CHECK(y == nullptr, "rejected, but the output pointer was left set to %p", (void*)y); c.label("rejected"); return; }
  CHECK(y != nullptr, "accepted without an event"); EvPtr yp(y); Ev g = from_lib(y); c.label("accepted");
  if (!ok) return;                       // cJSON accepts a superset of strict JSON (e.g. trailing text); nothing to compare with
  if (has_nul(v)) c.label("accepted with U+0000"); // only if no member of the event is cut short
  check_faithful(v, g, t);
}
PROP(P04, mistyped_member, 10) {
  Ev e = g_event(s, c); JV v = e.json(); unsigned n = 1 + (unsigned)s.below(2);
  while (n--) {
    size_t k = s.below(v.o.size()); JV& m = v.o[k].second;
    switch (s.below(8)) {
      case 7: put_nul(v, s, s.chance(1, 4)); c.label("U+0000 in a string"); break;
      case 0: m = g_badval(s); break;
      case 1: v.o.erase(v.o.begin() + k); c.label("member removed"); break;
      case 2: { string& nm = v.o[k].first; nm = s.flip() ? upper(nm) : nm + "s"; c.label("member renamed"); break; }
      case 3: if (m.t == JV::Str) { m.s = g_mut(s, m.s, 2); m.s = m.s.c_str(); } else m = g_badval(s); break;
      case 4: if (m.t == JV::Str && m.s.size() >= 64) { static const char* bad[] = {" 1", "+1", "-1", "0x", "1 ", "x1", "\t5", "g0"}; size_t p = s.below(m.s.size() / 2) * 2; m.s.replace(p, 2, s.pick(bad)); c.label("bad hex pair"); } else m = g_badval(s); break;
      case 5: if (m.t == JV::Arr) { JV b = g_badval(s); m.a.insert(m.a.begin() + s.below(m.a.size() + 1), b); c.label("bad tag"); } else m = g_badval(s); break;
      default: if (m.t == JV::Arr && !m.a.empty()) { auto& T = m.a[s.below(m.a.size())]; if (T.t == JV::Arr) T.a.insert(T.a.begin() + s.below(T.a.size() + 1), g_badval(s)); c.label("bad tag value"); } else m = g_badval(s); break;
    }
    if (v.o.empty()) break;
  }
  string t = s.flip() ? json_compact(v) : json_variant(v, s); REQUIRE_CASE(t.find('\0') == string::npos);
  c.nontrivial(); try_text(c, s, t);
}
PROP(P04, non_event_root, 2) { JV v; switch (s.below(5)) { case 0: v = g_badval(s); break; case 1: v = jarr({g_badval(s), g_badval(s)}); break; case 2: v = jarr({g_ev(s).json()}); break; case 3: v = jstr(g_ev(s).json_text()); break; default: v = jobj({{g_text(s, 8), g_badval(s)}}); } string t = json_compact(v); REQUIRE_CASE(t.find('\0') == string::npos); c.nontrivial(); try_text(c, s, t); }
PROP(P04, mutated_text, 8) { Ev e = g_ev(s); if (e.content.size() > 60) e.content.resize(0); string t = g_mut(s, s.flip() ? e.json_text() : json_variant(e.json(), s), 4); if (!s.chance(1, 6)) t = t.c_str(); c.nontrivial(); if (t.find('\0') != string::npos) { c.label("embedded NUL"); } try_text(c, s, t); }
PROP(P04, garbage, 2) { string t = g_bytes(s, 400); c.label("garbage"); try_text(c, s, string(t.c_str())); }

// ---------------------------------------------------------------- P05
// Histories of set_content / add_tag (including failing ones and values aliasing the event itself) against a list model,
// every accessor and iterator compared after each step.
static void compare_all(const nostr_event* x, const Ev& m, Src& s) {
  string why; Ev g = from_lib(x); CHECK(same(g, m, &why, false), "event differs from the model: %s", why.c_str());
  CHECK(nostr_event_get_tag_count(x) == m.tags.size(), "tag_count");
  nostr_tag_iterator_t it; nostr_tag_iterator_init(&it, x); size_t n = 0, len = 0; const char** v;
  while ((v = nostr_tag_iterator_next(&it, &len))) { CHECK(n < m.tags.size() && len == m.tags[n].size(), "iterator tag %zu len %zu", n, len); for (size_t j = 0; j < len; j++) CHECK(m.tags[n][j] == v[j], "iterator value"); n++; }
  CHECK(n == m.tags.size(), "iterator visited %zu of %zu tags", n, m.tags.size()); CHECK(nostr_tag_iterator_next(&it, &len) == nullptr && len == 0, "iterator after the end");
  nostr_tag_iterator_init(&it, x); nostr_tag_info_t ti; n = 0;
  while (nostr_tag_iterator_next_info(&it, &ti)) { CHECK(n < m.tags.size() && m.tags[n][0] == ti.name && ti.values_count == m.tags[n].size() - 1, "iterator info %zu", n); for (size_t j = 0; j < ti.values_count; j++) CHECK(m.tags[n][j + 1] == ti.values[j], "info value"); n++; }
  CHECK(n == m.tags.size(), "next_info visited %zu", n);
  size_t idx = m.tags.empty() ? 0 : s.below(m.tags.size() + 2), oc = 77; const char** at = nostr_event_get_tag_at(x, idx, &oc); const nostr_tag* tg = nostr_event_get_tag(x, idx);
  if (idx < m.tags.size()) { CHECK(at && oc == m.tags[idx].size() && tg && nostr_tag_get_value_count(tg) == oc, "get_tag_at(%zu)", idx); for (size_t j = 0; j < oc; j++) CHECK(m.tags[idx][j] == at[j] && m.tags[idx][j] == nostr_tag_get_value(tg, j), "get_tag_at value"); CHECK(nostr_tag_get_value(tg, oc) == nullptr && m.tags[idx][0] == nostr_tag_get_name(tg), "get_value past the end / name"); }
  else CHECK(!at && oc == 0 && !tg, "get_tag_at past the end");
  // lookups by name
  string name = !m.tags.empty() && s.chance(3, 4) ? s.pick(m.tags)[0] : g_text(s, 8); CStr cn(name);
  const vector<string>*first = nullptr, *first2 = nullptr; vector<string> vals; for (auto& t : m.tags) if (t[0] == name) { if (!first) first = &t; if (t.size() >= 2) { if (!first2) first2 = &t; vals.push_back(t[1]); } }
  CHECK(nostr_event_has_tag(x, cn) == (first != nullptr), "has_tag(%s)", show(name).c_str());
  const nostr_tag* ft = nostr_event_find_tag(x, cn); CHECK((ft != nullptr) == (first != nullptr), "find_tag"); if (ft) { CHECK(ft->count == first->size(), "find_tag count"); for (size_t j = 0; j < ft->count; j++) CHECK((*first)[j] == ft->values[j], "find_tag value"); }
  const char* tv = nostr_event_get_tag_value(x, cn); CHECK((tv != nullptr) == (first2 != nullptr) && (!tv || (*first2)[1] == tv), "get_tag_value(%s) -> %s", show(name).c_str(), tv ? show(tv).c_str() : "NULL");
  size_t mx = s.below(6); vector<const char*> out(mx + 1, (const char*)1); size_t got = nostr_event_get_tag_values(x, cn, out.data(), mx); CHECK(got == std::min(mx, vals.size()), "get_tag_values count %zu of %zu max %zu", got, vals.size(), mx); for (size_t i = 0; i < got; i++) CHECK(vals[i] == out[i], "get_tag_values[%zu]", i); CHECK(out[mx] == (const char*)1, "wrote past max_values");
  const char* d = nostr_event_get_d_tag(x); const string* dd = nullptr; for (auto& t : m.tags) if (t[0] == "d" && t.size() >= 2) { dd = &t[1]; break; } CHECK((d != nullptr) == (dd != nullptr) && (!d || *dd == d), "get_d_tag");
  for (int k = 0; k < 2; k++) { string nm = k ? "p" : "e"; vector<string> want; for (auto& t : m.tags) { string b; if (t[0] == nm && t.size() >= 2 && t[1] == lower(t[1]) && strict_hex(t[1], 32, &b)) want.push_back(b); } size_t cnt = 9; uint8_t(*bin)[32] = k ? nostr_event_get_p_tags_binary(x, &cnt) : nostr_event_get_e_tags_binary(x, &cnt); CHECK(cnt == want.size(), "%s binary count %zu expected %zu", nm.c_str(), cnt, want.size()); for (size_t i = 0; i < cnt; i++) CHECK(string((char*)bin[i], 32) == want[i], "%s binary[%zu]", nm.c_str(), i); CHECK((bin == nullptr) == want.empty(), "binary pointer"); nostr_free(bin); }
  CHECK(string((const char*)nostr_event_get_id(x), 32) == m.id && string((const char*)nostr_event_get_pubkey(x), 32) == m.pubkey, "id/pubkey accessors"); CBuf hx(65); nostr_event_get_id_hex(x, hx.p); CHECK(hex(m.id) == hx.p, "id_hex"); nostr_event_get_pubkey_hex(x, hx.p); CHECK(hex(m.pubkey) == hx.p, "pubkey_hex"); CHECK(nostr_event_is_deletion(x) == (m.kind == 5), "is_deletion");
}
PROP(P05, tag_history, 10) {
  Ev m; nostr_event* x = nullptr; heap_reset(); m.id = g_bin32(s); m.pubkey = pubkey_n(1); m.sig = string(64, 0);
  #ifdef VF_PLAIN
  const bool parsed = false;
#else
  const bool parsed = s.chance(1, 3);
#endif
  if (parsed) { m = g_ev(s); CStr t(m.json_text()); nostr_error_t r = nostr_event_from_json(t, &x); CHECK(r == NOSTR_OK, "from_json -> %d", r); c.label("from parsed event"); }
  else { CHECK(nostr_event_create(&x) == NOSTR_OK, "create"); memcpy(x->id, m.id.data(), 32); memcpy(x->pubkey.data, m.pubkey.data(), 32); m.created_at = x->created_at; m.kind = x->kind; CHECK(x->tags_count == 0 && (!x->content || !*x->content), "fresh event is not empty"); if (s.flip()) x->kind = m.kind = 5; }
  EvPtr xp(x); unsigned ops = 1 + (unsigned)s.size(30); string trace; size_t added = 0; bool aliased = false;
  while (ops--) {
    switch (s.weighted({8, 2, 2, 2, 1, 1})) {
      case 0: { auto t = g_tag(s, s.chance(1, 15) ? 60 : 5); if (s.chance(1, 40)) { t[s.below(t.size())] = g_text(s, 300000); if (s.flip()) t.push_back(string(1 + s.below(300000), 'L')); } vector<const char*> v; vector<std::unique_ptr<CStr>> keep; for (auto& y : t) { keep.emplace_back(new CStr(y)); v.push_back(keep.back()->p); } nostr_error_t r = nostr_event_add_tag(x, v.data(), v.size()); CHECK(r == NOSTR_OK, "add_tag(%zu) -> %d", v.size(), r); m.tags.push_back(t); added++; trace += "+"; break; }
      case 1: { string t = g_text(s, s.chance(1, 30) ? 300000 : 3000); CStr ct(t); CHECK(nostr_event_set_content(x, ct) == NOSTR_OK, "set_content"); m.content = t; trace += "c"; break; }
      case 2: if (!m.tags.empty()) { // values taken from the event's own tags
          size_t i = s.below(m.tags.size()); size_t n = 1 + s.below(4); vector<const char*> v; vector<string> t; for (size_t k = 0; k < n; k++) { size_t j = s.below(m.tags[i].size()); v.push_back(x->tags[i].values[j]); t.push_back(m.tags[i][j]); } nostr_error_t r = nostr_event_add_tag(x, v.data(), n); CHECK(r == NOSTR_OK, "add_tag(own values) -> %d", r); m.tags.push_back(t); aliased = true; trace += "a"; } break;
      case 3: { const char* v[3] = {"e", nullptr, "x"}; nostr_error_t r; switch (s.below(3)) { case 0: r = nostr_event_add_tag(x, v, 3); break; case 1: r = nostr_event_add_tag(x, v, 0); break; default: r = nostr_event_add_tag(x, nullptr, 1); } CHECK(r != NOSTR_OK, "invalid add_tag accepted"); trace += "!"; break; }
      case 4: if (!m.content.empty()) { size_t off = s.below(m.content.size()); while (off && ((unsigned char)m.content[off] & 0xc0) == 0x80) off--; nostr_error_t r = nostr_event_set_content(x, x->content + off); CHECK(r == NOSTR_OK, "set_content(own content) -> %d", r); m.content = m.content.substr(off); aliased = true; trace += "A"; } break;
      default: CHECK(nostr_event_set_content(x, nullptr) != NOSTR_OK, "set_content(NULL)"); trace += "?"; break;
    }
    if (s.chance(1, 3) || ops == 0) compare_all(x, m, s);
  }
  if (added > 3) c.nontrivial(); if (aliased) c.label("aliased"); size_t bytes = 0; for (auto& t : m.tags) for (auto& y : t) bytes += y.size() + 9; if (bytes > 1024) c.label("arena grown"); c.sample(trace);
}
PROP(P05, indexable, 1) { string n = s.flip() ? string(1, (char)(1 + s.below(255))) : g_text(s, 4); CStr cn(n); bool want = n.size() == 1 && ((n[0] >= 'a' && n[0] <= 'z') || (n[0] >= 'A' && n[0] <= 'Z')); if (n.size() == 1) c.nontrivial(); CHECK(nostr_tag_is_indexable(cn) == want, "is_indexable(%s)", show(n).c_str()); }
