// P39 gift wraps (NIP-17, NIP-59)
#include "enc.h"

static const int64_t NOW = 1700000000, DAY2 = 2 * 86400;
static int inited = (before_case = [] { rand_mode = 0; nostr_init(); clock_virtual = true; clock_now = NOW; }, after_case = [] { rand_mode = 0; clock_virtual = false; }, 0);
struct Wr { bool ok; Ev wrap; nostr_error_t e; };
struct Opened { bool ok = false; Ev seal, rumor; bool rumor_sig = false; };
// What the recipient's key finds in a wrap
static Opened open_wrap(const Ev& w, const string& priv, string* why) { Opened o; string x, t; if (!ecdh_x(priv, w.pubkey, &x) || !open44(x, w.content, &t)) { *why = "wrap does not open"; return o; } if (!ev_of(t, &o.seal)) { *why = "seal is no event: " + vo::show(t, 300); return o; } if (!ecdh_x(priv, o.seal.pubkey, &x) || !open44(x, o.seal.content, &t)) { *why = "seal does not open"; return o; } if (!ev_of(t, &o.rumor, &o.rumor_sig)) { *why = "rumor is no event: " + vo::show(t, 300); return o; } o.ok = true; return o; }
// The claims about every wrap the library makes
static Opened check_wrap(const Ev& w, const Key& from, const Key& to, const vector<vector<string>>& extra) {
  CHECK(w.kind == 1059, "wrap of kind %u", w.kind); CHECK(proper(w), "wrap is not properly signed: %s", show(w).c_str()); CHECK(w.pubkey != from.pub && w.pubkey != to.pub, "wrapped under a known key"); vector<vector<string>> want = {{"p", hex(to.pub)}}; for (auto& t : extra) want.push_back(t); CHECK(w.tags == want, "tags of the wrap: %s", w.json_text().substr(0, 600).c_str()); CHECK(w.created_at <= NOW && w.created_at >= NOW - DAY2, "wrap dated %+lld", (long long)(w.created_at - NOW));
  string why; Opened o = open_wrap(w, to.priv, &why); CHECK(o.ok, "%s", why.c_str()); const Ev& s = o.seal; CHECK(s.kind == 13, "seal of kind %u", s.kind); CHECK(s.pubkey == from.pub, "sealed by another key"); CHECK(s.tags.empty(), "a seal with tags"); CHECK(proper(s), "seal is not properly signed"); CHECK(s.created_at <= NOW && s.created_at >= NOW - DAY2, "seal dated %+lld", (long long)(s.created_at - NOW)); return o;
}
static Ev grab(nostr_event* e) { EvPtr x(e); return from_lib(e); }
struct Un { bool ok; Ev rumor; string author; nostr_error_t e; };
static Un unwrap_x(bool dm, const nostr_event* x, const string& priv, bool want_author = true) { nostr_privkey k = lpriv(priv); nostr_event* r = nullptr; nostr_key a; memset(&a, 0x5a, sizeof a); nostr_error_t e = dm ? nostr_nip17_unwrap_dm(x, &k, &r, want_author ? &a : nullptr) : nostr_nip59_unwrap_event(x, &k, &r, want_author ? &a : nullptr); CHECK((e == NOSTR_OK) == (r != nullptr), "unwrap -> %d with %p", e, (void*)r); Un u{e == NOSTR_OK, Ev(), string((char*)a.data, 32), e}; if (r) u.rumor = grab(r); return u; }
static Un unwrap(bool dm, const Ev& w, const string& priv, bool want_author = true) { EvPtr x(lib_event(w)); return unwrap_x(dm, x.e, priv, want_author); }
static bool same_ev(const Ev& a, const Ev& b, string* why, bool ids = true) { return same(a, b, why, ids); }
static Ev g_rumor(Src& s, const string& pub) { Ev e = g_ev(s); if (e.content.size() > 4000) e.content = g_text(s, 200); size_t n = 0; for (auto& t : e.tags) for (auto& v : t) n += v.size(); if (n > 4000) e.tags.resize(1), e.tags[0] = {"t", "x"}; if (e.created_at < 0 || e.created_at > (1LL << 52)) e.created_at = NOW; e.pubkey = pub; e.id = sha256(e.serial()); e.sig = string(64, 0); return e; }
static Ev seal_of(Src& s, const Key& from, const Key& to, const string& inner) { Ev e; string x; ecdh_x(from.priv, to.pub, &x); e.kind = 13; e.created_at = NOW - s.range(0, DAY2); e.content = enc44(x, s.bulk(32), inner); e.seal(from.priv); return e; }
static Ev wrap_of(Src& s, const Key& eph, const Key& to, const string& inner) { Ev e; string x; ecdh_x(eph.priv, to.pub, &x); e.kind = 1059; e.created_at = NOW - s.range(0, DAY2); e.content = enc44(x, s.bulk(32), inner); e.tags = {{"p", hex(to.pub)}}; e.seal(eph.priv); return e; }

// a direct message: everything about it, and its reading
PROP(P39, send, 4) {
  Key a = g_key(s), b = s.chance(1, 10) ? a : g_key(s); string text = s.chance(1, 8) ? string(s.size(30000), 'd') : g_text(s, 300), subj = g_text(s, 60), reply = g_bin32(s); bool hs = s.flip(), hr = s.flip(); int64_t at = s.flip() ? 0 : 1 + s.range(0, 4000000000LL); nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub); CStr ct(text), cs(subj); Raw rr(reply);
  nostr_event* e = nullptr; nostr_error_t r = nostr_nip17_send_dm(&e, ct, &k, &p, hs ? (const char*)cs : nullptr, hr ? (uint8_t*)rr.p : nullptr, at); c.nontrivial(hs || hr ? "message with subject or reply" : "plain message"); c.sample(vo::show(text, 60)); CHECK(r == NOSTR_OK && e, "send_dm(%zu bytes) -> %d", text.size(), r); Ev w = grab(e); Opened o = check_wrap(w, a, b, {});
  Ev want; want.kind = 14; want.pubkey = a.pub; want.created_at = at ? at : NOW; want.content = text; want.tags = {{"p", hex(b.pub)}}; if (hs) want.tags.push_back({"subject", subj}); if (hr) want.tags.push_back({"e", hex(reply)}); want.id = sha256(want.serial()); string why; want.sig = o.rumor.sig; CHECK(same_ev(o.rumor, want, &why), "the message sealed differs: %s\n  %s\n  %s", why.c_str(), o.rumor.json_text().substr(0, 500).c_str(), want.json_text().substr(0, 500).c_str()); CHECK(!schnorr_verify(a.pub, o.rumor.id, o.rumor.sig), "the message inside is signed");
  for (int dm = 0; dm < 2; dm++) { Un u = unwrap(dm, w, b.priv); CHECK(u.ok, "the recipient cannot unwrap (%d)", u.e); CHECK(same_ev(u.rumor, want, &why), "unwrapped: %s", why.c_str()); CHECK(u.author == a.pub, "unwrapped from another author"); }
  Key z = g_key(s); if (z.pub != b.pub) { Un u = unwrap(s.flip(), w, z.priv); CHECK(!u.ok, "a third key unwraps the message"); }
}
// the times of seals and wraps tell nothing: they are spread over both days
PROP(P39, spread, 1) {
  REQUIRE_CASE(s.chance(1, 20)); Key a = g_key(s), b = g_key(s); nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub); Ev m = g_rumor(s, a.pub); m.content = "x"; m.tags.clear(); m.id = sha256(m.serial()); EvPtr rumor(lib_event(m)); bool n17 = s.flip(), wrap = s.flip(); int64_t lo = INT64_MAX, hi = INT64_MIN;
  for (int i = 0; i < 40; i++) { nostr_event *sl = nullptr, *w = nullptr; CHECK((n17 ? nostr_nip17_create_seal(&sl, rumor.e, &k, &p) : nostr_nip59_create_seal(&sl, rumor.e, &k, &p)) == NOSTR_OK, "create_seal"); EvPtr seal(sl); if (wrap) CHECK((n17 ? nostr_nip17_create_gift_wrap(&w, sl, &p) : nostr_nip59_create_gift_wrap(&w, sl, &p, nullptr, 0)) == NOSTR_OK, "create_gift_wrap"); EvPtr wp(w); int64_t t = wrap ? w->created_at : sl->created_at; lo = std::min(lo, t); hi = std::max(hi, t); }
  c.nontrivial("times"); c.sample(strf("%lld to %lld before now", (long long)(NOW - hi), (long long)(NOW - lo))); CHECK(lo < NOW - 86400 && hi > NOW - 86400 && hi <= NOW && lo >= NOW - DAY2, "forty times lie between %lld and %lld seconds before now", (long long)(NOW - hi), (long long)(NOW - lo));
}
// the pieces of both NIPs put together in any combination
PROP(P39, pieces, 4) {
  Key a = g_key(s), b = g_key(s); Ev m = g_rumor(s, a.pub); nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub), ap = lpub(a.pub); string why; int how = (int)s.below(4); if (s.chance(1, 3)) { m.created_at = NOW; m.tags.clear(); }
  nostr_event* r0 = nullptr; bool made = false;
  if (how == 0 && m.tags.empty()) { CStr ct(m.content); bool d = s.flip(); int64_t at = s.flip() ? 0 : m.created_at; if (!d || !at) m.created_at = NOW; m.id = sha256(m.serial()); nostr_error_t e = d ? nostr_nip17_create_rumor(&r0, (uint16_t)m.kind, &ap, ct, at) : nostr_nip59_create_rumor(&r0, (uint16_t)m.kind, &ap, ct); CHECK(e == NOSTR_OK && r0, "create_rumor -> %d", e); Ev g = from_lib(r0); CHECK(same_ev(g, m, &why), "the rumor made: %s", why.c_str()); CHECK(g.sig == string(64, 0), "a signed rumor"); made = true; } else { m.id = sha256(m.serial()); r0 = lib_event(m); }
  EvPtr rumor(r0); nostr_event* w = nullptr; vector<vector<string>> extra; nostr_error_t e;
  if (how == 3) { e = nostr_nip59_wrap_event(&w, rumor.e, &k, &p); CHECK(e == NOSTR_OK && w, "wrap_event -> %d", e); }
  else { nostr_event* sl = nullptr; e = s.flip() ? nostr_nip17_create_seal(&sl, rumor.e, &k, &p) : nostr_nip59_create_seal(&sl, rumor.e, &k, &p); CHECK(e == NOSTR_OK && sl, "create_seal -> %d", e); EvPtr seal(sl); Ev g = from_lib(sl); CHECK(g.kind == 13 && g.tags.empty() && g.pubkey == a.pub && proper(g), "seal %s", show(g).c_str()); if (s.flip()) { e = nostr_nip17_create_gift_wrap(&w, sl, &p); } else { for (size_t i = s.chance(1, 6) ? s.below(80) : s.below(4); i--;) extra.push_back({g_ascii(s, 6, "abcdefk") + "x", g_text(s, 30)}); vector<const char*> f; for (auto& t : extra) for (auto& v : t) f.push_back(v.c_str()); e = nostr_nip59_create_gift_wrap(&w, sl, &p, f.empty() && s.flip() ? nullptr : f.data(), f.size()); } CHECK(e == NOSTR_OK && w, "create_gift_wrap -> %d", e); }
  c.nontrivial(how == 3 ? "wrapped in one step" : made ? "made by steps, rumor too" : "made by steps"); c.sample(m.json_text().substr(0, 80)); Ev g = grab(w); Opened o = check_wrap(g, a, b, extra); CHECK(same_ev(o.rumor, m, &why), "sealed: %s", why.c_str()); Un u = unwrap(s.flip(), g, b.priv, s.chance(3, 4)); CHECK(u.ok && same_ev(u.rumor, m, &why), "unwrapped (%d): %s", u.e, why.c_str());
}
// wraps of other programs, proper and not
PROP(P39, foreign, 8) {
  Key a = g_key(s), b = g_key(s), eph = g_key(s), z = g_key(s); REQUIRE_CASE(z.pub != a.pub && z.pub != b.pub && eph.pub != z.pub); Ev m = g_rumor(s, a.pub); JV j = m.json(); vector<std::pair<string, JV>> ms; bool with_sig = s.flip(); for (auto& kv : j.o) if (kv.first != "sig" || with_sig) ms.push_back(kv); j.o = ms; string inner = json_variant(j, s); const char* what = with_sig ? "foreign" : "foreign, unsigned rumor"; bool ok17 = true, ok59 = true, free59 = false; string priv = b.priv; int mode = s.flip() ? 0 : 1 + (int)s.below(12);
  if (mode == 1) { what = "author and seal disagree"; m.pubkey = z.pub; if (s.flip()) { m.pubkey = a.pub; m.pubkey[s.flip() ? 31 : s.below(32)] ^= (char)(1 << s.below(8)); } m.id = sha256(m.serial()); inner = m.json_text(); ok17 = false; free59 = true; }
  if (mode == 2) { what = "rumor is no event"; inner = s.flip() ? "[]" : inner.substr(0, inner.size() - 1 - s.below(inner.size() - 1)); ok17 = ok59 = false; }
  if (mode == 12) { what = "U+0000 in the rumor"; JV k = j; REQUIRE_CASE(put_nul(k, s)); inner = json_variant(k, s); ok17 = ok59 = false; }
  Ev seal = seal_of(s, a, b, inner);
  if (mode == 3) { what = "seal of another kind"; do seal.kind = (uint32_t)s.u64(2); while (seal.kind == 13); seal.seal(a.priv); ok17 = ok59 = false; }
  if (mode == 4) { what = "seal badly signed"; if (s.flip()) { seal.tags.push_back({"p", hex(b.pub)}); seal.seal(a.priv); } int w = (int)s.below(4); if (w == 0) seal.sig[s.below(64)] ^= (char)(1 << s.below(8)); else if (w == 1) seal.sig = string(64, 0); else if (w == 2) seal.created_at++; else { seal.sig = schnorr_sign(z.priv, seal.id, string(32, 1)); } ok17 = ok59 = false; }
  if (mode == 5) { what = "seal claims another author"; seal.pubkey = z.pub; if (s.flip()) seal.id = sha256(seal.serial()); ok17 = ok59 = false; }
  if (mode == 6) { what = "seal for another recipient"; seal = seal_of(s, a, z, inner); ok17 = ok59 = false; }
  string sj = json_variant(seal.json(), s); if (mode == 7) { what = "seal is no event"; sj = s.flip() ? "{}" : inner == sj ? "1" : sj.substr(0, sj.size() - 1 - s.below(sj.size() - 1)); ok17 = ok59 = false; }
  Ev w = wrap_of(s, eph, b, sj); if (mode == 8) { what = "wrap of another kind"; do w.kind = (uint32_t)s.u64(2); while (w.kind == 1059); w.seal(eph.priv); ok17 = ok59 = false; }
  if (mode == 9) { what = "wrap for another recipient"; w = wrap_of(s, eph, z, sj); ok17 = ok59 = false; }
  if (mode == 10) { what = "other recipient key"; priv = z.priv; ok17 = ok59 = false; }
  if (mode == 11) { what = "damaged wrap"; string p; unb64(w.content, &p); p[s.below(p.size())] ^= (char)(1 << s.below(8)); w.content = b64(p); w.seal(eph.priv); ok17 = ok59 = false; }
  c.nontrivial(what); c.sample(string(what) + " " + vo::show(inner, 80)); string why; if (!with_sig) m.sig = string(64, 0);
  bool named = s.chance(2, 3);   // the author's key may not be asked for
  for (int dm = 0; dm < 2; dm++) { Un u = unwrap(dm, w, priv, named); if (!named) u.author = a.pub; if (!dm && free59) { if (u.ok) CHECK(u.author == a.pub && same_ev(u.rumor, m, &why), "%s: author reported %s", what, hex(u.author).c_str()); continue; } CHECK(u.ok == (dm ? ok17 : ok59), "%s: nip%d unwrap -> %d\n  rumor %s", what, dm ? 17 : 59, u.e, vo::show(inner, 300).c_str()); if (u.ok) { CHECK(same_ev(u.rumor, m, &why), "%s: %s", what, why.c_str()); CHECK(u.author == a.pub, "author %s", hex(u.author).c_str()); } }
}
// two wraps of the same message have nothing in common
PROP(P39, unlinkable, 1) {
  Key a = g_key(s), b = g_key(s); REQUIRE_CASE(a.pub != b.pub); Ev m = g_rumor(s, a.pub); EvPtr r(lib_event(m)); nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub); bool dm = s.flip(), steps = s.flip(), one_seal = steps && s.flip(); nostr_event* os = nullptr; if (one_seal) CHECK(nostr_nip59_create_seal(&os, r.e, &k, &p) == NOSTR_OK, "create_seal"); EvPtr oseal(os); vector<Ev> ws, ss; c.nontrivial(one_seal ? "one seal wrapped repeatedly" : "repeated"); c.sample(dm ? "nip17" : "nip59");
  for (int i = 0; i < 5; i++) if (steps) { nostr_event *sl = os, *w = nullptr; if (!one_seal) CHECK((dm ? nostr_nip17_create_seal(&sl, r.e, &k, &p) : nostr_nip59_create_seal(&sl, r.e, &k, &p)) == NOSTR_OK, "create_seal"); EvPtr own(one_seal ? nullptr : sl); CHECK((dm ? nostr_nip17_create_gift_wrap(&w, sl, &p) : nostr_nip59_create_gift_wrap(&w, sl, &p, nullptr, 0)) == NOSTR_OK, "create_gift_wrap"); ws.push_back(grab(w)); string why; ss.push_back(open_wrap(ws.back(), b.priv, &why).seal); } else { nostr_event* w = nullptr; nostr_error_t e; CStr t(m.content.substr(0, 100)); e = dm ? nostr_nip17_send_dm(&w, t, &k, &p, nullptr, nullptr, 5) : nostr_nip59_wrap_event(&w, r.e, &k, &p); CHECK(e == NOSTR_OK, "-> %d", e); ws.push_back(grab(w)); string why; ss.push_back(open_wrap(ws.back(), b.priv, &why).seal); }
  bool tw = true, ts = true, eq = true; for (int i = 0; i < 5; i++) { for (int q = 0; q < i; q++) { CHECK(ws[i].pubkey != ws[q].pubkey, "the same wrapping key twice"); CHECK(ws[i].content != ws[q].content && (one_seal || ss[i].content != ss[q].content), "the same ciphertext twice"); } if (ws[i].created_at != ws[0].created_at) tw = false; if (ss[i].created_at != ss[0].created_at) ts = false; if (ws[i].created_at != ss[i].created_at) eq = false; CHECK(ws[i].json_text().find(hex(a.pub)) == string::npos, "the wrap names its author"); } CHECK(!tw && (one_seal || !ts) && !eq, "dates are not random: %lld %lld %lld", (long long)(ws[0].created_at - NOW), (long long)(ws[1].created_at - NOW), (long long)(ss[0].created_at - NOW));
}
PROP(P39, refuse, 1) {
  Key a = g_key(s), b = g_key(s); Ev m = g_rumor(s, a.pub); string priv = a.priv, pub = b.pub; const char* what; int mode = (int)s.below(3); if (mode == 0) { priv = bad_priv(s); what = "invalid private key"; } else if (mode == 1) { pub = bad_pub(s); what = "invalid public key"; } else { m.content = string(66000 + s.below(5000), 'l'); what = "too long"; } nostr_privkey k = lpriv(priv); nostr_key p = lpub(pub); c.nontrivial(what); c.sample(what);
  nostr_event* w = nullptr; CStr t(m.content); EvPtr r(lib_event(m)); CHECK(nostr_nip17_send_dm(&w, t, &k, &p, nullptr, nullptr, 0) != NOSTR_OK && !w, "%s: sent", what); CHECK(nostr_nip59_wrap_event(&w, r.e, &k, &p) != NOSTR_OK && !w, "%s: wrapped", what); CHECK(nostr_nip59_create_seal(&w, r.e, &k, &p) != NOSTR_OK && !w, "%s: sealed", what); CHECK(nostr_nip17_create_seal(&w, r.e, &k, &p) != NOSTR_OK && !w, "%s: sealed", what);
  if (mode == 1) { Ev q = seal_of(s, a, b, m.json_text()); EvPtr se(lib_event(q)); CHECK(nostr_nip59_create_gift_wrap(&w, se.e, &p, nullptr, 0) != NOSTR_OK && !w && nostr_nip17_create_gift_wrap(&w, se.e, &p) != NOSTR_OK && !w, "wrapped for an invalid key"); }
}
// no randomness: nothing is sent
PROP(P39, randomness, 1) {
  Key a = g_key(s), b = g_key(s); Ev m = g_rumor(s, a.pub); EvPtr r(lib_event(m)); nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub); CStr t(m.content); int dm = (int)s.below(2); auto un = defer([] { rand_mode = 0; }); c.nontrivial("randomness fails"); c.sample(dm ? "nip17" : "nip59"); auto run = [&](nostr_event** w) { return dm ? nostr_nip17_send_dm(w, t, &k, &p, nullptr, nullptr, 0) : nostr_nip59_wrap_event(w, r.e, &k, &p); }; rand_mode = 1; rand_seed(3); rand_calls = 0; nostr_event* w = nullptr; CHECK(run(&w) == NOSTR_OK, "wrap"); long n = rand_calls; nostr_event_destroy(w); CHECK(n >= 5, "only %ld draws", n);
  for (long i = 0; i < n; i++) for (int mode : {2, 4}) { rand_mode = mode; rand_fail_after = i; rand_calls = 0; w = nullptr; nostr_error_t e = run(&w); if (w) nostr_event_destroy(w); CHECK(e != NOSTR_OK && !w, "draw %ld of %ld fails%s: wrapped all the same", i, n, mode == 2 ? " with all later ones" : ""); }
}
PROP(P39, memory, 1) {
  Key a = g_key(s), b = g_key(s), eph = g_key(s); Ev m = g_rumor(s, a.pub); if (m.tags.size() > 2) m.tags.resize(2); m.id = sha256(m.serial()); nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub); CStr t(m.content); int what = (int)s.below(3); c.nontrivial("allocation failures"); c.sample(what == 0 ? "send" : what == 1 ? "wrap" : "unwrap"); Ev w = wrap_of(s, eph, b, seal_of(s, a, b, m.json_text()).json_text()); bool dm = s.flip(); EvPtr lm(lib_event(m)), lw(lib_event(w));
  with_faults(s, what == 0 ? "send_dm" : what == 1 ? "wrap_event" : "unwrap", [&] { string o; bool ok; if (what == 2) { Un u = unwrap_x(dm, lw.e, b.priv); ok = u.ok; if (ok) o = u.rumor.json_text(); } else { nostr_event* e = nullptr; nostr_error_t q = what == 0 ? nostr_nip17_send_dm(&e, t, &k, &p, "s", nullptr, 7) : nostr_nip59_wrap_event(&e, lm.e, &k, &p); ok = q == NOSTR_OK; CHECK(ok == (e != nullptr), "-> %d with %p", q, (void*)e); if (ok) { Ev g = grab(e); o = check_wrap(g, a, b, {}).rumor.json_text(); } } return std::make_pair(ok, o); });
}
