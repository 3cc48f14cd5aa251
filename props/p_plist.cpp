// P45 private items of NIP-51 lists
#include "enc.h"
#include <algorithm>

static const int64_t NOW = 1700000000;
static int inited = (before_case = [] { rand_mode = 0; nostr_init(); clock_virtual = true; clock_now = NOW; }, after_case = [] { rand_mode = 0; clock_virtual = false; }, 0);
struct Item { vector<string> v; bool priv = false; };
static vector<string> norm(vector<string> v) { while (v.size() > 2 && v.back().empty()) v.pop_back(); return v; }   // an empty hint says as little as none
static string text_of(const vector<Item>& l) { string o; for (auto& i : l) { o += i.priv ? "(" : "["; for (auto& x : norm(i.v)) o += vo::show(x) + "|"; o += i.priv ? ") " : "] "; } return o; }
static vector<Item> of_list(const nostr_list* l) { vector<Item> o; for (size_t i = 0; i < nostr_list_count(l); i++) { auto g = nostr_list_get(l, i); CHECK(g && g->tag_type && g->value, "item %zu missing", i); Item x; x.priv = g->is_private; x.v = {g->tag_type, g->value}; if (g->relay_hint || g->petname) x.v.push_back(g->relay_hint ? g->relay_hint : ""); if (g->petname) x.v.push_back(g->petname); o.push_back(x); } return o; }
static bool same(const vector<Item>& a, const vector<Item>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].priv != b[i].priv || norm(a[i].v) != norm(b[i].v)) return false; return true; }
static string where(const vector<Item>& a, const vector<Item>& b) { for (size_t i = 0; i < a.size() || i < b.size(); i++) { vector<Item> x, y; if (i < a.size()) x = {a[i]}; if (i < b.size()) y = {b[i]}; if (!same(x, y)) return strf("item %zu is %s instead of %s", i, text_of(x).substr(0, 300).c_str(), text_of(y).substr(0, 300).c_str()); } return "same"; }
struct Kp { nostr_keypair k; explicit Kp(const Key& a) { nostr_privkey p = lpriv(a.priv); CHECK(nostr_keypair_from_private_key(&k, &p) == NOSTR_OK, "keypair"); } };
static string txt(Src& s) { static const size_t edge[] = {63, 64, 255, 256, 511, 512, 1023, 1024, 1025, 2047}; string t = g_text(s, 30); if (s.chance(1, 12)) { size_t n = s.pick(edge); t = string(n > t.size() ? n - t.size() : 0, 'v') + t; } for (auto& ch : t) if (!ch) ch = '0'; return t; }
static string some(Src& s) { string t = txt(s); return t.empty() ? "x" : t; }
struct L { nostr_list* l = nullptr; L() {} explicit L(uint32_t kind) { CHECK(nostr_list_create(&l, (uint16_t)kind) == NOSTR_OK, "create"); } ~L() { nostr_list_free(l); } L(const L&) = delete; };
static void add(Src& s, nostr_list* l, bool pv, vector<Item>* m) {
  string a = some(s), b = some(s), d = txt(s), id = g_hexid(s); bool hb = s.flip(), hd = s.flip(); CStr ca(a), cb(b), cd(d), ci(id); Item it; it.priv = pv; nostr_error_t e;
  switch (s.below(8)) {
    case 0: e = nostr_list_add_pubkey(l, ci, hb ? cb.p : nullptr, hd ? cd.p : nullptr, pv); it.v = {"p", id, hb ? b : "", hd ? d : ""}; break;
    case 1: e = nostr_list_add_event(l, ci, hb ? cb.p : nullptr, pv); it.v = {"e", id, hb ? b : ""}; break;
    case 2: e = nostr_list_add_hashtag(l, ca, pv); it.v = {"t", a}; break;
    case 3: e = nostr_list_add_word(l, ca, pv); it.v = {"word", a}; break;
    case 4: e = nostr_list_add_relay(l, ca, pv); it.v = {"relay", a}; break;
    case 5: e = nostr_list_add_reference(l, ca, hb ? cb.p : nullptr, pv); it.v = {"a", a, hb ? b : ""}; break;
    case 6: e = nostr_list_add_group(l, ca, cb, hd ? cd.p : nullptr, pv); it.v = {"group", a, b, hd ? d : ""}; break;
    default: e = nostr_list_add_emoji(l, ca, cb, pv); it.v = {"emoji", a, b}; break;
  }
  CHECK(e == NOSTR_OK, "add %s -> %d", it.v[0].c_str(), e); m->push_back(it);
}
static bool json_items(const string& t, vector<Item>* o) { JV j; if (!json_parse(t, &j) || j.t != JV::Arr) return false; for (auto& a : j.a) { Item i; i.priv = true; if (a.t != JV::Arr) return false; for (auto& x : a.a) { if (x.t != JV::Str) return false; i.v.push_back(x.s); } if (i.v.size() < 2) return false; o->push_back(i); } return true; }
PROP(P45, round, 5) {
  Key a = g_key(s); string x; CHECK(ecdh_x(a.priv, a.pub, &x), "own key"); Kp kp(a); static const uint32_t ks[] = {10000, 10003, 30000, 30003, 3}; L l(s.pick(ks)); vector<Item> m, pub, prv; bool big = s.chance(1, 25); size_t n = big ? 40 + s.below(60) : 1 + s.below(10); while (n--) add(s, l.l, s.chance(2, 3), &m); if (big) { string t(900, 'b'); for (size_t i = s.below(90); i--;) { CHECK(nostr_list_add_word(l.l, t.c_str(), true) == NOSTR_OK, "add"); Item it; it.v = {"word", t}; it.priv = true; m.push_back(it); } }
  size_t bytes = 2; for (auto& i : m) { (i.priv ? prv : pub).push_back(i); if (i.priv) for (auto& v : norm(i.v)) bytes += v.size() + 4; } c.nontrivial(prv.empty() ? "public only" : big ? "many" : "private items"); c.sample(text_of(m)); nostr_event* e = nullptr; nostr_error_t r = nostr_list_to_event(l.l, &kp.k, &e); EvPtr ep(e);
  if (r != NOSTR_OK) { CHECK(!e && bytes > 15000, "to_event -> %d with %zu private bytes", r, bytes); if (6 * bytes < 65000) CHECK(0, "to_event -> %d with %zu private bytes", r, bytes); return; } CHECK(e != nullptr, "no event"); CHECK(bytes <= 70000, "%zu private bytes in an event", bytes); Ev g = from_lib(e);
  vector<Item> tags; for (auto& t : g.tags) if (t.size() >= 2 && t[0] != "d") { Item i; i.v = t; tags.push_back(i); } CHECK(same(tags, pub), "the tags are not the public items: %s", where(tags, pub).c_str()); CHECK(g.created_at == NOW, "time");
  if (prv.empty()) CHECK(g.content.empty(), "content without private items"); else { string t; CHECK(open44(x, g.content, &t), "the content does not open under the own key: %s", vo::show(g.content, 100).c_str()); vector<Item> in; CHECK(json_items(t, &in), "the content is no array of tags: %s", vo::show(t, 400).c_str()); CHECK(same(in, prv), "the content: %s", where(in, prv).c_str()); }
  if (s.chance(1, 3)) { nostr_event* u = nullptr; r = nostr_list_to_event(l.l, nullptr, &u); EvPtr up(u); CHECK((r == NOSTR_OK) == prv.empty() && (u != nullptr) == prv.empty(), "to_event without a key of %zu private items -> %d", prv.size(), r); if (u) CHECK(from_lib(u).tags == g.tags && from_lib(u).content.empty(), "without a key: %s", show(from_lib(u)).c_str()); }
  L b; CHECK(nostr_list_from_event(e, &kp.k, &b.l) == NOSTR_OK, "from_event of %s", vo::show(g.json_text(), 300).c_str()); vector<Item> want = pub; want.insert(want.end(), prv.begin(), prv.end()); vector<Item> got = of_list(b.l); CHECK(same(got, want), "read back: %s", where(got, want).c_str()); L p; CHECK(nostr_list_from_event(e, nullptr, &p.l) == NOSTR_OK, "from_event without a key"); got = of_list(p.l); CHECK(same(got, pub), "read without a key: %s", where(got, pub).c_str());
}
// lists of other programs, proper and not
static string g_private(Src& s, vector<Item>* prv) { vector<JV> rows; for (size_t i = s.below(6); i--;) { static const char* ty[] = {"p", "e", "t", "word", "a", "relay", "group", "emoji", "r"}; vector<JV> r; Item it; it.priv = true; it.v = {s.chance(1, 10) ? some(s) : string(s.pick(ty)), some(s)}; size_t more = s.weighted({4, 3, 2, 1}); for (size_t k = 0; k < more; k++) it.v.push_back(s.chance(1, 5) ? "" : txt(s)); for (auto& v : it.v) r.push_back(jstr(v)); it.v.resize(std::min<size_t>(it.v.size(), 4)); if (s.chance(1, 8)) { r.resize(s.below(2)); } else prv->push_back(it); rows.push_back(jarr(r)); } return json_variant(jarr(rows), s); }
PROP(P45, foreign, 5) {
  Key a = g_key(s), z = g_key(s); string x; CHECK(ecdh_x(a.priv, a.pub, &x), "own key"); Kp kp(a); vector<Item> pub, prv; Ev e; e.kind = 10000; e.created_at = NOW; for (size_t i = s.below(4); i--;) { Item it; it.v = {"t", some(s)}; pub.push_back(it); e.tags.push_back(it.v); } string t = g_private(s, &prv), why; const char* what = "proper"; bool ok = true, cut = false; int mode = s.chance(3, 5) ? 0 : 1 + (int)s.below(7); Key author = a;
  switch (mode) {
    case 1: { JV j; size_t n = s.below(t.size()); t.resize(n); if (t.empty()) t = " "; what = "cut"; ok = json_parse(t, &j); cut = true; break; }
    case 2: t += s.flip() ? "x" : "]"; what = "more text"; ok = false; break;
    case 3: { static const char* bad[] = {"{}", "7", "null", "\"x\"", "[7]", "[\"p\",\"x\"]", "[[\"p\",5]]", "[[\"p\" \"x\"]]", "[[\"p\",\"x\"][\"t\",\"y\"]]", "[{\"p\":\"x\"}]", "[[\"p\",\"x\"],]", "[[\"p\",\"x\",]]", "[,[\"p\",\"x\"]]", "[[\"p\",\"x]]", "[[\"p\",\"x\\\"]]", "[[\"p\",[\"x\"]]]", "[[\"p\",null]]", "x[[\"p\",\"y\"]]", "[[p,\"y\"]]", "[[\"p\",\"x\"}]", "[[\"t\",\"a\",\"b\",\"c\",\"d\\\",\"e\"]]", "[[\"t\",\"\\u12G4\"]]", "[[\"t\",\"a\\u0000b\"]]", "[[\"word\",\"\\u0000\"],[\"p\",\"x\"]]", "[[\"t\",\"a\",\"b\\u0000\"]]", "[[\"e\\u0000\",\"a\"]]", "[[\"t\",\"\\x41\"]]"}; t = s.pick(bad); what = "malformed"; ok = false; break; }
    case 4: { REQUIRE_CASE(z.pub != a.pub); ecdh_x(z.priv, z.pub, &x); what = "sealed for another key"; ok = false; break; }
    case 5: what = "damaged"; ok = false; break;
    case 6: { static const char* n[] = {"plain text", "AgKx", "cGxhaW4=?iv=AAAAAAAAAAAAAAAAAAAAAA==", "#"}; why = s.pick(n); what = "not sealed"; ok = false; break; }
    case 7: prv.clear(); t = s.flip() ? "[]" : " [ ] "; what = "none"; break;
  }
  e.content = mode == 6 ? why : enc44(x, s.bulk(32), t); if (mode == 5) { string p; unb64(e.content, &p); p[s.below(p.size())] ^= (char)(1 << s.below(8)); e.content = b64(p); } e.seal(author.priv); c.nontrivial(what); c.sample(vo::show(t, 100)); EvPtr ev(lib_event(e)); heap_reset();
  { L b; nostr_error_t r = nostr_list_from_event(ev.e, &kp.k, &b.l); CHECK((r == NOSTR_OK) == ok, "%s: from_event -> %d of %s", what, r, vo::show(t, 400).c_str()); CHECK((r == NOSTR_OK) == (b.l != nullptr), "a list from a refused event"); if (ok && !cut) { vector<Item> want = pub, got = of_list(b.l); want.insert(want.end(), prv.begin(), prv.end()); CHECK(same(got, want), "%s of %s", where(got, want).c_str(), vo::show(t, 600).c_str()); } } CHECK(heap_live() == 0, "%s: leaks %s", what, heap_live_desc().c_str());
}
// Escapes that name no character: refused, or read as text that is well-formed.
PROP(P45, surrogates, 1) {
  Key a = g_key(s); string x; CHECK(ecdh_x(a.priv, a.pub, &x), "own key"); Kp kp(a); static const unsigned edge[] = {0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x20, 0xd83d, 0xde00}; string v, want; bool good = true; uint32_t hi = 0; size_t n = 1 + s.below(4);
  while (n--) { uint32_t u = s.flip() ? s.pick(edge) : 1 + (uint32_t)s.below(0xffff); v += strf(s.flip() ? "\\u%04x" : "\\u%04X", u); if (hi) { if (u >= 0xdc00 && u <= 0xdfff) want += utf8(0x10000 + ((hi - 0xd800) << 10) + (u - 0xdc00)); else good = false; hi = 0; } else if (u >= 0xd800 && u <= 0xdbff) hi = u; else if (u >= 0xdc00 && u <= 0xdfff) good = false; else want += utf8(u); if (s.chance(1, 4)) { v += "a"; want += "a"; if (hi) good = false; hi = 0; } } if (hi) good = false;
  Ev e; e.kind = 10000; e.created_at = NOW; e.content = enc44(x, s.bulk(32), "[[\"t\",\"" + v + "\"]]"); e.seal(a.priv); EvPtr ev(lib_event(e)); c.nontrivial(good ? "proper" : "improper"); c.sample(v); L b; nostr_error_t r = nostr_list_from_event(ev.e, &kp.k, &b.l); CHECK((r == NOSTR_OK) == (b.l != nullptr), "from_event -> %d", r);
  if (good) { CHECK(r == NOSTR_OK, "from_event -> %d of %s", r, v.c_str()); vector<Item> got = of_list(b.l); CHECK(got.size() == 1 && got[0].v == vector<string>({"t", want}), "%s read as %s", v.c_str(), text_of(got).c_str()); } else if (b.l) for (auto& i : of_list(b.l)) for (auto& y : i.v) CHECK(utf8_valid(y), "%s read as %s", v.c_str(), vo::show(y).c_str());
}
PROP(P45, memory, 1) {
  Key a = g_key(s); Kp kp(a); L l(30000); vector<Item> m; for (size_t i = 1 + s.below(3); i--;) add(s, l.l, s.flip(), &m); add(s, l.l, true, &m); c.nontrivial("allocation failures"); c.sample(text_of(m)); with_faults(s, "to_event", [&] { nostr_event* e = nullptr; nostr_error_t r = nostr_list_to_event(l.l, &kp.k, &e); CHECK((r == NOSTR_OK) == (e != nullptr), "to_event -> %d with %p", r, (void*)e); EvPtr p(e); return std::make_pair(r == NOSTR_OK, e ? from_lib(e).json_text() : string()); });
  nostr_event* e = nullptr; CHECK(nostr_list_to_event(l.l, &kp.k, &e) == NOSTR_OK, "to_event"); EvPtr p(e); with_faults(s, "from_event", [&] { L b; nostr_error_t r = nostr_list_from_event(e, &kp.k, &b.l); CHECK((r == NOSTR_OK) == (b.l != nullptr), "from_event -> %d", r); return std::make_pair(r == NOSTR_OK, b.l ? text_of(of_list(b.l)) : string()); });
}
PROP(P45, random, 1) { Key a = g_key(s); Kp kp(a); L l(10000); vector<Item> m; add(s, l.l, true, &m); c.nontrivial("no randomness"); c.sample("no randomness"); rand_mode = 2; rand_fail_after = 0; heap_reset(); nostr_event* e = nullptr; nostr_error_t r = nostr_list_to_event(l.l, &kp.k, &e); rand_mode = 0; CHECK(r != NOSTR_OK && !e && heap_live() == 0, "to_event without randomness -> %d", r); }
