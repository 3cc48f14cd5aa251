// P09 filter matching, P10 filter text, P11 client messages, P12 relay messages, P13 kinds and
// replacement order, P14 event validation, P15 deletion requests, P16 expiration
#include "oracle.h"
#include <algorithm>
#include <set>
#include <climits>
using namespace vf; using namespace vo;

// ---------------------------------------------------------------- filter model
struct Flt {
  bool has_ids = false, has_authors = false, has_kinds = false, has_since = false, has_until = false, has_limit = false, has_search = false;
  vector<string> ids, authors; vector<int32_t> kinds; vector<std::pair<char, vector<string>>> tags;   // one entry per letter
  int64_t since = 0, until = 0; int32_t limit = 0; string search;
};
static const vector<string>* tagvals(const Flt& f, char c) { for (auto& t : f.tags) if (t.first == c) return &t.second; return nullptr; }
static bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
static bool model_match(const Flt& f, const Ev& e) {
  auto pre = [](const vector<string>& v, const string& h) { for (auto& x : v) if (x.size() <= h.size() && starts(h, x)) return true; return false; };
  if (!f.ids.empty() && !pre(f.ids, hex(e.id))) return false;
  if (!f.authors.empty() && !pre(f.authors, hex(e.pubkey))) return false;
  if (!f.kinds.empty() && std::find(f.kinds.begin(), f.kinds.end(), (int32_t)e.kind) == f.kinds.end()) return false;
  if (f.since > 0 && e.created_at < f.since) return false;
  if (f.until > 0 && e.created_at > f.until) return false;
  for (auto& t : f.tags) {
    if (t.second.empty()) continue;
    bool m = false; for (auto& g : e.tags) if (g.size() >= 2 && g[0] == string(1, t.first)) for (auto& v : t.second) if (v == g[1]) m = true;
    if (!m) return false;
  }
  return true;
}
struct CF {   // a nostr_filter_t over harness-owned memory
  nostr_filter_t f; vector<std::unique_ptr<CStr>> strs; vector<std::unique_ptr<char*[]>> arrs; vector<std::unique_ptr<nostr_generic_tag_filter_t[]>> gen; vector<int32_t> kinds;
  char** arr(const vector<string>& v, size_t* n) { *n = v.size(); if (v.empty()) return nullptr; arrs.emplace_back(new char*[v.size()]); for (size_t i = 0; i < v.size(); i++) { strs.emplace_back(new CStr(v[i])); arrs.back()[i] = strs.back()->p; } return arrs.back().get(); }
  explicit CF(const Flt& m) {
    memset(&f, 0, sizeof f); f.ids = arr(m.ids, &f.ids_count); f.authors = arr(m.authors, &f.authors_count); kinds = m.kinds; f.kinds = kinds.empty() ? nullptr : kinds.data(); f.kinds_count = kinds.size();
    vector<std::pair<char, vector<string>>> g; for (auto& t : m.tags) { if (t.first == 'e') f.e_tags = arr(t.second, &f.e_tags_count); else if (t.first == 'p') f.p_tags = arr(t.second, &f.p_tags_count); else g.push_back(t); }
    if (!g.empty()) { gen.emplace_back(new nostr_generic_tag_filter_t[g.size()]); f.generic_tags = gen.back().get(); f.generic_tags_count = g.size(); for (size_t i = 0; i < g.size(); i++) { f.generic_tags[i].tag_name = g[i].first; f.generic_tags[i].values = arr(g[i].second, &f.generic_tags[i].values_count); } }
    f.since = m.since; f.until = m.until; f.limit = m.limit; if (m.has_search) { strs.emplace_back(new CStr(m.search)); f.search = strs.back()->p; }
  }
};
static string show(const Flt& f) { string o = strf("ids=%zu authors=%zu kinds=%zu since=%lld until=%lld limit=%d", f.ids.size(), f.authors.size(), f.kinds.size(), (long long)f.since, (long long)f.until, f.limit); for (auto& t : f.tags) o += strf(" #%c=%zu", t.first, t.second.size()); if (f.has_search) o += " search"; return o; }
static string g_val(Src& s) { static const char* v[] = {"a", "b", "nostr", "", "bitcoin", "A"}; return s.chance(2, 3) ? string(s.pick(v)) : s.flip() ? hex(sha256(strf("v%u", (unsigned)s.below(3)))) : g_text(s, 12); }
// an event drawn from small pools so that filters built from the same pools often match it
static Ev g_pool_ev(Src& s) {
  Ev e; e.id = s.chance(3, 4) ? sha256(strf("id %u", (unsigned)s.below(6))) : g_bin32(s); e.pubkey = pubkey_n((unsigned)s.below(5)); e.created_at = s.chance(1, 10) ? g_ts(s) : 1000 + s.range(-3, 3); static const uint32_t ks[] = {0, 1, 3, 7, 1000, 30023, 65535}; e.kind = s.pick(ks);
  size_t n = s.below(6); if (s.chance(1, 25)) n = s.range(200, 700);   // long lists
  bool mono = n > 10 && s.flip(); static const char* nm[] = {"e", "p", "t", "d", "E", "P", "a", "tt", ""};
  for (size_t i = 0; i < n; i++) { vector<string> t; t.push_back(mono ? "p" : s.pick(nm)); size_t k = n > 10 ? 1 : s.weighted({1, 6, 3}); while (k--) t.push_back(n > 10 ? strf("v%zu", i) : g_val(s)); e.tags.push_back(t); }
  e.content = "x"; e.sig = string(64, 1); return e;
}
static string g_prefix(Src& s, const string& h) { string o = s.flip() ? h : h.substr(0, 1 + s.below(64)); if (s.chance(1, 4)) { size_t p = s.below(o.size()); o[p] = "0123456789abcdef"[s.below(16)]; } return o; }
static Flt g_flt_for(Src& s, const Ev& e) {
  Flt f; auto some = [&]() { return s.chance(2, 5); }; size_t n;
  if (some()) { n = 1 + s.below(3); while (n--) f.ids.push_back(g_prefix(s, s.flip() ? hex(e.id) : hex(sha256(strf("id %u", (unsigned)s.below(6)))))); f.has_ids = true; }
  if (some()) { n = 1 + s.below(3); while (n--) f.authors.push_back(g_prefix(s, s.flip() ? hex(e.pubkey) : hex(pubkey_n((unsigned)s.below(5))))); f.has_authors = true; }
  if (some()) { n = 1 + s.below(4); while (n--) f.kinds.push_back(s.flip() ? (int32_t)e.kind : s.flip() ? (int32_t)s.below(70000) : (int32_t)(e.kind + 65536 * s.range(-1, 1))); f.has_kinds = true; }
  if (some()) { f.since = e.created_at + s.range(-2, 2); if (f.since < 0) f.since = 0; f.has_since = true; }
  if (some()) { f.until = e.created_at + s.range(-2, 2); if (f.until < 0) f.until = 0; f.has_until = true; }
  static const char L[] = "eptdEPaz";
  for (size_t i = 0; i < sizeof L - 1; i++) if (s.chance(1, 5)) { vector<string> v; n = 1 + s.below(3); while (n--) { const vector<string>* src = nullptr; if (s.flip() && !e.tags.empty()) { src = &e.tags[s.below(e.tags.size())]; if (s.chance(2, 3)) for (int k = 0; k < 6 && (*src)[0] != string(1, L[i]); k++) src = &e.tags[s.below(e.tags.size())]; } v.push_back(src && src->size() >= 2 ? (*src)[src->size() > 2 && s.chance(1, 6) ? 2 : 1] : g_val(s)); } f.tags.push_back({L[i], v}); }
  if (s.chance(1, 12)) {   // as long as lists may be, the value that decides anywhere in them
    auto grow = [&](vector<string>& v, bool hexes) { if (v.empty()) return; size_t k = 100 + s.below(157); vector<string> big; for (size_t i = 0; i < k; i++) big.push_back(hexes ? strf("%064zx", i + 1) : strf("no value %zu", i)); for (auto& x : v) { size_t at = s.flip() ? big.size() : s.below(big.size() + 1); if (big.size() < 256) big.insert(big.begin() + at, x); else big[at < 256 ? at : 255] = x; } v = big; };
    switch (s.below(4)) { case 0: grow(f.ids, true); break; case 1: grow(f.authors, true); break; case 2: if (!f.kinds.empty()) { vector<int32_t> k; for (size_t i = 100 + s.below(100); i--;) k.push_back(2000 + (int32_t)i); k.insert(k.end(), f.kinds.begin(), f.kinds.end()); f.kinds = k; } break; default: for (auto& t : f.tags) grow(t.second, false); } }
  if (s.chance(1, 4)) f.limit = (int32_t)s.below(5);
  if (s.chance(1, 4)) { f.has_search = true; f.search = s.chance(1, 4) ? "" : "best nostr"; }
  return f;
}
PROP(P09, matches, 8) {
  Ev e = g_pool_ev(s); EvPtr x(lib_event(e)); Flt f = g_flt_for(s, e); CF cf(f); bool want = model_match(f, e), got = nostr_filter_matches(&cf.f, x.e);
  c.label(want ? "matches" : "no match"); if (e.tags.size() > 100) c.label("long tag list"); if (f.has_ids + f.has_authors + f.has_kinds + f.has_since + f.has_until + f.tags.size() > 0) c.nontrivial(); c.sample(show(f) + " / " + show(e));
  CHECK(got == want, "filter %s event %s (id %s): matches says %d", show(f).c_str(), show(e).c_str(), hex(e.id).c_str(), got);
  if (s.chance(1, 4)) { nostr_filter_t q; memset(&q, 0, sizeof q); if (nostr_filter_clone(&q, &cf.f) == NOSTR_RELAY_OK) { CHECK(nostr_filter_matches(&q, x.e) == want, "a clone of filter %s: another answer", show(f).c_str()); nostr_filter_free(&q); c.label("clone"); CHECK(nostr_filter_matches(&cf.f, x.e) == want, "after its clone was freed: another answer"); } else CHECK(false, "%s cannot be cloned", show(f).c_str()); }
  string why; CHECK(same(e, from_lib(x.e), &why), "matching changed the event: %s", why.c_str());
}
// one condition at a time, hitting and just missing
PROP(P09, single_condition, 4) {
  Ev e = g_pool_ev(s); EvPtr x(lib_event(e)); Flt f; switch (s.below(6)) {
    case 0: f.ids = {g_prefix(s, hex(e.id))}; break; case 1: f.authors = {g_prefix(s, hex(e.pubkey))}; break; case 2: f.kinds = {(int32_t)e.kind + (int32_t)s.range(-1, 1)}; break;
    case 3: f.since = std::max<int64_t>(0, e.created_at + s.range(-1, 1)); break; case 4: f.until = std::max<int64_t>(0, e.created_at + s.range(-1, 1)); break;
    default: if (e.tags.empty()) e.tags.push_back({"t", "x"}); auto& t = e.tags[s.below(e.tags.size())]; char L = t[0].size() == 1 ? t[0][0] : 't'; string v = t.size() > 1 ? t[1] : ""; if (s.chance(1, 3)) v += "x"; f.tags = {{L, {v}}}; }
  EvPtr y(lib_event(e)); CF cf(f); bool want = model_match(f, e), got = nostr_filter_matches(&cf.f, y.e); c.nontrivial(); c.label(want ? "matches" : "no match"); CHECK(got == want, "filter %s event %s: %d", show(f).c_str(), show(e).c_str(), got);
}
struct SC { int calls = 0; bool answer; string last; const nostr_event* ev = nullptr; };
static bool scb(const char* q, const nostr_event* e, void* u) { SC* x = (SC*)u; x->calls++; x->last = q; x->ev = e; return x->answer; }
PROP(P09, filter_lists_and_search, 4) {
  Ev e = g_pool_ev(s); EvPtr x(lib_event(e)); size_t n = s.below(4); vector<std::unique_ptr<CF>> keep; vector<nostr_filter_t> a; bool any = false, anys = false, anynull = false; SC sc; sc.answer = s.flip();
  for (size_t i = 0; i < n; i++) { Flt f = g_flt_for(s, e); keep.emplace_back(new CF(f)); a.push_back(keep.back()->f); bool m = model_match(f, e), srch = f.has_search && !f.search.empty(); any |= m; anys |= m && (!srch || sc.answer); anynull |= m && !srch;
    SC one; one.answer = sc.answer; bool r = nostr_filter_matches_with_search(&a.back(), x.e, scb, &one); CHECK(r == (m && (!srch || sc.answer)), "matches_with_search -> %d", r); CHECK(srch || one.calls == 0, "callback called without a search field"); if (one.calls) CHECK(one.last == f.search && one.ev == x.e, "callback arguments"); if (srch && m) { CHECK(one.calls > 0, "callback not consulted"); c.label("search"); } }
  CHECK(nostr_filters_match(a.data(), n, x.e) == any, "filters_match over %zu filters, expected %d", n, any); CHECK(nostr_filters_match_with_search(a.data(), n, x.e, scb, &sc) == anys, "filters_match_with_search, expected %d", anys);
  CHECK(nostr_filters_match_with_search(a.data(), n, x.e, nullptr, nullptr) == anynull, "filters_match_with_search without a callback, expected %d", anynull); if (n > 1) c.nontrivial(); c.label(any ? "some match" : "none match");
}

// ---------------------------------------------------------------- P10 filter text
static Flt g_flt(Src& s, bool valid) {
  Flt f; auto many = [&](unsigned small) -> size_t { return s.chance(1, 30) ? 250 + s.below(7) : 1 + s.below(small); }; size_t n;
  if (s.chance(1, 3)) { f.has_ids = true; n = many(4); while (n--) f.ids.push_back(valid ? g_prefix(s, g_hexid(s)) : g_text(s, 70)); }
  if (s.chance(1, 3)) { f.has_authors = true; n = many(4); while (n--) f.authors.push_back(valid ? g_prefix(s, g_hexid(s)) : g_text(s, 70)); }
  if (s.chance(1, 3)) { f.has_kinds = true; n = many(5); while (n--) f.kinds.push_back(s.chance(1, 6) ? (int32_t)s.u64(4) : (int32_t)s.below(65536)); }
  string used; n = s.weighted({4, 3, 2, 1}); while (n--) { char L = s.chance(1, 2) ? "epEPtTda"[s.below(8)] : (char)(s.flip() ? s.range('a', 'z') : s.range('A', 'Z')); if (used.find(L) != string::npos) continue; used += L; vector<string> v; size_t k = many(4); while (k--) v.push_back((valid && (L == 'e' || L == 'p')) ? g_hexid(s) : s.flip() ? g_hexid(s) : g_text(s, 40)); f.tags.push_back({L, v}); }
  if (s.chance(1, 40)) for (const char* L = "abcdfghijklmnoqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; *L; L++) if (used.find(*L) == string::npos) f.tags.push_back({*L, {g_ascii(s, 5, "ab") + "x"}});
  if (s.chance(1, 3)) { f.has_since = true; f.since = g_ts(s); } if (s.chance(1, 3)) { f.has_until = true; f.until = g_ts(s); } if (s.chance(1, 3)) { f.has_limit = true; f.limit = s.flip() ? (int32_t)s.below(1000) : (int32_t)(s.u64(4) & 0x7fffffff); }
  if (s.chance(1, 4)) { f.has_search = true; f.search = s.chance(1, 20) ? g_text(s, 70000) : g_text(s, 60); }
  return f;
}
static JV strs(const vector<string>& v) { vector<JV> a; for (auto& x : v) a.push_back(jstr(x)); return jarr(a); }
static JV flt_json(const Flt& f, Src& s) {
  vector<std::pair<string, JV>> o; if (f.has_ids) o.push_back({"ids", strs(f.ids)}); if (f.has_authors) o.push_back({"authors", strs(f.authors)}); if (f.has_kinds) { vector<JV> a; for (auto k : f.kinds) a.push_back(jint(k)); o.push_back({"kinds", jarr(a)}); }
  for (auto& t : f.tags) o.push_back({string("#") + t.first, strs(t.second)}); if (f.has_since) o.push_back({"since", jint(f.since)}); if (f.has_until) o.push_back({"until", jint(f.until)}); if (f.has_limit) o.push_back({"limit", jint(f.limit)}); if (f.has_search) o.push_back({"search", jstr(f.search)});
  if (s.chance(1, 3)) { static const char* un[] = {"IDS", "Kinds", "Authors", "Since", "UNTIL", "LIMIT", "Search", "x", "#", "#ab", "#1", "ids ", "kind", ""}; size_t k = 1 + s.below(2); while (k--) { JV v; switch (s.below(4)) { case 0: v = jint(s.range(0, 5000)); break; case 1: v = strs({g_hexid(s)}); break; case 2: v = jarr({jint(7)}); break; default: v = jstr("zz"); } o.push_back({s.pick(un), v}); } }
  for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[s.below(i)]); return jobj(o);
}
static void eqstrs(const char* what, const char** v, size_t n, const vector<string>& w) { CHECK(n == w.size(), "%s: %zu values, expected %zu", what, n, w.size()); for (size_t i = 0; i < n; i++) CHECK(w[i] == v[i], "%s[%zu] = %s expected %s", what, i, vo::show(v[i]).c_str(), vo::show(w[i]).c_str()); }
static void check_filter(const nostr_filter_t* p, const Flt& f) {
  size_t n = 99; const char** v; v = nostr_filter_get_ids(p, &n); eqstrs("ids", v, n, f.ids); v = nostr_filter_get_authors(p, &n); eqstrs("authors", v, n, f.authors);
  const int32_t* k = nostr_filter_get_kinds(p, &n); CHECK(n == f.kinds.size(), "kinds: %zu expected %zu", n, f.kinds.size()); for (size_t i = 0; i < n; i++) CHECK(k[i] == f.kinds[i], "kinds[%zu] = %d expected %d", i, k[i], f.kinds[i]);
  for (const char* L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; *L; L++) { v = nostr_filter_get_tag_values(p, *L, &n); auto* w = tagvals(f, *L); char nm[3] = {'#', *L, 0}; eqstrs(nm, v, n, w ? *w : vector<string>()); }
  v = nostr_filter_get_e_tags(p, &n); eqstrs("e", v, n, tagvals(f, 'e') ? *tagvals(f, 'e') : vector<string>()); v = nostr_filter_get_p_tags(p, &n); eqstrs("p", v, n, tagvals(f, 'p') ? *tagvals(f, 'p') : vector<string>());
  CHECK(nostr_filter_has_tag_filters(p) == !f.tags.empty(), "has_tag_filters"); CHECK(nostr_filter_get_since(p) == f.since, "since %lld expected %lld", (long long)p->since, (long long)f.since); CHECK(nostr_filter_get_until(p) == f.until, "until %lld expected %lld", (long long)p->until, (long long)f.until); CHECK(nostr_filter_get_limit(p) == f.limit, "limit %d expected %d", p->limit, f.limit);
  const char* q = nostr_filter_get_search(p); CHECK((q ? string(q) : string()) == (f.has_search ? f.search : string()), "search"); CHECK(nostr_filter_has_search(p) == (f.has_search && !f.search.empty()), "has_search");
}
static bool hexpre(const string& h) { if (h.empty() || h.size() > 64) return false; for (char ch : h) if (!((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f'))) return false; return true; }
static bool model_valid(const Flt& f) { for (auto& x : f.ids) if (!hexpre(x)) return false; for (auto& x : f.authors) if (!hexpre(x)) return false; for (auto& t : f.tags) if (t.first == 'e' || t.first == 'p') for (auto& x : t.second) if (x.size() != 64 || !hexpre(x)) return false; return !f.has_search || f.search.size() <= NOSTR_DEFAULT_MAX_CONTENT_LENGTH; }
PROP(P10, parse_clone_validate, 8) {
  Flt f = g_flt(s, s.chance(3, 4)); JV j = flt_json(f, s); string t = s.flip() ? json_compact(j) : json_variant(j, s); Raw r(t); nostr_filter_t p; heap_reset(); memset(&p, 0x5a, sizeof p);
  nostr_relay_error_t e = nostr_filter_parse(r.p, r.n, &p); c.sample(vo::show(t, 200)); if (j.o.size() > 1) c.nontrivial();
  if (f.search.size() > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) { c.label("oversized search"); CHECK(e != NOSTR_RELAY_OK, "search of %zu bytes accepted", f.search.size()); CHECK(heap_live() == 0, "leak after refusal: %s", heap_live_desc().c_str()); return; }
  CHECK(e == NOSTR_RELAY_OK, "filter %s refused with %d: %s", show(f).c_str(), e, vo::show(t, 300).c_str()); check_filter(&p, f);
  nostr_validation_result_t vr; memset(&vr, 0x5a, sizeof vr); nostr_relay_error_t ve = nostr_filter_validate(&p, &vr); bool val = model_valid(f); CHECK((ve == NOSTR_RELAY_OK) == val && vr.valid == val, "validate -> %d valid=%d, expected %d", ve, vr.valid, val); c.label(val ? "valid" : "invalid values");
  if (!val) { char buf[400]; size_t n = nostr_validation_error_format(&vr, buf, sizeof buf); CHECK(n == strlen(buf) && n > 8 && !strncmp(buf, "invalid: ", 9), "error text %s", buf); CHECK(vr.error_code == ve, "error code in result %d vs %d", vr.error_code, ve); }
  nostr_filter_t q; memset(&q, 0, sizeof q); CHECK(nostr_filter_clone(&q, &p) == NOSTR_RELAY_OK, "clone"); check_filter(&q, f);
  if (s.flip()) { nostr_filter_free(&p); check_filter(&q, f); nostr_filter_free(&q); } else { nostr_filter_free(&q); check_filter(&p, f); nostr_filter_free(&p); }
  CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); nostr_filter_free(&p);   // freed filter may be freed again
}
// the parsed filter selects exactly the events the text asks for
PROP(P10, parsed_filter_matches_as_written, 4) {
  Ev e = g_pool_ev(s); Flt f = g_flt_for(s, e); f.has_limit = f.limit != 0; JV j = flt_json(f, s); string t = json_variant(j, s); Raw r(t); nostr_filter_t p; nostr_relay_error_t x = nostr_filter_parse(r.p, r.n, &p); CHECK(x == NOSTR_RELAY_OK, "refused %s", vo::show(t, 300).c_str());
  EvPtr le(lib_event(e)); bool got = nostr_filter_matches(&p, le.e), want = model_match(f, e); nostr_filter_free(&p); c.label(want ? "matches" : "no match"); c.nontrivial(); c.sample(vo::show(t, 200)); CHECK(got == want, "filter %s on event %s: %d", vo::show(t, 300).c_str(), show(e).c_str(), got);
}
// ill-typed or oversized members and non-object texts are refused; nothing leaks
PROP(P10, refuses_malformed, 5) {
  Flt f = g_flt(s, true); JV j = flt_json(f, s); string t; const char* what; j.o.erase(std::remove_if(j.o.begin(), j.o.end(), [](auto& p) { return p.first == "ids"; }), j.o.end());
  auto bad_el = [&]() -> JV { switch (s.below(5)) { case 0: return jint(5); case 1: return jbool(s.flip()); case 2: return jnull(); case 3: return jarr({jstr("a")}); default: return jobj({}); } };
  auto set = [&](const char* k, JV v) { for (auto& p : j.o) if (p.first == k) { p.second = v; return; } j.o.insert(j.o.begin() + s.below(j.o.size() + 1), {k, v}); };
  static const char* SK[] = {"ids", "authors", "#e", "#p", "#t", "#E"};
  switch (s.below(8)) {
    case 0: { what = "not an object"; JV v; switch (s.below(5)) { case 0: v = jarr({j}); break; case 1: v = jstr("x"); break; case 2: v = jint(3); break; case 3: v = jnull(); break; default: v = jbool(true); } t = json_compact(v); break; }
    case 1: { what = "string array of another type"; JV v; switch (s.below(4)) { case 0: v = jstr(g_hexid(s)); break; case 1: v = jint(1); break; case 2: v = jobj({{"a", jint(1)}}); break; default: v = jbool(s.flip()); } set(s.pick(SK), v); t = json_compact(j); break; }
    case 2: { what = "non-string element"; vector<JV> a; size_t n = s.chance(1, 6) ? s.below(255) : s.below(3); while (n--) a.push_back(jstr(g_hexid(s))); a.insert(a.begin() + s.below(a.size() + 1), bad_el()); set(s.pick(SK), jarr(a)); t = json_compact(j); break; }
    case 3: { what = "kinds element"; vector<JV> a(s.chance(1, 4) ? s.below(255) : s.below(2), jint(1)); switch (s.below(4)) { case 0: a.push_back(jstr("1")); break; case 1: a.push_back(jraw(s.flip() ? "1.5" : "0.25")); break; case 2: a.push_back(jraw(s.flip() ? "4294967297" : "1e20")); break; default: a.push_back(jnull()); } set("kinds", jarr(a)); t = json_compact(j); break; }
    case 4: { what = "kinds not an array"; set("kinds", s.flip() ? jint(1) : s.flip() ? jstr("1") : jobj({})); t = json_compact(j); break; }
    case 5: if (s.chance(1, 4)) { what = "search of another type"; JV v = bad_el(); set("search", v.t == JV::Null ? jint(7) : v); t = json_compact(j); break; } { what = "number of another type"; static const char* NK[] = {"since", "until", "limit"}; JV v; switch (s.below(4)) { case 0: v = jstr("1000"); break; case 1: v = jarr({jint(5)}); break; case 2: v = jbool(s.flip()); break; default: v = jobj({}); } set(s.pick(NK), v); t = json_compact(j); break; }
    case 6: { what = "too many values"; size_t n = 257 + s.below(40); if (s.flip()) set(s.pick(SK), strs(vector<string>(n, g_hexid(s)))); else set("kinds", jarr(vector<JV>(n, jint(1)))); t = json_compact(j); break; }
    default: { what = "not JSON"; t = json_compact(j); if (s.flip()) t.resize(s.below(t.size())); else t = g_mut(s, t, 3); JV k; if (json_parse(t, &k)) throw Discard(); size_t z = t.find_last_of('}'); JV k2; if (z != string::npos && json_parse(t.substr(0, z + 1), &k2)) throw Discard(); if (!t.size()) throw Discard();
      Raw r(t); nostr_filter_t p; heap_reset(); if (nostr_filter_parse(r.p, r.n, &p) == NOSTR_RELAY_OK) nostr_filter_free(&p); CHECK(heap_live() == 0, "leak on %s", vo::show(t).c_str()); c.label(what); return; }   // laxer JSON than RFC 8259 may be accepted, but safely
  }
  c.label(what); c.nontrivial(); c.sample(vo::show(t, 200)); Raw r(t); nostr_filter_t p; heap_reset(); memset(&p, 0x5a, sizeof p); nostr_relay_error_t e = nostr_filter_parse(r.p, r.n, &p);
  if (e == NOSTR_RELAY_OK) nostr_filter_free(&p); CHECK(e != NOSTR_RELAY_OK, "%s accepted: %s", what, vo::show(t, 300).c_str()); CHECK(heap_live() == 0, "leak after refusal: %s", heap_live_desc().c_str()); nostr_filter_free(&p);
}
// a string with U+0000 cannot be handed out as a C string: it is refused, not cut short; a name with one is an unknown name
PROP(P10, nul_in_a_string, 2) {
  Flt f = g_flt(s, true); JV j = flt_json(f, s); vector<string> known{"ids", "authors", "search"}; bool names = s.chance(1, 3), must = false; size_t at = j.o.empty() ? 0 : s.below(j.o.size()); REQUIRE_CASE(!j.o.empty()); auto& m = j.o[at]; JV before = m.second; string nm = m.first; bool tag = nm.size() == 2 && nm[0] == '#' && isalpha((unsigned char)nm[1]);
  if (names) m.first += string(1, '\0') + (s.flip() ? "x" : ""); else { REQUIRE_CASE(put_nul(m.second, s)); must = tag || std::find(known.begin(), known.end(), nm) != known.end(); }
  string t = s.flip() ? json_compact(j) : json_variant(j, s); Raw r(t); nostr_filter_t p; heap_reset(); memset(&p, 0x5a, sizeof p); nostr_relay_error_t e = nostr_filter_parse(r.p, r.n, &p); c.nontrivial(); c.sample(vo::show(t, 200)); c.label(names ? "name" : must ? "value" : "unknown member");
  if (e == NOSTR_RELAY_OK) { CHECK(!must, "%s accepted", vo::show(t, 300).c_str()); if (names) { size_t n = 0; bool kept = nm == "ids" ? p.ids_count : nm == "authors" ? p.authors_count : nm == "kinds" ? p.kinds_count : nm == "since" ? p.since != 0 : nm == "until" ? p.until != 0 : nm == "limit" ? p.limit != 0 : nm == "search" ? nostr_filter_has_search(&p) : tag ? nostr_filter_get_tag_values(&p, nm[1], &n) && n : false; bool other = false; for (auto& x : j.o) if (&x != &m && x.first == nm) other = true; CHECK(!kept || other, "a member called %s was taken for %s", vo::show(m.first).c_str(), nm.c_str()); } nostr_filter_free(&p); }
  CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
PROP(P11, nul_in_a_string, 2) {
  JV a; const char* what; static const char* T[] = {"REQ", "CLOSE", "COUNT", "EVENT", "AUTH"}; unsigned k = (unsigned)s.below(5); JV ty = jstr(T[k]), id = jstr("sub"), fl = jobj({{"kinds", jarr({jint(1)})}, {"#t", strs({"x"})}, {"authors", strs({g_hexid(s)})}}); Ev ev = g_ev(s); ev.tags.push_back({"t", "v"}); JV body = ev.json();
  if (k < 3) { switch (s.below(3)) { case 0: what = "id"; put_nul(id, s); break; case 1: what = "type"; put_nul(ty, s); break; default: what = "filter"; if (k == 1) throw Discard(); put_nul(fl, s); } a = k == 1 ? jarr({ty, id}) : jarr({ty, id, fl}); }
  else { if (s.chance(1, 4)) { what = "type"; put_nul(ty, s); } else { what = "event"; put_nul(body, s); } a = jarr({ty, body}); }
  string t = s.flip() ? json_compact(a) : json_variant(a, s); Raw r(t); nostr_client_msg_t m; memset(&m, 0x5a, sizeof m); heap_reset(); nostr_relay_error_t e = nostr_client_msg_parse(r.p, r.n, &m); c.nontrivial(); c.label(what); c.sample(vo::show(t, 160));
  CHECK(e != NOSTR_RELAY_OK, "U+0000 in the %s accepted: %s", what, vo::show(t, 300).c_str()); CHECK(!nostr_client_msg_get_event(&m), "event after refusal"); nostr_client_msg_free(&m); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
PROP(P10, huge_timestamps, 1) {
  static const char* big[] = {"9223372036854775807", "9223372036854775808", "18446744073709551616", "1e19", "1e300", "9007199254740993"}; string n = s.pick(big); bool since = s.flip(); string t = string("{\"") + (since ? "since" : "until") + "\":" + n + "}"; Raw r(t); nostr_filter_t p; c.nontrivial(); c.sample(t);
  if (nostr_filter_parse(r.p, r.n, &p) != NOSTR_RELAY_OK) return; int64_t v = since ? p.since : p.until; nostr_filter_free(&p); CHECK(v >= 9007199254740991LL, "%s read as %lld", t.c_str(), (long long)v);
}

// ---------------------------------------------------------------- P11 client messages
static string g_subid(Src& s, bool* ok) {
  string t; switch (s.below(7)) { case 0: t = "sub1"; break; case 1: { size_t n = s.pick({1, 2, 63, 64, 65, 66, 128}); t = string(n, (char)s.range(33, 126)); break; } case 2: t = ""; break; case 3: { t = "ab"; t[s.below(2)] = (char)s.range(1, 31); break; } case 4: t = "a\x7f"; break; case 5: t = g_text(s, 70); break; default: t = g_ascii(s, 64, "abc !\"\\~0:/"); }
  *ok = !t.empty() && t.size() <= 64; for (unsigned char ch : t) if (ch < 32 || ch > 126) *ok = false; return t;
}
PROP(P11, req_close_count, 8) {
  static const char* T[] = {"REQ", "CLOSE", "COUNT"}; unsigned k = (unsigned)s.below(3); bool okid, ok; string id = g_subid(s, &okid); ok = okid; vector<JV> a{jstr(T[k]), jstr(id)}; vector<Flt> fs; const char* why = "well-formed";
  if (k != 1) { size_t n = s.chance(1, 12) ? 9 + s.below(4) : s.below(4); for (size_t i = 0; i < n; i++) { Flt f = g_flt(s, !s.chance(1, 15)); if (f.search.size() > 3000) f.search.resize(0); fs.push_back(f); a.push_back(flt_json(f, s)); if (!model_valid(f)) ok = false, why = "invalid filter"; } if (n > NOSTR_DEFAULT_MAX_FILTERS) ok = false, why = "too many filters";
    if (s.chance(1, 15)) { JV v; switch (s.below(4)) { case 0: v = jint(1); break; case 1: v = jstr("{}"); break; case 2: v = jarr({}); break; default: v = jnull(); } a.insert(a.begin() + 2 + s.below(a.size() - 1), v); ok = false; why = "filter not an object"; } }
  if (!okid) why = "bad id";
  switch (s.below(20)) { case 0: a[1] = s.flip() ? jint(5) : s.flip() ? jnull() : jarr({jstr("x")}); ok = false; why = "id not a string"; break; case 1: a.resize(1); ok = false; why = "id missing"; break; default: break; }
  string t = json_variant(jarr(a), s); Raw r(t); nostr_client_msg_t m; memset(&m, 0x5a, sizeof m); heap_reset(); nostr_relay_error_t e = nostr_client_msg_parse(r.p, r.n, &m); c.label(ok ? string(T[k]) : string("refuse: ") + why); c.sample(vo::show(t, 160)); if (fs.size() || !ok) c.nontrivial();
  CHECK((e == NOSTR_RELAY_OK) == ok, "%s -> %d (%s)", vo::show(t, 300).c_str(), e, why);
  if (ok) {
    CHECK(nostr_client_msg_get_type(&m) == (k == 0 ? NOSTR_CLIENT_MSG_REQ : k == 1 ? NOSTR_CLIENT_MSG_CLOSE : NOSTR_CLIENT_MSG_COUNT), "type %d", m.type); const char* sid = nostr_client_msg_get_subscription_id(&m); CHECK(sid && id == sid, "subscription id %s expected %s", sid ? vo::show(sid).c_str() : "NULL", vo::show(id).c_str());
    size_t n = 77; const nostr_filter_t* p = nostr_client_msg_get_filters(&m, &n); CHECK(n == fs.size(), "%zu filters expected %zu", n, fs.size()); for (size_t i = 0; i < n; i++) check_filter(&p[i], fs[i]); CHECK(!nostr_client_msg_get_event(&m), "event in a %s", T[k]);
  }
  nostr_client_msg_free(&m); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); nostr_client_msg_free(&m);
}
PROP(P11, event_auth, 6) {
  Ev ev = g_ev(s); if (s.chance(1, 6)) ev.created_at = (s.flip() ? -1 : 1) * (int64_t)(s.u64(8) & 0x1fffffffffffffULL); if (s.flip()) { ev.seal(privkey_n((unsigned)s.below(8))); } bool auth = s.flip(); JV body = ev.json(); bool ok = true; const char* why = auth ? "AUTH" : "EVENT";
  vector<JV> a{jstr(auth ? "AUTH" : "EVENT"), body};
  switch (s.below(12)) { case 0: a.resize(1); ok = false; why = "event missing"; break; case 1: { JV v; switch (s.below(5)) { case 0: v = jint(1); break; case 1: v = jstr(json_compact(body)); break; case 2: v = jarr({body}); break; case 3: v = jnull(); break; default: v = jbool(true); } a[1] = v; ok = false; why = "not an event object"; break; }
    case 2: { auto& o = a[1].o; for (auto& p : o) if (p.first == (s.flip() ? "id" : "sig")) p.second = jstr(g_ascii(s, 60, "0123456789abcdef")); ok = a[1].get("id")->s.size() == 64 && a[1].get("sig")->s.size() == 128; if (!ok) why = "mis-sized hex"; break; }
    case 3: { for (auto& p : a[1].o) if (p.first == "kind") p.second = s.flip() ? jint(65536 + (int64_t)s.below(100000)) : s.flip() ? jstr("1") : jint(-1); ok = false; why = "bad kind"; break; } default: break; }
  string t = json_variant(jarr(a), s); Raw r(t); nostr_client_msg_t m; memset(&m, 0x5a, sizeof m); heap_reset(); nostr_relay_error_t e = nostr_client_msg_parse(r.p, r.n, &m); c.label(why); c.nontrivial(); c.sample(vo::show(t, 160));
  CHECK((e == NOSTR_RELAY_OK) == ok, "%s -> %d (%s)", vo::show(t, 300).c_str(), e, why);
  if (ok) { CHECK(nostr_client_msg_get_type(&m) == (auth ? NOSTR_CLIENT_MSG_AUTH : NOSTR_CLIENT_MSG_EVENT), "type %d", m.type); const nostr_event* x = nostr_client_msg_get_event(&m); CHECK(x, "no event"); string w; CHECK(same(ev, from_lib(x), &w), "event differs: %s", w.c_str()); size_t n = 9; CHECK(!nostr_client_msg_get_subscription_id(&m) && !nostr_client_msg_get_filters(&m, &n) && n == 0, "accessors of another type"); }
  nostr_client_msg_free(&m); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
PROP(P11, other_texts, 3) {   // anything else is refused
  string t; const char* why; bool must = true; switch (s.below(6)) {
    case 0: { static const char* T[] = {"EVENTS", "event", "Req", "CLOSED", "", "OK", "NOTICE", "EOSE", "REQ ", " COUNT", "AUT"}; why = "unknown type"; t = json_compact(jarr({jstr(s.pick(T)), jstr("a"), jobj({})})); break; }
    case 1: { why = "type not a string"; JV v = s.flip() ? jint(1) : s.flip() ? jnull() : jarr({jstr("REQ")}); t = json_compact(jarr({v, jstr("a")})); break; }
    case 2: { why = "not an array"; JV v; switch (s.below(5)) { case 0: v = jobj({{"REQ", jstr("a")}}); break; case 1: v = jstr("REQ"); break; case 2: v = jint(4); break; case 3: v = jnull(); break; default: v = jobj({}); } t = json_compact(v); break; }
    case 3: why = "empty array"; t = s.flip() ? "[]" : "[ ]"; break;
    case 4: { why = "truncated"; t = json_compact(jarr({jstr("REQ"), jstr("sub"), flt_json(g_flt(s, true), s)})); t.resize(1 + s.below(t.size() - 1)); break; }
    default: { why = "mutated"; must = false; t = json_compact(s.flip() ? jarr({jstr("REQ"), jstr("sub"), flt_json(g_flt(s, true), s)}) : jarr({jstr("EVENT"), g_ev(s).json()})); t = g_mut(s, t, 5); if (t.empty()) throw Discard(); } }
  Raw r(t); nostr_client_msg_t m; memset(&m, 0x5a, sizeof m); heap_reset(); nostr_relay_error_t e = nostr_client_msg_parse(r.p, r.n, &m); c.label(why); c.nontrivial(); c.sample(vo::show(t, 100));
  if (must) { CHECK(e != NOSTR_RELAY_OK, "%s accepted: %s", why, vo::show(t, 300).c_str()); CHECK(!nostr_client_msg_get_event(&m), "event after refusal"); }
  else if (e == NOSTR_RELAY_OK) { const char* id = nostr_client_msg_get_subscription_id(&m); if (id) CHECK(nostr_validate_subscription_id(id), "accepted message with subscription id %s", vo::show(id).c_str()); size_t n; const nostr_filter_t* p = nostr_client_msg_get_filters(&m, &n); nostr_validation_result_t vr; for (size_t i = 0; i < n; i++) CHECK(nostr_filter_validate(&p[i], &vr) == NOSTR_RELAY_OK, "accepted message with an invalid filter"); }
  nostr_client_msg_free(&m); CHECK(heap_live() == 0, "leak on %s: %s", vo::show(t).c_str(), heap_live_desc().c_str());
}

// ---------------------------------------------------------------- P12 relay messages
static string cut(const string& s, size_t max) { if (s.size() <= max) return s; size_t n = max; while (n > 0 && ((unsigned char)s[n] & 0xc0) == 0x80) n--; return s.substr(0, n); }
static string g_msgtext(Src& s) { switch (s.below(4)) { case 0: { static const char* P[] = {NOSTR_OK_PREFIX_DUPLICATE, NOSTR_OK_PREFIX_POW, NOSTR_OK_PREFIX_INVALID, NOSTR_OK_PREFIX_RESTRICTED}; return string(s.pick(P)) + " " + g_text(s, 100); } case 1: { string u = s.flip() ? "\xc3\xa9" : s.flip() ? "\xe2\x82\xac" : "\xf0\x9f\x98\x80"; string o = string(s.below(5), 'a'); size_t n = s.range(110, 270); while (o.size() < n) o += u; return o; } case 2: return g_text(s, 300); default: return g_text(s, 40); } }
PROP(P12, serialize, 10) {
  nostr_relay_msg_t m; JV want; const char* k; std::unique_ptr<EvPtr> keep; Ev ev; memset(&m, 0x5a, sizeof m); string sub = s.flip() ? "sub1" : cut(g_text(s, 64), 64), msg = g_msgtext(s); bool cutmsg = false; CStr cs(sub), cm(msg);
  switch (s.below(7)) {
    case 0: { ev = g_ev(s); keep.reset(new EvPtr(lib_event(ev))); nostr_relay_msg_event(&m, cs, keep->e); want = jarr({jstr("EVENT"), jstr(sub), ev.json()}); k = "EVENT"; break; }
    case 1: { string id = g_hexid(s); bool b = s.flip(); CStr ci(id); nostr_relay_msg_ok(&m, ci, b, cm); want = jarr({jstr("OK"), jstr(id), jbool(b), jstr(cut(msg, 255))}); k = "OK"; cutmsg = msg.size() > 255; break; }
    case 2: nostr_relay_msg_eose(&m, cs); want = jarr({jstr("EOSE"), jstr(sub)}); k = "EOSE"; break;
    case 3: nostr_relay_msg_closed(&m, cs, cm); want = jarr({jstr("CLOSED"), jstr(sub), jstr(cut(msg, 255))}); k = "CLOSED"; cutmsg = msg.size() > 255; break;
    case 4: nostr_relay_msg_notice(&m, cm); want = jarr({jstr("NOTICE"), jstr(cut(msg, 255))}); k = "NOTICE"; cutmsg = msg.size() > 255; break;
    case 5: { string ch = cut(msg, 127); cutmsg = msg.size() > 127; nostr_relay_msg_auth(&m, cm); want = jarr({jstr("AUTH"), jstr(ch)}); k = "AUTH"; break; }
    default: { int64_t n = s.flip() ? s.range(-2, 2000) : (int64_t)(s.u64(8) >> s.below(40)); bool ap = s.flip(); nostr_relay_msg_count(&m, cs, n, ap); vector<std::pair<string, JV>> o{{"count", jint(n < 0 ? 0 : n)}}; if (ap) o.push_back({"approximate", jbool(true)}); want = jarr({jstr("COUNT"), jstr(sub), jobj(o)}); k = "COUNT"; }
  }
  c.label(k); if (cutmsg) c.label("truncated text"); string wt = json_compact(want); c.nontrivial(); c.sample(vo::show(wt, 120));
  vector<char> big(wt.size() * 7 + 400); size_t len = 0; heap_reset(); nostr_relay_error_t e = nostr_relay_msg_serialize(&m, big.data(), big.size(), &len); CHECK(e == NOSTR_RELAY_OK, "%s -> %d", k, e); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
  string got(big.data()); CHECK(len == got.size(), "length %zu reported for %zu bytes", len, got.size()); CHECK(utf8_valid(got), "%s is not valid UTF-8: %s", k, vo::show(got, 400).c_str()); JV j; string err; CHECK(json_parse(got, &j, &err), "not JSON (%s): %s", err.c_str(), vo::show(got, 400).c_str());
  CHECK(json_compact(j) == wt, "serialized %s, expected %s", vo::show(json_compact(j), 400).c_str(), vo::show(wt, 400).c_str());
  // exact buffer boundaries
  size_t b = s.pick({len, len + 1, len + 2, (size_t)1, s.below(len + 2) + 1}); CBuf o(b); size_t l2 = 12345; e = nostr_relay_msg_serialize(&m, o.p, b, s.flip() ? &l2 : nullptr); CHECK((e == NOSTR_RELAY_OK) == (b > len), "buffer of %zu for %zu bytes -> %d", b, len, e);
  if (b > len) CHECK(got == o.p, "different text in an exact buffer"); else { CHECK(e == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, "error %d", e); c.label("too small"); }
}
// a message built by the relay helpers is what a client's parser of the same names expects (EVENT bodies keep verifying)
PROP(P12, event_survives, 2) {
  Ev ev = g_ev(s); if (s.flip()) ev.created_at = (int64_t)(s.u64(8) & 0x1fffffffffffffULL); ev.seal(privkey_n((unsigned)s.below(8))); EvPtr x(lib_event(ev)); nostr_relay_msg_t m; nostr_relay_msg_event(&m, "s", x.e); vector<char> buf(ev.json_text().size() * 2 + 500); size_t n; CHECK(nostr_relay_msg_serialize(&m, buf.data(), buf.size(), &n) == NOSTR_RELAY_OK, "serialize");
  JV j; CHECK(json_parse(string(buf.data(), n), &j) && j.a.size() == 3, "JSON"); string body = json_compact(j.a[2]); CStr cb(body); nostr_event* y = nullptr; CHECK(nostr_event_from_json(cb, &y) == NOSTR_OK, "event body unreadable"); EvPtr yy(y); string w; CHECK(same(ev, from_lib(y), &w), "event changed: %s", w.c_str()); CHECK(nostr_event_verify(y) == NOSTR_OK, "event no longer verifies"); c.nontrivial();
  CBuf o(n + 1); size_t l; CHECK(nostr_event_serialize(x.e, o.p, n + 1, &l) == NOSTR_RELAY_OK && strlen(o.p) == l, "nostr_event_serialize");
}

// ---------------------------------------------------------------- P13 kinds and replacement order
static nostr_kind_type_t kind_model(int32_t k) { if (k == 0 || k == 3 || (k >= 10000 && k < 20000)) return NOSTR_KIND_REPLACEABLE; if (k >= 20000 && k < 30000) return NOSTR_KIND_EPHEMERAL; if (k >= 30000 && k < 40000) return NOSTR_KIND_ADDRESSABLE; return NOSTR_KIND_REGULAR; }
PROP(P13, kinds, 3) {
  int32_t k = s.flip() ? (int32_t)(s.pick({0, 1, 2, 3, 4, 5, 44, 45, 999, 1000, 9999, 10000, 19999, 20000, 29999, 30000, 39999, 40000, 65535}) + s.range(-1, 1)) : s.flip() ? (int32_t)s.below(70000) : (int32_t)s.u64(4); nostr_kind_type_t w = kind_model(k); c.nontrivial(); c.label(strf("type %d", w));
  CHECK(nostr_kind_get_type(k) == w, "kind %d -> %d expected %d", k, nostr_kind_get_type(k), w); CHECK(nostr_kind_is_regular(k) == (w == NOSTR_KIND_REGULAR) && nostr_kind_is_replaceable(k) == (w == NOSTR_KIND_REPLACEABLE) && nostr_kind_is_ephemeral(k) == (w == NOSTR_KIND_EPHEMERAL) && nostr_kind_is_addressable(k) == (w == NOSTR_KIND_ADDRESSABLE), "predicates of kind %d", k);
}
static Ev g_ord(Src& s) { Ev e; e.pubkey = pubkey_n(0); e.created_at = s.chance(1, 5) ? (int64_t)s.u64(8) : s.flip() ? s.range(0, 3) : (int64_t)(1LL << 32) * s.range(0, 2) + s.range(0, 2); e.id = string(32, 0); size_t p = s.chance(1, 3) ? s.below(32) : s.flip() ? 31 : 0; e.id[p] = (char)s.u8(); if (s.flip()) e.id[s.below(32)] = (char)0x80; e.content = "c"; e.sig = string(64, 0); return e; }
PROP(P13, replacement_order, 5) {   // a strict total order: newest first, ties to the lowest id; any delivery order keeps the same survivor
  size_t n = 2 + s.below(5); vector<Ev> m; vector<std::unique_ptr<EvPtr>> v; for (size_t i = 0; i < n; i++) { m.push_back(i && s.chance(1, 5) ? m[s.below(i)] : g_ord(s)); if (i && s.chance(1, 3)) m.back().created_at = m[0].created_at; v.emplace_back(new EvPtr(lib_event(m.back()))); }
  auto want = [&](const Ev& a, const Ev& b) { if (a.created_at != b.created_at) return a.created_at < b.created_at ? -1 : 1; int d = memcmp(a.id.data(), b.id.data(), 32); return d < 0 ? 1 : d > 0 ? -1 : 0; };
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { int w = want(m[i], m[j]), g = nostr_event_compare_replaceable(v[i]->e, v[j]->e), h = nostr_event_compare_addressable(v[i]->e, v[j]->e); CHECK(g == w && h == w, "compare(%lld/%s, %lld/%s) = %d/%d expected %d", (long long)m[i].created_at, hex(m[i].id).c_str(), (long long)m[j].created_at, hex(m[j].id).c_str(), g, h, w); if (w == 0 && i != j) c.label("equal"); if (m[i].created_at == m[j].created_at && w) c.label("tie on time"); }
  size_t a = 0, b = n - 1; for (size_t i = 1; i < n; i++) if (nostr_event_compare_replaceable(v[i]->e, v[a]->e) > 0) a = i; for (size_t i = n; i-- > 0;) if (nostr_event_compare_replaceable(v[i]->e, v[b]->e) > 0) b = i; CHECK(want(m[a], m[b]) == 0, "survivor depends on delivery order"); c.nontrivial(); c.sample(strf("%zu events", n));
}

// ---------------------------------------------------------------- P14 validation
PROP(P14, validate_full, 8) {
  clock_virtual = true; clock_now = 1700000000 + s.range(-1000, 1000); auto d = defer([] { clock_virtual = false; }); Ev e = g_ev(s); int64_t fut = s.chance(1, 12) ? (s.flip() ? INT64_MAX : INT64_MAX - (int64_t)s.below(2000000000)) : s.pick({(int64_t)900, (int64_t)0, (int64_t)1, (int64_t)3600, (int64_t)s.below(100000)}); std::set<int> faults;
  e.created_at = s.chance(1, 8) ? (int64_t)(s.u64(8) & 0x1fffffffffffffULL) : s.flip() ? clock_now - (int64_t)s.below(100000) : fut > 1000000 ? clock_now : clock_now + fut + s.range(-1, 1); if ((__int128)e.created_at > (__int128)clock_now + fut) faults.insert(NOSTR_RELAY_ERR_FUTURE_EVENT);
  e.tags.erase(std::remove_if(e.tags.begin(), e.tags.end(), [](auto& t) { return t[0] == "expiration"; }), e.tags.end());
  if (s.chance(1, 3)) { int64_t x = clock_now + s.range(-2, 2) * (s.flip() ? 1 : 1000); e.tags.insert(e.tags.begin() + s.below(e.tags.size() + 1), {"expiration", strf("%lld", (long long)x)}); if (x < clock_now) faults.insert(NOSTR_RELAY_ERR_EXPIRED_EVENT); if (x == clock_now) throw Discard(); }
  e.seal(privkey_n((unsigned)s.below(8))); EvPtr x(lib_event(e));
  switch (s.below(8)) { case 0: x->id[s.below(32)] ^= 1 << s.below(8); faults.insert({NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH}); break; case 1: x->sig[s.below(64)] ^= 1 << s.below(8); faults.insert(NOSTR_RELAY_ERR_SIG_MISMATCH); break; case 2: x->kind ^= 1; faults.insert({NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH}); break;
    case 3: { string o = e.content + "x"; CStr co(o); nostr_event_set_content(x.e, co); faults.insert({NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH}); break; }
    case 4: { x->created_at -= 1; faults.insert({NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH}); if ((__int128)x->created_at <= (__int128)clock_now + fut) faults.erase(NOSTR_RELAY_ERR_FUTURE_EVENT); break; }
    case 5: { Ev f = e; f.content += "y"; f.id = sha256(f.serial()); CStr co(f.content); nostr_event_set_content(x.e, co); memcpy(x->id, f.id.data(), 32); faults.insert(NOSTR_RELAY_ERR_SIG_MISMATCH); break; }   // attacker recomputed the id
    default: break; }
  Ev before = from_lib(x.e); nostr_validation_result_t vr; memset(&vr, 0x5a, sizeof vr); nostr_relay_error_t r = nostr_event_validate_full(x.e, fut, &vr); c.label(faults.empty() ? "valid" : faults.size() > 2 ? "several faults" : "faulty"); c.nontrivial(); c.sample(strf("faults %zu, created_at-now %lld, future %lld", faults.size(), (long long)(e.created_at - clock_now), (long long)fut));
  CHECK((r == NOSTR_RELAY_OK) == faults.empty() && vr.valid == faults.empty() && vr.error_code == r, "validate_full -> %d valid=%d code=%d; created_at-now=%lld allowed %lld, %zu faults", r, vr.valid, vr.error_code, (long long)(x->created_at - clock_now), (long long)fut, faults.size());
  if (r != NOSTR_RELAY_OK) { CHECK(faults.count(r), "error %d is not a fault of this event", r); char b[400]; size_t n = nostr_validation_error_format(&vr, b, sizeof b); CHECK(n == strlen(b) && string(b).find("invalid: ") == 0 && strlen(vr.error_field) && string(b).find(vr.error_field) != string::npos, "text %s", b); size_t sm = s.below(n + 2); CBuf o(sm); size_t q = sm ? nostr_validation_error_format(&vr, o.p, sm) : 0; CHECK(q == (sm > n ? n : 0), "error text into %zu bytes -> %zu", sm, q); }
  string w; CHECK(same(before, from_lib(x.e), &w), "validation changed the event: %s", w.c_str());
}
PROP(P14, timestamp, 2) {
  clock_virtual = true; auto d = defer([] { clock_virtual = false; }); clock_now = 1700000000 + (int64_t)s.below(1000); int64_t fut = s.chance(1, 4) ? (int64_t)(s.u64(8) & INT64_MAX) : (int64_t)s.below(10000), ts = s.flip() ? (int64_t)((uint64_t)clock_now + (uint64_t)fut + (uint64_t)s.range(-2, 2)) : (int64_t)s.u64(8);
  bool w = (__int128)ts <= (__int128)clock_now + fut; c.nontrivial(); c.label(w ? "ok" : "future"); CHECK(nostr_validate_timestamp(ts, fut) == w, "validate_timestamp(%lld, %lld) at %lld", (long long)ts, (long long)fut, (long long)clock_now); CHECK(nostr_timestamp_now() == clock_now, "timestamp_now");
}
PROP(P14, text_validators, 4) {
  string t; switch (s.below(6)) { case 0: t = g_hexid(s); break; case 1: t = g_prefix(s, g_hexid(s)); break; case 2: t = upper(g_hexid(s)); break; case 3: t = g_mut(s, g_hexid(s), 2); t = t.c_str(); break; case 4: t = g_hexid(s) + g_ascii(s, 3, "0a"); break; default: t = g_cstr(s, 80); } CStr ct(t);
  CHECK(nostr_validate_hex64(ct) == (t.size() == 64 && hexpre(t)), "validate_hex64(%s)", vo::show(t).c_str()); CHECK(nostr_validate_hex_prefix(ct) == hexpre(t), "validate_hex_prefix(%s)", vo::show(t).c_str());
  bool okid; string id = s.flip() ? g_subid(s, &okid) : g_cstr(s, 70); okid = !id.empty() && id.size() <= 64; for (unsigned char ch : id) if (ch < 32 || ch > 126) okid = false; CStr ci(id); CHECK(nostr_validate_subscription_id(ci) == okid, "validate_subscription_id(%s)", vo::show(id).c_str()); c.nontrivial();
  string k = s.chance(1, 5) ? g_ascii(s, 4, "0123x-") : strf("%u", (unsigned)s.below(65536)), p = s.chance(1, 4) ? t : g_hexid(s), dd = g_cstr(s, 20), ad = k + ":" + p + (s.chance(1, 10) ? "" : ":" + dd); CStr ca(ad); size_t c1 = ad.find(':'), c2 = c1 == string::npos ? c1 : ad.find(':', c1 + 1); bool ok = c1 != string::npos && c2 != string::npos && c1 > 0 && ad.substr(0, c1).find_first_not_of("0123456789") == string::npos && c2 - c1 - 1 == 64 && hexpre(ad.substr(c1 + 1, 64)); c.label(ok ? "address" : "not an address"); c.sample(vo::show(ad, 100)); CHECK(nostr_validate_address(ca) == ok, "validate_address(%s)", vo::show(ad, 200).c_str());
}
PROP(P14, hex_bytes, 2) {
  string b = g_bytes(s, 80); CBuf o(b.size() * 2 + 1); Raw rb(b); nostr_bytes_to_hex((uint8_t*)rb.p, b.size(), o.p); CHECK(hex(b) == o.p, "bytes_to_hex"); string h = hex(b); switch (s.below(5)) { case 0: h = upper(h); break; case 1: h = g_mut(s, h, 2); break; case 2: h += "0"; break; default: break; }
  size_t cap = s.flip() ? h.size() / 2 : s.below(90); string w; bool ok = h.size() % 2 == 0 && strict_hex(h, h.size() / 2, &w); Raw rh(h); CBuf out(cap); if (h.empty()) return; nostr_relay_error_t e = nostr_hex_to_bytes(rh.p, rh.n, (uint8_t*)out.p, cap); bool fits = h.size() / 2 <= cap; c.nontrivial(); CHECK((e == NOSTR_RELAY_OK) == (ok && fits), "hex_to_bytes(%s, cap %zu) -> %d", vo::show(h).c_str(), cap, e); if (ok && fits) CHECK(w == string(out.p, h.size() / 2), "bytes");
}
PROP(P14, tag_accessors, 4) {
  Ev e = g_ev(s); if (e.tags.size() > 40) e.tags.resize(40); if (s.chance(1, 20)) { c.label("many"); for (size_t i = 90 + s.below(300); i--;) e.tags.push_back({s.chance(2, 3) ? "e" : "p", g_hexid(s)}); } if (s.chance(1, 2)) for (size_t i = 0; i < 3; i++) e.tags.insert(e.tags.begin() + s.below(e.tags.size() + 1), {s.flip() ? "e" : "p", s.chance(2, 3) ? g_hexid(s) : s.flip() ? upper(g_hexid(s)) : g_mut(s, g_hexid(s), 1).c_str()}); EvPtr x(lib_event(e)); static const char* nm[] = {"e", "p", "d", "t", "zz"}; string n = s.pick(nm); CStr cn(n);
  vector<string> w; bool has = false; for (auto& t : e.tags) if (t[0] == n) { has = true; if (t.size() >= 2) w.push_back(t[1]); } const char* v = nostr_event_get_tag_value(x.e, cn); CHECK(w.empty() ? !v : v && w[0] == v, "get_tag_value(%s)", n.c_str()); CHECK(nostr_event_has_tag(x.e, cn) == has, "has_tag"); if (n == "d") CHECK(nostr_event_get_d_tag(x.e) == v, "d tag");
  size_t mx = s.below(6) + 1; vector<const char*> o(mx); size_t k = nostr_event_get_tag_values(x.e, cn, o.data(), mx); CHECK(k == std::min(mx, w.size()), "get_tag_values: %zu of %zu", k, w.size()); for (size_t i = 0; i < k; i++) CHECK(w[i] == o[i], "tag value %zu", i);
  for (int pass = 0; pass < 2; pass++) { const char* L = pass ? "p" : "e"; vector<string> bw; for (auto& t : e.tags) if (t.size() >= 2 && t[0] == L && t[1].size() == 64 && hexpre(t[1])) bw.push_back(unhex(t[1])); size_t bn = 55; heap_reset(); uint8_t(*bv)[32] = pass ? nostr_event_get_p_tags_binary(x.e, &bn) : nostr_event_get_e_tags_binary(x.e, &bn); CHECK(bn == bw.size() && (bv != nullptr) == !bw.empty(), "%s tags binary: %zu expected %zu", L, bn, bw.size()); for (size_t i = 0; i < bn; i++) CHECK(bw[i] == string((char*)bv[i], 32), "binary %zu", i); if (bv) nostr_free(bv); CHECK(heap_live() == 0, "leak"); if (bn > 1) c.nontrivial(); }
}

// ---------------------------------------------------------------- P15 deletion
PROP(P15, deletion, 8) {
  unsigned who = (unsigned)s.below(3); Ev t; t.pubkey = pubkey_n((unsigned)s.below(3)); static const uint32_t ks[] = {1, 5, 7, 30000, 30023, 39999, 40000, 10002, 0}; t.kind = s.pick(ks); t.created_at = 1000; t.content = "t"; t.id = g_bin32(s); t.sig = string(64, 0);
  string d; bool hasd = s.chance(3, 4); if (hasd) { d = s.chance(1, 6) ? string(s.range(100, 400), 'd') : s.chance(1, 5) ? "a:b:c" : g_text(s, 30); t.tags.push_back({"d", d}); }
  Ev q; q.pubkey = pubkey_n(who); q.kind = s.chance(1, 12) ? (uint32_t)s.range(4, 6) : 5; q.created_at = 2000; q.content = s.flip() ? "" : g_text(s, 50); q.id = g_bin32(s); q.sig = string(64, 0);
  string addr = strf("%u:", t.kind) + hex(t.pubkey) + ":" + d; size_t n = s.below(6); vector<string> ids, ads; bool hit = false, hita = false;
  while (n--) { bool a = s.flip(); string v; switch (s.below(7)) { case 0: v = a ? addr : hex(t.id); break; case 1: v = a ? strf("%u:", t.kind) + hex(pubkey_n(3)) + ":" + d : g_hexid(s); break; case 2: v = a ? addr + "x" : upper(hex(t.id)); break; case 3: v = a ? strf("%u:", t.kind + 1) + hex(t.pubkey) + ":" + d : hex(t.id).substr(0, 63); break; case 4: v = a ? addr.substr(0, addr.size() - 1) : hex(t.id) + "0"; break; case 5: v = a ? hex(t.id) : addr; break; default: v = g_text(s, 20); }
    string name = s.chance(1, 12) ? (a ? "A" : "E") : a ? "a" : "e"; vector<string> tag{name}; if (!s.chance(1, 15)) { tag.push_back(v); if (s.chance(1, 3)) tag.push_back("wss://r"); }
    q.tags.push_back(tag); if (tag.size() < 2) continue; if (name == "e" && v.size() == 64 && hexpre(v)) { ids.push_back(v); hit |= v == hex(t.id); } if (name == "a") { CStr cv(v); size_t c1 = v.find(':'), c2 = c1 == string::npos ? c1 : v.find(':', c1 + 1); if (c2 != string::npos && c1 > 0 && v.substr(0, c1).find_first_not_of("0123456789") == string::npos && c2 - c1 - 1 == 64 && hexpre(v.substr(c1 + 1, 64))) { ads.push_back(v); hita |= v == addr; } } }
  EvPtr qe(lib_event(q)), te(lib_event(t)); nostr_deletion_request_t r; memset(&r, 0x5a, sizeof r); heap_reset(); CHECK(nostr_event_is_deletion(qe.e) == (q.kind == 5), "is_deletion"); nostr_relay_error_t e = nostr_deletion_parse(qe.e, &r); CHECK((e == NOSTR_RELAY_OK) == (q.kind == 5), "deletion_parse of kind %u -> %d", q.kind, e);
  bool mine = q.pubkey == t.pubkey; c.label(!mine ? "another author" : hit || hita ? "named by author" : "not named"); c.nontrivial(); c.sample(strf("kind %u target %u, %zu ids %zu addresses", q.kind, t.kind, ids.size(), ads.size()));
  if (e == NOSTR_RELAY_OK) {
    CHECK(hex(q.pubkey) == r.pubkey, "pubkey"); CHECK(r.event_ids_count == ids.size(), "%zu ids expected %zu", r.event_ids_count, ids.size()); for (size_t i = 0; i < ids.size(); i++) CHECK(ids[i] == r.event_ids[i], "id %zu", i); CHECK(r.addresses_count == ads.size(), "%zu addresses expected %zu", r.addresses_count, ads.size()); for (size_t i = 0; i < ads.size(); i++) CHECK(ads[i] == r.addresses[i], "address %zu", i); CHECK(q.content.empty() ? !r.reason : r.reason && q.content == r.reason, "reason");
    CHECK(nostr_deletion_authorized(&r, te.e) == (mine && hit), "authorized by id: expected %d", mine && hit); bool wa = mine && hita && kind_model((int32_t)t.kind) == NOSTR_KIND_ADDRESSABLE; if (wa) c.label("by address"); if (kind_model((int32_t)t.kind) != NOSTR_KIND_REPLACEABLE) CHECK(nostr_deletion_authorized_address(&r, te.e) == wa, "authorized by address %s: expected %d", vo::show(addr, 300).c_str(), wa); else if (!mine || !hita) CHECK(!nostr_deletion_authorized_address(&r, te.e), "replaceable event not named, yet authorized");
    nostr_deletion_free(&r);
  }
  CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}

// ---------------------------------------------------------------- P16 expiration
PROP(P16, expiration, 8) {
  Ev e = g_ev(s); e.tags.erase(std::remove_if(e.tags.begin(), e.tags.end(), [](auto& t) { return t[0] == "expiration"; }), e.tags.end()); int64_t want = 0, now = 1700000000 + (int64_t)s.below(100); bool known = true; const char* k = "none"; auto ins = [&](vector<string> t) { e.tags.insert(e.tags.begin() + s.below(e.tags.size() + 1), t); };
  switch (s.below(8)) { case 0: break; case 1: case 2: case 3: want = now + s.range(-2, 2); ins({"expiration", strf("%lld", (long long)want)}); k = "near now"; break; case 4: want = (int64_t)(s.u64(8) & INT64_MAX); ins({"expiration", strf("%lld", (long long)want)}); k = "any"; break;
    case 5: { static const char* bad[] = {"abc", "12x", "", "x12", "-5", "1.5", "0x10", "1e9", "12 ", "12,5", "--1", "1700000000\n"}; ins({"expiration", s.pick(bad)}); k = "not a timestamp"; break; } case 6: ins({"expiration"}); k = "no value"; break; default: ins({s.flip() ? "Expiration" : "expirationx", strf("%lld", (long long)(now - 5))}); k = "another tag"; }
  if (want && s.chance(1, 4)) { e.tags.push_back({"expiration", strf("%lld", (long long)(want > 1000 ? want - (int64_t)s.below(200) : want))}); c.label("second tag"); }
  EvPtr x(lib_event(e)); c.label(k); c.nontrivial(); c.sample(strf("%s %lld", k, (long long)want)); CHECK(nostr_event_get_expiration(x.e) == want, "expiration %lld expected %lld (%s)", (long long)nostr_event_get_expiration(x.e), (long long)want, k);
  if (!want || now != want) CHECK(nostr_event_is_expired(x.e, now) == (want && now > want), "is_expired at %lld with expiration %lld", (long long)now, (long long)want); else c.label("at the instant");
  int64_t far = s.flip() && want < INT64_MAX - 2000000 ? want + 1 + (int64_t)s.below(1000000) : (int64_t)(s.u64(8) & INT64_MAX); if (want && far != want) CHECK(nostr_event_is_expired(x.e, far) == (far > want), "is_expired at %lld with expiration %lld", (long long)far, (long long)want); if (!want) CHECK(!nostr_event_is_expired(x.e, far), "expires without an expiration");
  clock_virtual = true; clock_now = now; auto d = defer([] { clock_virtual = false; }); if (!want || now != want) CHECK(nostr_event_is_expired_now(x.e) == (want && now > want), "is_expired_now");
}
