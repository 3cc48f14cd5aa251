// P17 relay information document, P18 NIP-05, P19 threads (NIP-10), P20 proof of work (NIP-13),
// P21 reposts and quotes (NIP-18), P22 reactions (NIP-25), P23 delegation (NIP-26)
#include "oracle.h"
#include <algorithm>
#include <climits>
#include <cmath>
using namespace vf; using namespace vo;

static bool jeq(const JV& a, const JV& b) {   // same JSON value; member order is irrelevant, numbers compare by value
  if (a.t != b.t) return false;
  switch (a.t) {
    case JV::Num: { int64_t x, y; if (a.is_int(&x) && b.is_int(&y)) return x == y; return strtold(a.s.c_str(), nullptr) == strtold(b.s.c_str(), nullptr); }
    case JV::Str: return a.s == b.s;
    case JV::Arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!jeq(a.a[i], b.a[i])) return false; return true;
    case JV::Obj: if (a.o.size() != b.o.size()) return false; for (auto& m : a.o) { const JV* o = b.get(m.first); if (!o || !jeq(m.second, *o)) return false; } return true;
    default: return true;
  }
}
static JV strs(const vector<string>& v) { vector<JV> a; for (auto& x : v) a.push_back(jstr(x)); return jarr(a); }
extern "C" void* vf_malloc(size_t);
extern "C" void* vf_calloc(size_t, size_t);
static char* dup(const string& s) { char* p = (char*)vf_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

// ---------------------------------------------------------------- P17
struct Lim { nostr_relay_limitation_t l; JV j; };
static Lim g_lim(Src& s) {
  Lim r; memset(&r.l, 0, sizeof r.l); vector<std::pair<string, JV>> o; auto v32 = [&]() -> int32_t { return s.chance(1, 3) ? 0 : s.flip() ? (int32_t)s.below(100000) : (int32_t)(s.u64(4) & 0x7fffffff); };
#define L32(f) { auto v = v32(); r.l.f = v; if (r.l.f > 0) o.push_back({#f, jint((int64_t)r.l.f)}); }
  L32(max_message_length) L32(max_subscriptions) L32(max_filters) L32(max_limit) L32(max_subid_length) L32(max_event_tags) L32(max_content_length) L32(min_pow_difficulty) L32(default_limit)
#define LB(f) { r.l.f = s.flip(); o.push_back({#f, jbool(r.l.f)}); }
  LB(auth_required) LB(payment_required) LB(restricted_writes)
#define L64(f) { int64_t v = s.chance(1, 3) ? 0 : (int64_t)((s.u64(8) & 0x7fffffffffffffffULL) >> (s.flip() ? 0 : s.below(63))); r.l.f = v; if (v > 0) o.push_back({#f, jint(v)}); }
  L64(created_at_lower_limit) L64(created_at_upper_limit)
  r.j = jobj(o); return r;
}
template <class F> static void to_buffers(Src& s, const JV& want, F call) {   // exact JSON into a roomy buffer, then into one around the exact size
  CBuf big(400000); size_t len = 99; nostr_relay_error_t e = call(big.p, big.n, &len); CHECK(e == NOSTR_RELAY_OK, "serialize -> %d", e); CHECK(len == strlen(big.p), "reported length %zu, text %zu", len, strlen(big.p));
  string t(big.p, len); JV got; string err; CHECK(json_parse(t, &got, &err), "not strict JSON (%s): %s", err.c_str(), vo::show(t, 300).c_str()); CHECK(jeq(got, want), "got %s expected %s", vo::show(t, 1500).c_str(), vo::show(json_compact(want), 1500).c_str());
  size_t sz = s.chance(3, 4) ? (size_t)std::max<int64_t>(1, (int64_t)len + s.range(-1, 2)) : 1 + s.below(len + 2); CBuf b(sz); size_t l2 = 77; e = call(b.p, sz, &l2);
  if (sz > len) { CHECK(e == NOSTR_RELAY_OK && l2 == len && t == b.p, "into %zu bytes for length %zu -> %d", sz, len, e); } else CHECK(e == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, "into %zu bytes for length %zu -> %d", sz, len, e);
}
PROP(P17, information_document, 8) {
  nostr_relay_info_t i; heap_reset(); nostr_relay_info_init(&i); vector<std::pair<string, JV>> o; vector<std::unique_ptr<CStr>> keep; auto str = [&](const string& v) { keep.emplace_back(new CStr(v)); return keep.back()->p; };
#define ST(f, name) if (s.chance(1, 2)) { string v = g_text(s, 60); i.f = str(v); o.push_back({name, jstr(v)}); }
  ST(name, "name") ST(description, "description") ST(banner, "banner") ST(icon, "icon") ST(pubkey, "pubkey") ST(self_pubkey, "self") ST(contact, "contact") ST(software, "software") ST(version, "version") ST(privacy_policy, "privacy_policy") ST(terms_of_service, "terms_of_service") ST(posting_policy, "posting_policy") ST(payments_url, "payments_url")
  size_t n = s.weighted({1, 3, 1}) ? s.size(s.chance(1, 12) ? 900 : 30) : 0; vector<int32_t> nips; while (n--) nips.push_back((int32_t)(s.chance(1, 8) ? s.u64(4) : s.below(100))); vector<JV> a; for (auto x : nips) a.push_back(jint(x)); o.push_back({"supported_nips", jarr(a)});
  if (s.flip()) CHECK(nostr_relay_info_set_nips(&i, nips.data(), nips.size()) == NOSTR_RELAY_OK, "set_nips"); else for (auto x : nips) CHECK(nostr_relay_info_add_nip(&i, x) == NOSTR_RELAY_OK, "add_nip");
  if (s.chance(3, 4)) { Lim l = g_lim(s); i.limitation = l.l; o.push_back({"limitation", l.j}); } else { const auto& z = i.limitation; CHECK(z.max_message_length == NOSTR_DEFAULT_MAX_MESSAGE_LENGTH && z.max_subscriptions == NOSTR_DEFAULT_MAX_SUBSCRIPTIONS && z.max_filters == NOSTR_DEFAULT_MAX_FILTERS && z.max_limit == NOSTR_DEFAULT_MAX_LIMIT && z.max_subid_length == NOSTR_DEFAULT_MAX_SUBID_LENGTH && z.max_event_tags == NOSTR_DEFAULT_MAX_EVENT_TAGS && z.max_content_length == NOSTR_DEFAULT_MAX_CONTENT_LENGTH && z.default_limit == NOSTR_DEFAULT_DEFAULT_LIMIT && !z.min_pow_difficulty && !z.auth_required && !z.payment_required && !z.restricted_writes && !z.created_at_lower_limit && !z.created_at_upper_limit, "a fresh document does not have the documented limits"); JV d; nostr_relay_limitation_t k; nostr_relay_limitation_init(&k); CBuf b(4000); size_t q; CHECK(nostr_relay_limitation_serialize(&k, b.p, b.n, &q) == NOSTR_RELAY_OK && json_parse(b.p, &d), "default limitation"); o.push_back({"limitation", d}); c.label("default limitation"); }
  if (s.chance(1, 2)) { size_t k = 1 + s.below(3); vector<JV> rs; i.retention = (nostr_relay_retention_t*)vf_calloc(k, sizeof *i.retention); i.retention_count = k; for (size_t j = 0; j < k; j++) { vector<std::pair<string, JV>> ro; auto& r = i.retention[j]; size_t kc = s.below(4); if (kc) { r.kinds = (int32_t*)vf_malloc(kc * 4); r.kinds_count = kc; vector<JV> ks; for (size_t q = 0; q < kc; q++) { r.kinds[q] = (int32_t)s.below(40000); ks.push_back(jint(r.kinds[q])); } ro.push_back({"kinds", jarr(ks)}); } if (s.flip()) { r.time = s.chance(1, 4) ? (int64_t)s.u64(8) | 1 : 1 + (int64_t)s.below(1000000000); ro.push_back({"time", jint(r.time)}); } if (s.flip()) { r.count = 1 + (int32_t)s.below(100000); ro.push_back({"count", jint(r.count)}); } rs.push_back(jobj(ro)); } o.push_back({"retention", jarr(rs)}); }
  auto list = [&](const char**& f, size_t& cnt, const char* name, size_t max) { size_t k = s.below(max); if (!k) return; vector<string> v; f = (const char**)vf_malloc(k * sizeof *f); cnt = k; for (size_t j = 0; j < k; j++) { v.push_back(g_text(s, 20)); f[j] = str(v.back()); } o.push_back({name, strs(v)}); };
  list(i.relay_countries, i.relay_countries_count, "relay_countries", 4); list(i.language_tags, i.language_tags_count, "language_tags", 4); list(i.tags, i.tags_count, "tags", 4);
  vector<std::pair<string, JV>> fo; auto fees = [&](nostr_relay_fee_t*& f, size_t& cnt, const char* name, int what) { size_t k = s.below(3); if (!k) return; f = (nostr_relay_fee_t*)vf_calloc(k, sizeof *f); cnt = k; vector<JV> fs; for (size_t j = 0; j < k; j++) { vector<std::pair<string, JV>> x; f[j].amount = s.u64(8) >> (s.flip() ? 0 : s.below(64)); x.push_back({"amount", jraw(strf("%llu", (unsigned long long)f[j].amount))}); if (s.chance(3, 4)) { string u = s.flip() ? "msats" : g_text(s, 10); f[j].unit = dup(u); x.push_back({"unit", jstr(u)}); } if (what == 1 && s.flip()) { f[j].period = 1 + (uint32_t)(s.u64(4) >> 1); x.push_back({"period", jint(f[j].period)}); } if (what == 2 && s.flip()) { f[j].kinds = (int32_t*)vf_malloc(8); f[j].kinds_count = 2; f[j].kinds[0] = 4; f[j].kinds[1] = (int32_t)s.below(40000); x.push_back({"kinds", jarr({jint(4), jint(f[j].kinds[1])})}); } fs.push_back(jobj(x)); } fo.push_back({name, jarr(fs)}); };
  if (s.flip()) { fees(i.fees.admission, i.fees.admission_count, "admission", 0); fees(i.fees.subscription, i.fees.subscription_count, "subscription", 1); fees(i.fees.publication, i.fees.publication_count, "publication", 2); if (!fo.empty()) o.push_back({"fees", jobj(fo)}); }
  JV want = jobj(o); if (o.size() > 4) c.nontrivial(); c.label(fo.empty() ? "no fees" : "fees"); c.sample(vo::show(json_compact(want), 250));
  auto d = defer([&] { nostr_relay_info_free(&i); }); to_buffers(s, want, [&](char* b, size_t z, size_t* l) { return nostr_relay_info_serialize(&i, b, z, l); });
  nostr_relay_info_free(&i); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); CHECK(!i.supported_nips && !i.name, "freed document still refers to data");
}
PROP(P17, limitation, 2) { Lim l = g_lim(s); c.nontrivial(); to_buffers(s, l.j, [&](char* b, size_t z, size_t* n) { return nostr_relay_limitation_serialize(&l.l, b, z, n); }); }
PROP(P17, nip_list_history, 3) {
  nostr_relay_info_t i; heap_reset(); nostr_relay_info_init(&i); auto d = defer([&] { nostr_relay_info_free(&i); }); vector<int32_t> m; unsigned ops = 1 + (unsigned)s.below(20); string trace;
  while (ops--) { switch (s.below(4)) {
      case 0: { vector<int32_t> v; size_t n = s.below(8); while (n--) v.push_back((int32_t)s.u64(4)); CHECK(nostr_relay_info_set_nips(&i, v.empty() && s.flip() ? nullptr : v.data(), v.size()) == NOSTR_RELAY_OK, "set_nips"); m = v; trace += "s"; break; }
      case 1: case 2: { int32_t x = (int32_t)s.u64(4); CHECK(nostr_relay_info_add_nip(&i, x) == NOSTR_RELAY_OK, "add_nip"); m.push_back(x); trace += "a"; break; }
      default: if (!m.empty()) { size_t b = s.below(m.size()), n = 1 + s.below(m.size() - b); vector<int32_t> v(m.begin() + b, m.begin() + b + n); CHECK(nostr_relay_info_set_nips(&i, i.supported_nips + b, n) == NOSTR_RELAY_OK, "set_nips(own)"); m = v; trace += "A"; c.label("aliased"); } }
    CHECK(i.supported_nips_count == m.size(), "%s: %zu nips, expected %zu", trace.c_str(), i.supported_nips_count, m.size()); for (size_t k = 0; k < m.size(); k++) CHECK(i.supported_nips[k] == m[k], "%s: nip %zu is %d expected %d", trace.c_str(), k, i.supported_nips[k], m[k]); }
  c.nontrivial(); c.sample(trace); nostr_relay_info_free(&i); CHECK(heap_live() == 0, "leak");
}

// ---------------------------------------------------------------- P18
static const char* LP = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
static const char* DP = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-";
static string g_name(Src& s) { static const char* w[] = {"bob", "_", "names", "relays", "Bob", "a.b-c_d"}; if (s.flip()) return s.pick(w); size_t n = s.chance(1, 5) ? 62 + s.below(3) : 1 + s.below(12); string o; while (n--) o += LP[s.below(65)]; return o; }
static string g_domain(Src& s) { if (s.chance(1, 2)) return s.flip() ? "example.com" : "Nostr.Example.co.uk"; string o; size_t n = 2 + s.below(3), big = s.chance(1, 5); for (size_t i = 0; i < n; i++) { if (i) o += '.'; size_t k = big ? 60 + s.below(26) : 1 + s.below(10); while (k--) o += DP[s.below(63)]; } if (big && s.flip()) { while (o.size() < 254) o += 'x'; o.resize(254 + s.below(3), 'x'); if (o.back() == '.') o.back() = 'y'; } return o; }
static bool ok_local(const string& n) { return !n.empty() && n.size() <= 64 && n.find_first_not_of(LP) == string::npos; }
static bool ok_domain(const string& d) { return !d.empty() && d.size() <= 256 && d.find_first_not_of(string(DP) + ".") == string::npos && d[0] != '.' && d.back() != '.' && d.find("..") == string::npos && d.find('.') != string::npos; }
PROP(P18, identifier, 4) {
  string n = g_name(s), d = g_domain(s), id = n + "@" + d; if (s.chance(1, 2)) { switch (s.below(6)) { case 0: id = g_mut(s, id, 2); id = id.c_str(); break; case 1: id = n + d; break; case 2: id += "@x.y"; break; case 3: id = string(65 + s.below(3), 'a') + "@" + d; break; case 4: id = n + "@" + string(250, 'a') + ".bcdefg"; break; default: id = g_cstr(s, 40); } }
  size_t at = id.find('@'); bool ok = at != string::npos; string wn, wd; if (ok) { wn = id.substr(0, at); wd = id.substr(at + 1); ok = ok_local(wn) && ok_domain(wd); }
  size_t ns = s.flip() ? 65 : (size_t)std::max<int64_t>(0, (int64_t)wn.size() + s.range(0, 2)), ds = s.flip() ? 257 : (size_t)std::max<int64_t>(0, (int64_t)wd.size() + s.range(0, 2)); CBuf bn(ns), bd(ds); CStr ci(id); nostr_error_t e = nostr_nip05_parse(ci, bn.p, ns, bd.p, ds);
  bool fits = wn.size() < ns && wd.size() < ds; c.nontrivial(); c.label(!ok ? "invalid" : fits ? "valid" : "buffer too small"); c.sample(vo::show(id, 100)); CHECK((e == NOSTR_OK) == (ok && fits), "parse(%s) with buffers %zu/%zu -> %d", vo::show(id, 400).c_str(), ns, ds, e); if (e == NOSTR_OK) CHECK(lower(wn) == bn.p && lower(wd) == bd.p, "parse(%s) = %s / %s", vo::show(id, 400).c_str(), bn.p, bd.p);
}
PROP(P18, url, 2) {
  string n = g_name(s), d = g_domain(s), w = "https://" + d + "/.well-known/nostr.json?name=" + n; if (s.chance(1, 10)) n = string(65, 'n'); size_t z = (size_t)(s.chance(1, 4) ? s.below(600) : w.size() + s.range(-1, 2)); CBuf b(z); CStr cn(n), cd(d); nostr_error_t e = nostr_nip05_build_url(cn, cd, b.p, z); bool ok = n.size() <= 64 && d.size() <= 256 && z > w.size(); c.nontrivial(); c.label(ok ? "fits" : "refused"); CHECK((e == NOSTR_OK) == ok, "build_url of %zu bytes into %zu -> %d", w.size(), z, e); if (ok) CHECK(w == b.p, "url %s", b.p);
}
// JSON text of v with optional whitespace, \/ for some slashes; keys and other text as they are
static string spell(const JV& v, Src& s) {
  auto ws = [&]() -> string { static const char* w[] = {"", "", "", " ", "\n", "\t", " \r\n "}; return s.pick(w); };
  switch (v.t) {
    case JV::Str: { string e = json_compact(v), o; bool sl = s.chance(1, 3); for (char ch : e) { if (ch == '/' && sl) o += '\\'; o += ch; } return o; }
    case JV::Arr: { string o = "[" + ws(); for (size_t i = 0; i < v.a.size(); i++) o += (i ? ws() + "," + ws() : "") + spell(v.a[i], s); return o + ws() + "]"; }
    case JV::Obj: { string o = "{" + ws(); for (size_t i = 0; i < v.o.size(); i++) o += (i ? ws() + "," + ws() : "") + json_compact(jstr(v.o[i].first)) + ws() + ":" + ws() + spell(v.o[i].second, s); return o + ws() + "}"; }
    default: return json_compact(v);
  }
}
struct Doc { JV j; string name; string key; bool has = false; bool badkey = false; vector<string> relays; };   // what a client must find for `name`
static bool ws_url(const string& u) { return u.size() >= 6 && (u.compare(0, 6, "wss://") == 0 || u.compare(0, 5, "ws://") == 0) && u.find('\\') == string::npos; }
static Doc g_doc(Src& s) {
  Doc d; d.name = g_name(s); d.has = s.chance(4, 5); string key = hex(pubkey_n((unsigned)s.below(4))), other = hex(pubkey_n(5)), shown = key; if (d.has && s.chance(1, 8)) { shown = s.flip() ? upper(key) : s.flip() ? key.substr(1) : key + "0"; if (s.chance(1, 3)) { shown = key; shown[s.below(64)] = "gz \x7f"[s.below(4)]; } } string k2; d.badkey = !strict_hex(shown, 32, &k2); d.key = key;
  static const char* esc[] = {"say \"", "\\", "\\\"", "\"", "{\"", "a\\\\", "}\"]"};
  auto decoy = [&](const string& k) -> JV { switch (s.below(8)) { case 6: return jstr(s.pick(esc)); case 7: return jobj({{s.pick(esc), jarr({jstr(s.pick(esc)), jstr("]")})}}); case 0: return jobj({{d.name, jstr(other)}}); case 1: return jobj({{"names", jobj({{d.name, jstr(other)}})}}); case 2: return jstr("\"names\":{\"" + d.name + "\":\"" + other + "\"}"); case 3: return jarr({jstr("names"), jobj({{"names", jobj({{d.name, jstr(other)}})}})}); case 4: return jstr("names"); default: return jobj({{"relays", jobj({{key, strs({"wss://decoy.example"})}})}}); } };
  vector<std::pair<string, JV>> names; size_t n = s.below(5); auto addname = [&](const string& k, JV v) { if (k == d.name) return; for (auto& p : names) if (p.first == k) return; names.push_back({k, v}); };
  while (n--) switch (s.below(6)) { case 0: addname("relays", jstr(other)); break; case 1: addname("names", jstr(other)); break; case 2: addname(d.name + "x", jstr(other)); break; case 3: addname("x" + d.name, jstr(d.name)); break; case 4: addname("nested", decoy("")); break; default: addname(g_name(s), jstr(hex(pubkey_n((unsigned)s.below(6))))); }
  if (d.has) names.insert(names.begin() + s.below(names.size() + 1), {d.name, jstr(shown)});
  vector<std::pair<string, JV>> rel; if (s.chance(1, 2)) rel.push_back({other, strs({"wss://other.example"})}); bool mine = s.chance(3, 4); if (mine) { vector<JV> r; size_t k = s.chance(1, 12) ? 95 + s.below(6) : s.below(5); while (k--) { switch (s.below(6)) { case 0: { static const char* bad[] = {"https://x.example", "", "ws:/", "relay.example", "WSS://up.example", "ws://", "]", "\"]", "a\\\"b"}; if (s.chance(1, 4)) { string b = s.flip() ? "x" : ""; b += string(1 + s.below(6), '\\'); if (s.flip()) b += s.flip() ? "\"" : "\"],"; r.push_back(jstr(b)); break; } r.push_back(jstr(s.pick(bad))); break; } case 1: r.push_back(jstr("wss://[::1]:7777/")); break; default: { string u = g_url(s); r.push_back(jstr(u)); } } } JV list = jarr(r); switch (s.below(16)) { case 0: list = jobj({{"wss://in.object", jstr("wss://a.example")}, {"x", jarr(r)}}); break; case 1: list = jstr("wss://a.example"); break; case 2: list = jnull(); break; default: break; } if (list.t == JV::Arr) for (auto& u : r) if (ws_url(u.s)) d.relays.push_back(u.s); rel.insert(rel.begin() + s.below(rel.size() + 1), {key, list}); }
  vector<std::pair<string, JV>> o; o.push_back({"names", jobj(names)}); if (mine || !rel.empty()) o.push_back({"relays", jobj(rel)}); n = s.below(4); while (n--) { static const char* k[] = {"nip46", "names2", "x", "comment", "Names", "relay"}; string kk = s.pick(k); bool dupe = false; for (auto& p : o) dupe |= p.first == kk; if (!dupe) o.push_back({kk, decoy(kk)}); } for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[s.below(i)]);
  if (s.chance(1, 12)) { o.erase(std::remove_if(o.begin(), o.end(), [](auto& p) { return p.first == "names"; }), o.end()); d.has = false; } d.j = jobj(o); return d;
}
static void check_relays(const Doc& d, char** r, size_t n) { CHECK(n == d.relays.size(), "%zu relays, expected %zu", n, d.relays.size()); for (size_t i = 0; i < n; i++) CHECK(d.relays[i] == r[i], "relay %zu = %s expected %s", i, r[i], d.relays[i].c_str()); }
PROP(P18, response, 8) {
  Doc d = g_doc(s); string t = spell(d.j, s); CStr ct(t), cn(d.name); CBuf pk(65); char** r = (char**)1; size_t n = 77; heap_reset(); bool want_relays = s.chance(3, 4); nostr_error_t e = nostr_nip05_parse_response(ct, cn, pk.p, 65, want_relays ? &r : nullptr, want_relays ? &n : nullptr); c.sample(vo::show(t, 300)); c.nontrivial(); c.label(!d.has ? "name absent" : d.badkey ? "malformed key" : d.relays.empty() ? "no relays" : "relays");
  CHECK((e == NOSTR_OK) == (d.has && !d.badkey), "name %s in %s -> %d", d.name.c_str(), vo::show(t, 900).c_str(), e); if (e == NOSTR_OK) { CHECK(d.key == pk.p, "key %s expected %s for %s in %s", pk.p, d.key.c_str(), d.name.c_str(), vo::show(t, 900).c_str()); if (want_relays) { check_relays(d, r, n); nostr_nip05_free_relays(r, n); } } else if (want_relays) CHECK(!r && n == 0, "relays after an error");
  CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
PROP(P18, damaged_response, 4) {
  Doc d = g_doc(s); string t = spell(d.j, s); if (s.flip()) t.resize(s.below(t.size() + 1)); else t = g_mut(s, t, 4); t = t.c_str(); CStr ct(t), cn(d.name); char pk[65]; char** r = nullptr; size_t n = 0; heap_reset(); nostr_error_t e = nostr_nip05_parse_response(ct, cn, pk, 65, &r, &n); c.label(e == NOSTR_OK ? "accepted" : "refused"); if (e == NOSTR_OK) { c.nontrivial(); string q; CHECK(strlen(pk) == 64 && strict_hex(pk, 32, &q), "key %s", pk); for (size_t i = 0; i < n; i++) CHECK(!strncmp(r[i], "ws://", 5) || !strncmp(r[i], "wss://", 6), "relay %s", r[i]); nostr_nip05_free_relays(r, n); } CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
  JV j; bool strict = json_parse(t, &j); if (strict && j.t == JV::Obj && e == NOSTR_OK) { const JV* nm = j.get("names"); const JV* v = nm && nm->t == JV::Obj ? nm->get(d.name) : nullptr; size_t dup = 0; for (auto& p : j.o) dup += p.first == "names"; if (nm && nm->t == JV::Obj) for (auto& p : nm->o) dup += p.first == d.name; if (dup <= 2 && t.find("\\u") == string::npos) CHECK(v && v->t == JV::Str && lower(v->s) == pk, "accepted %s for %s although the document says otherwise: %s", pk, d.name.c_str(), vo::show(t, 900).c_str()); }
}
PROP(P18, strange_name, 2) {   // names that are pieces of the document, quotes and escapes included
  Doc d = g_doc(s); string t = s.flip() ? spell(d.j, s) : json_compact(d.j), nm; vector<size_t> q; for (size_t i = 0; i < t.size(); i++) if (t[i] == '"') q.push_back(i); if (q.size() < 4) throw Discard(); size_t i = s.below(q.size() - 1), j = std::min(q.size() - 1, i + 1 + s.below(5)); nm = t.substr(q[i] + 1, q[j] - q[i] - 1); if (s.chance(1, 4)) nm = t.substr(q[i], q[j] - q[i]); if (s.chance(1, 6)) nm = "\"" + nm; if (s.chance(1, 6)) nm += s.flip() ? "\"" : "\\"; if (s.chance(1, 10)) nm = "\\" + nm; nm = nm.substr(0, 66).c_str();
  CStr ct(t), cn(nm); CBuf pk(65); char** r = nullptr; size_t n = 0; heap_reset(); nostr_error_t e = nostr_nip05_parse_response(ct, cn, pk.p, 65, &r, &n); const JV* o = d.j.get("names"); const JV* v = o ? o->get(nm) : nullptr; c.label(e == NOSTR_OK ? "a member" : "refused"); c.nontrivial(); c.sample(vo::show(nm, 100));
  if (e == NOSTR_OK) { CHECK(v && v->t == JV::Str && lower(v->s) == lower(pk.p), "name %s found as %s in %s", vo::show(nm, 100).c_str(), pk.p, vo::show(t, 900).c_str()); nostr_nip05_free_relays(r, n); } CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
extern "C" void* vf_malloc(size_t);
struct Http { string want_url; const string* body; nostr_error_t ret; bool null_body; int tail = 0; int calls = 0; bool url_ok = true; };
static nostr_error_t http(const char* url, char** resp, size_t* len, void* u) { Http* h = (Http*)u; h->calls++; h->url_ok = h->want_url == url; if (!h->null_body) { size_t n = h->body->size(); *resp = (char*)vf_malloc(n + (h->tail ? h->tail - 1 : 1)); memcpy(*resp, h->body->c_str(), n + !h->tail); if (h->tail) memset(*resp + n, '"', h->tail - 1); *len = n; } return h->ret; }
PROP(P18, verify, 6) {
  Doc d = g_doc(s); d.name = lower(d.name); string dom = s.chance(1, 4) ? g_domain(s) : "example.com"; Doc e2 = d; string t; { // rebuild the document for the lower-cased name
    vector<std::pair<string, JV>> nm{{d.name, jstr(d.key)}, {d.name + "z", jstr(hex(pubkey_n(6)))}}; d.has = s.chance(5, 6); if (!d.has) nm.erase(nm.begin()); d.relays.clear(); vector<std::pair<string, JV>> o{{"names", jobj(nm)}}; if (s.flip()) { vector<JV> r; size_t k = s.below(4); while (k--) { string u = g_url(s); r.push_back(jstr(u)); d.relays.push_back(u); } o.push_back({"relays", jobj({{d.key, jarr(r)}})}); } if (s.flip()) std::reverse(o.begin(), o.end()); t = spell(jobj(o), s); }
  string given = d.name; for (auto& ch : given) if (s.chance(1, 3)) ch = (char)toupper(ch); string id = given + "@" + dom; bool badid = s.chance(1, 10); if (badid) id = s.flip() ? given + dom : given + "@nodot"; string exp = d.key; bool match = true; switch (s.below(6)) { case 0: exp = upper(exp); break; case 1: exp = hex(pubkey_n(7)); match = false; break; case 2: { size_t p = s.below(64); exp[p] = exp[p] == '0' ? '1' : '0'; match = false; break; } case 3: if (s.chance(1, 3)) { exp = s.flip() ? exp.substr(1) : exp + "0"; match = false; } break; default: break; }
  Http h; h.body = &t; h.ret = s.chance(1, 10) ? NOSTR_ERR_TIMEOUT : NOSTR_OK; h.null_body = s.chance(1, 10); if (s.chance(1, 3)) h.tail = 1 + (int)s.below(3); /* the body ends where its length says, terminated or not */ const string nothing; bool empty = s.chance(1, 12); if (empty) h.body = &nothing; h.want_url = "https://" + lower(dom) + "/.well-known/nostr.json?name=" + d.name; heap_reset(); CStr ci(id), ce(exp); char** r = (char**)1; size_t n = 7; bool wr = s.chance(2, 3); nostr_error_t e = nostr_nip05_verify(ci, ce, http, &h, wr ? &r : nullptr, wr ? &n : nullptr);
  bool ok = !badid && ok_domain(dom) && h.ret == NOSTR_OK && !h.null_body && !empty && d.has && match; c.nontrivial(); c.label(ok ? "verified" : badid ? "bad identifier" : !match ? "another key" : "refused"); c.sample(id + " " + exp.substr(0, 8)); CHECK((e == NOSTR_OK) == ok, "verify(%s, %s) against %s -> %d", id.c_str(), exp.c_str(), vo::show(t, 600).c_str(), e); if (!badid && ok_domain(dom)) CHECK(h.calls == 1 && h.url_ok, "fetched %d times, url right: %d", h.calls, h.url_ok);
  if (wr) { if (ok) { check_relays(d, r, n); nostr_nip05_free_relays(r, n); } else CHECK(!r && n == 0, "relays of an unverified identifier"); } CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}

// ---------------------------------------------------------------- P19
PROP(P19, references, 8) {
  Ev e; e.content = "x"; vector<vector<string>> es; enum { NONE, MARKED, POSITIONAL, REPLY_ONLY, WITH_MENTION } style = (decltype(NONE))s.below(5); string root, reply, rr, yr; bool know_root = true, know_reply = true;
  auto hint = [&]() -> string { return s.chance(1, 3) ? "" : s.chance(1, 10) ? "wss://" + string(240 + s.below(10), 'r') : g_url(s); }; auto mk = [&](const string& marker) { vector<string> t{"e", g_hexid(s), hint(), marker}; if (s.chance(1, 3)) t.push_back(hex(pubkey_n(1))); es.push_back(t); return t; };
  switch (style) {
    case NONE: break;
    case MARKED: { auto r = mk("root"); root = r[1]; rr = r[2]; reply = root; yr = rr; if (s.chance(2, 3)) { auto y = mk("reply"); reply = y[1]; yr = y[2]; if (s.chance(1, 6)) mk("reply"); } if (s.flip()) { std::reverse(es.begin(), es.end()); for (auto it = es.begin(); it != es.end(); ++it) if ((*it)[3] == "reply") { reply = (*it)[1]; yr = (*it)[2]; break; } } break; }
    case POSITIONAL: { size_t n = 1 + s.below(5); while (n--) { vector<string> t{"e", g_hexid(s)}; if (s.flip()) { t.push_back(hint()); if (s.chance(1, 3)) t.push_back(""); } es.push_back(t); } root = es[0][1]; rr = es[0].size() > 2 ? es[0][2] : ""; reply = es.back()[1]; yr = es.back().size() > 2 ? es.back()[2] : ""; break; }
    case REPLY_ONLY: { auto y = mk("reply"); reply = y[1]; yr = y[2]; know_root = false; break; }
    case WITH_MENTION: { auto r = mk("root"); root = r[1]; rr = r[2]; auto y = mk("reply"); reply = y[1]; yr = y[2]; size_t n = 1 + s.below(2); static const char* mm[] = {"mention", "mention", "mention", "roots", "rootx", "replying", "reply ", "Root", "REPLY", "root-of-the-whole-thread", "replyreplyreplyreply", "roo", "r"}; while (n--) { mk(s.pick(mm)); std::swap(es.back(), es[s.below(es.size())]); } break; }
  }
  for (auto& t : es) e.tags.push_back(t); size_t n = s.below(4); while (n--) { static const char* nm[] = {"p", "E", "a", "q", "t", "ee"}; vector<string> t{s.pick(nm), g_hexid(s), "wss://x", s.flip() ? "root" : "reply"}; if (s.chance(1, 8)) t = {"e"}; e.tags.insert(e.tags.begin() + s.below(e.tags.size() + 1), t); }
  EvPtr x(lib_event(e)); e = from_lib(x.e); size_t hs = s.chance(1, 3) ? s.below(40) : 300; CBuf a(65), b(hs), k(65), m(hs); nostr_error_t r1 = nostr_event_get_root_id(x.e, a.p, 65, hs ? b.p : nullptr, hs), r2 = nostr_event_get_reply_id(x.e, k.p, 65, hs ? m.p : nullptr, hs); static const char* names[] = {"none", "marked", "positional", "reply only", "with mentions"}; c.label(names[style]); if (style != NONE) c.nontrivial(); c.sample(show(e));
  auto cut = [&](const string& v) { return v.size() >= hs ? v.substr(0, hs ? hs - 1 : 0) : v; }; auto want = [&](nostr_error_t r, CBuf& id, CBuf& h, const string& wi, const string& wh, const char* what) { if (style == NONE) { CHECK(r == NOSTR_ERR_NOT_FOUND && !*id.p, "%s of a note without references -> %d %s", what, r, id.p); return; } CHECK(r == NOSTR_OK && wi == id.p, "%s -> %d %s expected %s", what, r, id.p, wi.c_str()); if (hs) CHECK(cut(wh) == h.p, "%s relay %s expected %s", what, h.p, cut(wh).c_str()); };
  if (know_root) want(r1, a, b, root, rr, "root"); if (know_reply) want(r2, k, m, reply, yr, "reply"); int is = 7; CHECK(nostr_event_is_reply(x.e, &is) == NOSTR_OK && is == (style != NONE), "is_reply = %d", is); char sm[64]; CHECK(nostr_event_get_root_id(x.e, sm, s.below(65), nullptr, 0) != NOSTR_OK, "id into a small buffer"); string w; CHECK(same(e, from_lib(x.e), &w), "reading changed the event: %s", w.c_str());
}
PROP(P19, create, 4) {
  Ev e = g_ev(s); e.tags.erase(std::remove_if(e.tags.begin(), e.tags.end(), [](auto& t) { return t[0] == "e"; }), e.tags.end()); EvPtr x(lib_event(e)); e = from_lib(x.e); bool hr = s.chance(3, 4), hy = s.chance(2, 3); string root = g_hexid(s), reply = g_hexid(s), rr = s.flip() ? g_url(s) : "", yr = s.flip() ? g_url(s) : "", rp = s.flip() ? hex(pubkey_n(1)) : "", yp = s.flip() ? hex(pubkey_n(2)) : ""; CStr c1(root), c2(reply), c3(rr), c4(yr), c5(rp), c6(yp);
  nostr_error_t r = nostr_event_add_reply_tags(x.e, hr ? c1.p : nullptr, rr.empty() ? nullptr : c3.p, rp.empty() ? nullptr : c5.p, hy ? c2.p : nullptr, yr.empty() ? nullptr : c4.p, yp.empty() ? nullptr : c6.p); CHECK((r == NOSTR_OK) == (hr || hy), "add_reply_tags -> %d", r); if (hr) { e.tags.push_back({"e", root, rr, "root"}); if (!rp.empty()) e.tags.back().push_back(rp); } if (hy) { e.tags.push_back({"e", reply, yr, "reply"}); if (!yp.empty()) e.tags.back().push_back(yp); }
  if (s.flip()) { string h = s.flip() ? g_url(s) : ""; CStr ch(h); CHECK(nostr_event_add_mention_tag(x.e, c5, h.empty() ? nullptr : ch.p) == NOSTR_OK, "mention"); e.tags.push_back({"p", rp}); if (!h.empty()) e.tags.back().push_back(h); } string w; CHECK(same(e, from_lib(x.e), &w), "%s", w.c_str());
  char id[65]; if (hr) { CHECK(nostr_event_get_root_id(x.e, id, 65, nullptr, 0) == NOSTR_OK && root == id, "root %s", id); if (!hy) CHECK(nostr_event_get_reply_id(x.e, id, 65, nullptr, 0) == NOSTR_OK && root == id, "reply to the root %s", id); } if (hy) CHECK(nostr_event_get_reply_id(x.e, id, 65, nullptr, 0) == NOSTR_OK && reply == id, "reply %s", id); c.nontrivial(); c.label(hr && hy ? "root and reply" : "one");
}

// ---------------------------------------------------------------- P20
static int lead0(const string& b) { int n = 0; for (unsigned char ch : b) for (int i = 7; i >= 0; i--) { if (ch >> i & 1) return n; n++; } return n; }
static string id_with_zeros(Src& s, int z) { string b(32, 0); for (auto& ch : b) ch = (char)s.u8(); for (int i = 0; i < z && i < 256; i++) b[i / 8] &= ~(0x80 >> i % 8); if (z < 256) b[z / 8] |= 0x80 >> z % 8; return b; }
PROP(P20, difficulty_and_verify, 6) {
  int z = s.chance(1, 12) ? 256 : s.flip() ? (int)s.below(30) : (int)s.below(257); Ev e; e.content = "x"; e.id = id_with_zeros(s, z); int min = (int)std::max<int64_t>(1, z + s.range(-2, 2)); if (s.chance(1, 8)) min = (int)(s.u64(4) & 0x7fffffff) | 1; bool has = s.chance(5, 6); int64_t commit = 0; bool known = true;
  size_t n = s.below(4); while (n--) { static const char* nn[] = {"t", "Nonce", "nonces", "nonc", "nonce ", "nonce1"}; e.tags.push_back({s.pick(nn), "1", "999"}); } if (has) { vector<string> t{"nonce", strf("%u", (unsigned)s.u64(4))}; switch (s.below(5)) { case 0: break; case 1: case 2: commit = std::max<int64_t>(0, z + s.range(-2, 2)); t.push_back(strf("%lld", (long long)commit)); break; case 3: commit = s.flip() ? (int64_t)1 << s.range(9, 62) : (int64_t)(s.u64(8) & INT64_MAX); t.push_back(strf("%lld", (long long)commit)); break; default: if (s.flip()) { t.resize(1); has = false; } else t.push_back(""); } e.tags.insert(e.tags.begin() + s.below(e.tags.size() + 1), t); }
  EvPtr x(lib_event(e)); CHECK(nostr_nip13_calculate_difficulty(x->id) == z, "difficulty of %s: %d expected %d", hex(e.id).c_str(), nostr_nip13_calculate_difficulty(x->id), z); bool ok = has && z >= min && (commit <= 0 || z >= commit); nostr_error_t r = nostr_nip13_verify_pow(x.e, min); c.nontrivial(); c.label(ok ? "accepted" : !has ? "no nonce" : z < min ? "too easy" : "below commitment"); c.sample(strf("zeros %d min %d commit %lld", z, min, (long long)commit)); CHECK((r == NOSTR_OK) == ok, "verify_pow: zeros %d min %d commit %lld nonce %d -> %d", z, min, (long long)commit, has, r); CHECK(nostr_nip13_verify_pow(x.e, (int)-s.below(3)) != NOSTR_OK, "min below 1");
}
static void check_nonce(nostr_event* x, const Ev& m, size_t idx, uint64_t nonce, int target) {   // every tag but the nonce tag is untouched; that one carries the pair
  Ev g = from_lib(x); CHECK(g.tags.size() == m.tags.size(), "%zu tags expected %zu", g.tags.size(), m.tags.size()); for (size_t i = 0; i < g.tags.size(); i++) if (i != idx) CHECK(g.tags[i] == m.tags[i], "tag %zu changed", i); auto& t = g.tags[idx]; CHECK(t[0] == "nonce" && t.size() >= 2, "nonce tag damaged"); CHECK(t[1] == strf("%llu", (unsigned long long)nonce), "nonce %s", t[1].c_str()); if (target > 0) CHECK(t.size() >= 3 && t[2] == strf("%d", target), "target of %zu values", t.size()); else CHECK(t.size() == 2, "stale target kept");
  CHECK(g.content == m.content && g.kind == m.kind && g.pubkey == m.pubkey, "event changed");
}
static size_t nonce_index(const Ev& m) { for (size_t i = 0; i < m.tags.size(); i++) if (!m.tags[i].empty() && m.tags[i][0] == "nonce") return i; return m.tags.size(); }
static Ev g_nonce_ev(Src& s) { Ev m = g_ev(s); if (s.chance(1, 6)) m.tags.insert(m.tags.begin() + s.below(m.tags.size() + 1), {s.flip() ? "nonces" : "nonc", "7"}); if (s.chance(1, 6)) { vector<string> t{"wide"}; for (size_t k = 60 + s.below(80); k--;) t.push_back(strf("v%zu", k)); m.tags.insert(m.tags.begin() + s.below(m.tags.size() + 1), t); } if (s.flip()) { vector<string> t{"nonce"}; size_t k = s.below(4); while (k--) t.push_back(g_text(s, 10)); m.tags.insert(m.tags.begin() + s.below(m.tags.size() + 1), t); } return m; }
PROP(P20, nonce_tag_history, 5) {
  Ev m = g_nonce_ev(s); heap_reset(); nostr_event* x = lib_event(m); EvPtr xp(x); unsigned ops = 1 + (unsigned)s.size(40); string tr; while (ops--) { if (s.chance(1, 5)) { auto t = g_tag(s, 4); if (t[0] == "nonce") t[0] = "n"; vector<const char*> v; for (auto& y : t) v.push_back(y.c_str()); CHECK(nostr_event_add_tag(x, v.data(), v.size()) == NOSTR_OK, "add_tag"); m.tags.push_back(t); tr += "t"; continue; }
    uint64_t nonce = s.u64(8); int target = s.chance(1, 3) ? (int)-s.below(2) : 1 + (int)s.below(300); if (s.chance(1, 20)) target = INT_MAX; size_t i = nonce_index(m); CHECK(nostr_nip13_add_nonce_tag(x, nonce, target) == NOSTR_OK, "add_nonce_tag"); if (i == m.tags.size()) m.tags.push_back({"nonce"}); auto keep = m.tags[i]; check_nonce(x, m, i, nonce, target); Ev g = from_lib(x); m.tags[i] = g.tags[i]; tr += target > 0 ? "N" : "n"; }
  c.nontrivial(); c.sample(tr); string w; CHECK(same(m, from_lib(x), &w, false), "%s", w.c_str()); CHECK(nostr_event_compute_id(x) == NOSTR_OK, "compute_id"); Ev g = from_lib(x); CHECK(g.id == sha256(g.serial()), "id after nonce updates");
}
PROP(P20, mine, 3) {
  clock_virtual = true; clock_now = 1700000000 + (int64_t)s.below(100); clock_calls = 0; clock_every = s.flip() ? 0 : 1 + (int)s.below(8); auto d = defer([] { clock_virtual = false; clock_every = 0; }); Ev m = g_nonce_ev(s); if (m.content.size() > 300) m.content.resize(0); if (m.tags.size() > 6) m.tags.resize(6); heap_reset(); EvPtr x(lib_event(m)); int target = 1 + (int)s.below(9); uint64_t iters = s.flip() ? 0 : 1 + s.below(100); size_t i = nonce_index(m); if (i == m.tags.size()) m.tags.push_back({"nonce"}); bool th = s.flip(); int nt = 1 + (int)s.below(th ? 8 : 4); if (th) { noise(s); racy(); } auto quiet = defer([] { sched_noise = 0; }); bool oom = s.chance(1, 6); int64_t old = m.created_at; if (oom) { if (s.flip()) heap_fail_at((long)s.below(12)); else heap_fail_from((long)s.below(40)); } nostr_error_t r = th ? nostr_nip13_mine_event_threaded(x.e, target, nt, iters) : nostr_nip13_mine_event(x.e, target, iters); bool fired = oom && heap_fault_fired(); if (oom) heap_fail_at(-1);
  if (fired) { c.label("memory ran out"); c.nontrivial(); Ev g = from_lib(x.e); if (r == NOSTR_OK) { CHECK(g.id == sha256(g.serial()) && lead0(g.id) >= target && nostr_nip13_verify_pow(x.e, target) == NOSTR_OK, "mined without memory: difficulty %d for target %d", lead0(g.id), target); } CHECK(g.content == m.content && g.kind == m.kind && g.pubkey == m.pubkey, "event changed"); nostr_event_destroy(x.e); x.e = nullptr; CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); return; }
  int64_t ticked = clock_every ? (int64_t)clock_calls / clock_every : 0; if (clock_every) c.label("the clock runs"); CHECK((from_lib(x.e).created_at >= clock_now && from_lib(x.e).created_at <= clock_now + ticked) || from_lib(x.e).created_at == old, "created_at %lld is neither its own nor the present", (long long)from_lib(x.e).created_at); c.nontrivial(); c.label(th ? "threads" : "one thread"); c.label(r == NOSTR_OK ? "found" : "gave up"); CHECK(r == NOSTR_OK || (r == NOSTR_ERR_NOT_FOUND && iters > 0), "mine(%d, %llu) -> %d", target, (unsigned long long)iters, r); Ev g = from_lib(x.e); m.created_at = g.created_at; CHECK(g.tags.size() == m.tags.size() && g.tags[i].size() >= 3 && g.tags[i][2] == strf("%d", target), "commitment"); for (size_t k = 0; k < m.tags.size(); k++) if (k != i) CHECK(g.tags[k] == m.tags[k], "tag %zu changed", k); CHECK(g.content == m.content && g.kind == m.kind && g.pubkey == m.pubkey, "event changed");
  if (r == NOSTR_OK) { CHECK(g.id == sha256(g.serial()), "mined id is not the hash of the event"); CHECK(lead0(g.id) >= target, "difficulty %d for target %d", lead0(g.id), target); CHECK(nostr_nip13_verify_pow(x.e, target) == NOSTR_OK, "verify_pow refuses the mined event"); } CHECK(nostr_nip13_mine_event(x.e, 0, 1) != NOSTR_OK && nostr_nip13_mine_event(nullptr, 1, 1) != NOSTR_OK, "bad parameters"); nostr_event_destroy(x.e); x.e = nullptr; CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}

PROP(P20, mine_without_threads, 1) {   // a search that would never end is ended by the thread that cannot be started
  auto d = defer([] { fail_thread_after = -1; }); Ev m = g_nonce_ev(s); if (m.content.size() > 300) m.content.resize(0); if (m.tags.size() > 6) m.tags.resize(6); heap_reset(); EvPtr x(lib_event(m)); int nt = 1 + (int)s.below(6); long k = (long)s.below((uint64_t)nt); int target = s.flip() ? 200 : 1 + (int)s.below(6); fail_thread_after = k; nostr_error_t r = nostr_nip13_mine_event_threaded(x.e, target, nt, 0); fail_thread_after = -1; c.nontrivial(); c.label("a thread is refused"); Ev g = from_lib(x.e);
  CHECK(r != NOSTR_OK || (g.id == sha256(g.serial()) && lead0(g.id) >= target), "thread %ld of %d refused: mined difficulty %d for target %d", k, nt, lead0(g.id), target); CHECK(g.content == m.content && g.kind == m.kind && g.pubkey == m.pubkey && g.tags.size() == (nonce_index(m) == m.tags.size() ? m.tags.size() + 1 : m.tags.size()), "event changed"); nostr_event_destroy(x.e); x.e = nullptr; CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}

// ---------------------------------------------------------------- P21
static string prefix_of(const string& v, size_t size) { return v.size() < size ? v : v.substr(0, size ? size - 1 : 0); }
static string tlv(int t, const string& v) { return string(1, (char)t) + string(1, (char)v.size()) + v; }
static string be32(uint32_t k) { string o; for (int i = 3; i >= 0; i--) o += (char)(k >> 8 * i); return o; }
PROP(P21, repost, 6) {
  string id = g_hexid(s), pk = hex(pubkey_n((unsigned)s.below(4))), rel = s.chance(1, 5) ? "" : g_url(s), d = g_text(s, 60), emb = s.chance(1, 4) ? "" : g_text(s, 200); uint16_t k = s.flip() ? 1 : (uint16_t)s.u64(2); bool hasd = s.chance(1, 3), hase = s.chance(3, 4); bool bad = false; switch (s.below(10)) { case 0: id = s.flip() ? id.substr(1) : id + "0"; bad = true; break; case 1: if (s.flip()) pk[s.below(64)] = "gG /:@`-"[s.below(8)]; else pk += s.flip() ? "0" : hex(id.substr(0, 4)); bad = true; break; default: break; }
  CStr ci(id), cp(pk), cr(rel), cd(d), ce(emb); nostr_event* x = nullptr; heap_reset(); nostr_error_t e = nostr_repost_create(&x, ci, cp, cr, k, hasd ? cd.p : nullptr, hase ? ce.p : nullptr); CHECK((e == NOSTR_OK) == !bad, "repost_create -> %d", e); c.label(bad ? "refused" : k == 1 ? "kind 6" : "kind 16"); c.nontrivial(); if (bad) { CHECK(heap_live() == 0, "leak"); return; } EvPtr xp(x); Ev g = from_lib(x); vector<vector<string>> w{{"e", id, rel}, {"p", pk}}; if (k != 1) w.push_back({"k", strf("%u", k)}); if (hasd) w.push_back({"a", strf("%u:", k) + pk + ":" + d}); CHECK(g.kind == (k == 1 ? 6u : 16u) && g.tags == w && g.content == (hase ? emb : ""), "repost is %s with %zu tags", show(g).c_str(), g.tags.size());
  size_t z1 = s.flip() ? 65 : s.below(70), z2 = s.flip() ? 65 : s.below(70), z3 = s.flip() ? 300 : s.below(40); CBuf b1(z1), b2(z2), b3(z3); uint16_t pkd = 9; e = nostr_repost_parse(x, b1.p, z1, b2.p, z2, b3.p, z3, &pkd); CHECK(e == NOSTR_OK && pkd == k, "repost_parse -> %d kind %u", e, pkd); if (z1) CHECK(prefix_of(id, z1) == b1.p, "id %s", b1.p); if (z2) CHECK(prefix_of(pk, z2) == b2.p, "pubkey %s", b2.p); if (z3) CHECK(prefix_of(rel, z3) == b3.p, "relay %s expected %s", b3.p, rel.c_str());
}
PROP(P21, parse_foreign, 5) {
  Ev e; static const uint32_t ks[] = {6, 16, 1, 7}; e.kind = s.pick(ks); e.content = g_text(s, 40); string id, rel, pk; uint32_t kind = e.kind == 6 ? 1 : 0; bool has = false; size_t n = s.below(6); while (n--) switch (s.below(5)) { case 0: case 1: { vector<string> t{"e", g_hexid(s)}; id = t[1]; rel = ""; has = true; if (s.flip()) { t.push_back(s.chance(1, 4) ? "" : g_url(s)); rel = t[2]; } e.tags.push_back(t); break; } case 2: pk = hex(pubkey_n((unsigned)s.below(5))); e.tags.push_back({"p", pk}); break; case 3: if (e.kind != 6) { if (s.chance(3, 4)) { kind = (uint32_t)s.below(65536); e.tags.push_back({"k", strf("%u", kind)}); } else { static const char* kb[] = {"abc", "70000", "1x", "7 ", "", "65536", "99999999999999999999", "3.5", "1,2"}; e.tags.push_back({"k", s.pick(kb)}); } } break; default: e.tags.push_back({s.flip() ? "E" : "x", g_hexid(s), "wss://x"}); if (s.flip()) e.tags.back().resize(1); }
  EvPtr x(lib_event(e)); CBuf b1(65), b2(65), b3(300); uint16_t pkd = 9; nostr_error_t r = nostr_repost_parse(x.e, b1.p, 65, b2.p, 65, b3.p, 300, &pkd); bool rep = e.kind == 6 || e.kind == 16; c.label(!rep ? "not a repost" : has ? "repost" : "no reference"); if (rep) c.nontrivial(); c.sample(show(e)); CHECK((r == NOSTR_OK) == (rep && has), "repost_parse of kind %u -> %d", e.kind, r); if (r == NOSTR_OK) CHECK(id == b1.p && pk == b2.p && rel == b3.p && pkd == kind, "got %s / %s / %s / %u expected %s / %s / %s / %u", b1.p, b2.p, b3.p, pkd, id.c_str(), pk.c_str(), rel.c_str(), kind);
}
PROP(P21, quotes, 6) {
  Ev m = g_ev(s); m.content.clear(); size_t n = s.below(6); vector<vector<string>> q; auto sep = [&]() -> string { static const char* w[] = {" ", "\n", ", ", ".", " nostr: ", "(", " xnostr:", "\xe2\x9d\xa4", "NOSTR:", " note1 ", "@", " nostr:note1 ", " nostr:nostr:", "!", " nostr:note1", " nostr:nevent1q", " nostr:naddr1", " nostr:npub1"}; string o; size_t k = 1 + s.below(2); while (k--) o += s.pick(w); if (!o.empty() && isalnum((unsigned char)o[0])) o = " " + o; return o; };
  while (n--) { m.content += sep(); if (m.content.size() >= 6 && m.content.substr(m.content.size() - 6) == "nostr:") m.content += " "; string id = g_bin32(s), pk = pubkey_n((unsigned)s.below(4)); string r1 = s.flip() ? g_url(s) : "", r2 = s.flip() ? g_url(s) : ""; bool au = s.flip(); uint32_t kd = s.chance(1, 4) ? (uint32_t)s.u64(4) : (uint32_t)s.below(65536); string d = g_text(s, s.chance(1, 6) ? 255 : 30);
    switch (s.below(7)) { case 0: case 1: m.content += "nostr:" + bech32_encode("note", id); q.push_back({"q", hex(id), "", ""}); break;
      case 2: { string t = tlv(0, id); if (!r1.empty()) t += tlv(1, r1); if (!r1.empty() && !r2.empty()) t += tlv(1, r2); if (au) t += tlv(2, pk); m.content += "nostr:" + bech32_encode("nevent", t); q.push_back({"q", hex(id), r1, au ? hex(pk) : ""}); break; }
      case 3: { string t = tlv(0, d); if (!r1.empty()) t += tlv(1, r1); t += tlv(2, pk) + tlv(3, be32(kd)); m.content += "nostr:" + bech32_encode("naddr", t); q.push_back({"q", strf("%u:", kd) + hex(pk) + ":" + d, r1, ""}); break; }
      case 4: m.content += "nostr:" + bech32_encode("npub", pk); break; case 5: { string u = bech32_encode("note", id); u[5 + s.below(u.size() - 5)] = 'b'; m.content += "nostr:" + u; break; } default: m.content += "nostr:" + bech32_encode("nprofile", tlv(0, pk)); } }
  if (s.flip()) m.content += sep(); EvPtr x(lib_event(m)); nostr_error_t r = nostr_quote_tags_from_content(x.e); Ev w = m; for (auto& t : q) w.tags.push_back(t); c.sample(vo::show(m.content, 200)); if (q.size() > 0) c.nontrivial(); c.label(strf("%zu quotes", std::min<size_t>(q.size(), 3))); string why; CHECK(r == NOSTR_OK && same(w, from_lib(x.e), &why), "content %s -> %d: %s", vo::show(m.content, 900).c_str(), r, why.c_str());
}

// ---------------------------------------------------------------- P22
PROP(P22, create_and_parse, 6) {
  string id = g_hexid(s), pk = hex(pubkey_n((unsigned)s.below(4))), rel = g_url(s), con; switch (s.below(5)) { case 0: con = "+"; break; case 1: con = "-"; break; case 2: con = ""; break; case 3: con = "\xf0\x9f\xa4\x99"; break; default: con = g_text(s, 60); } bool hc = s.chance(4, 5), hr = s.flip(), bad = false; uint16_t k = s.chance(1, 4) ? 0 : (uint16_t)s.u64(2); switch (s.below(10)) { case 0: if (s.flip()) id += "0"; else id = id.substr(1); bad = true; break; case 1: if (s.flip()) pk[s.below(64)] = "xG /:@`-"[s.below(8)]; else pk += s.flip() ? "0" : "00"; bad = true; break; default: break; }
  CStr ci(id), cp(pk), cr(rel), cc(con); nostr_event* x = nullptr; heap_reset(); nostr_error_t e = nostr_reaction_create(&x, hc ? cc.p : nullptr, ci, cp, hr ? cr.p : nullptr, k); CHECK((e == NOSTR_OK) == !bad, "reaction_create -> %d", e); c.nontrivial(); c.label(bad ? "refused" : "created"); if (bad) { CHECK(heap_live() == 0, "leak"); return; } EvPtr xp(x); string wc = hc ? con : "+"; Ev g = from_lib(x); vector<vector<string>> w{{"e", id, hr ? rel : "", pk}, {"p", pk}}; if (hr) w[1].push_back(rel); if (k) w.push_back({"k", strf("%u", k)}); CHECK(g.kind == 7 && g.tags == w && g.content == wc, "reaction is %s", show(g).c_str());
  size_t z0 = s.flip() ? 300 : s.below(20); CBuf b0(z0), b1(65), b2(65); uint16_t kk = 9; e = nostr_reaction_parse(x, b0.p, z0, b1.p, 65, b2.p, 65, &kk); CHECK(e == NOSTR_OK && id == b1.p && pk == b2.p && kk == k, "reaction_parse -> %d %s %s %u", e, b1.p, b2.p, kk); if (z0) CHECK(prefix_of(wc, z0) == b0.p, "content"); int like = 7, dis = 7; CHECK(nostr_reaction_is_like(x, &like) == NOSTR_OK && nostr_reaction_is_dislike(x, &dis) == NOSTR_OK && like == (wc.empty() || wc == "+") && dis == (wc == "-"), "content %s: like %d dislike %d", vo::show(wc).c_str(), like, dis); c.label(like ? "like" : dis ? "dislike" : "other");
}
PROP(P22, parse_foreign, 5) {
  Ev e; e.kind = s.chance(5, 6) ? 7 : (uint32_t)s.below(10); static const char* ct[] = {"+", "-", "", "++", "+ ", "- ", "--"}; e.content = s.flip() ? s.pick(ct) : g_text(s, 30); string id, pk; uint32_t kind = 0; bool has = false; size_t n = s.below(8); while (n--) switch (s.below(5)) { case 0: case 1: id = g_hexid(s); has = true; e.tags.push_back({"e", id}); if (s.flip()) e.tags.back().push_back(g_url(s)); break; case 2: pk = hex(pubkey_n((unsigned)s.below(5))); if (s.chance(1, 6)) pk.resize(s.below(64)); e.tags.push_back({"p", pk}); break; case 3: if (s.chance(2, 3)) { kind = (uint32_t)s.below(65536); e.tags.push_back({"k", strf("%u", kind)}); } else { static const char* kb[] = {"x1", "", "1x", "7 ", "99999999999999999999", "3.5"}; e.tags.push_back({"k", s.pick(kb)}); } break; default: e.tags.push_back({s.flip() ? "a" : "E", g_hexid(s)}); if (s.flip()) e.tags.back().resize(1); }
  EvPtr x(lib_event(e)); CBuf b0(300), b1(65), b2(65); uint16_t kk = 9; bool kn = s.chance(3, 4); nostr_error_t r = nostr_reaction_parse(x.e, b0.p, 300, b1.p, 65, b2.p, 65, kn ? &kk : nullptr); bool re = e.kind == 7; if (re) c.nontrivial(); c.label(!re ? "not a reaction" : has ? "reaction" : "no target"); c.sample(show(e)); CHECK((r == NOSTR_OK) == (re && has), "reaction_parse of kind %u -> %d", e.kind, r); if (r == NOSTR_OK) CHECK(id == b1.p && pk == b2.p && e.content == b0.p && (!kn || kk == kind), "got %s / %s / %u expected %s / %s / %u", b1.p, b2.p, kk, id.c_str(), pk.c_str(), kind);
  int like = 7, dis = 7; nostr_error_t r1 = nostr_reaction_is_like(x.e, &like), r2 = nostr_reaction_is_dislike(x.e, &dis); CHECK((r1 == NOSTR_OK) == re && (r2 == NOSTR_OK) == re, "is_like -> %d, is_dislike -> %d", r1, r2); if (re) CHECK(like == (e.content.empty() || e.content == "+") && dis == (e.content == "-"), "content %s: like %d dislike %d", vo::show(e.content).c_str(), like, dis);
}

// ---------------------------------------------------------------- P23
struct Cond { string text; vector<uint32_t> kinds; bool ha = false, hb = false; int64_t a = 0, b = 0; bool valid = true; };
static Cond g_cond(Src& s) {
  Cond r; bool many = s.chance(1, 12), lng = many && s.flip(); size_t n = many ? 90 + s.below(10) : 1 + s.below(4); for (size_t i = 0; i < n; i++) { if (i) r.text += "&"; int64_t t = 1700000000 + s.range(-3, 3); if (s.chance(1, 10) || (lng && i > 3)) t = (int64_t)(s.u64(8) & INT64_MAX); switch (many && !lng && i > 3 ? 0 : s.below(3)) { case 0: { uint32_t k = s.chance(1, 6) || many ? (uint32_t)s.u64(2) : (uint32_t)s.below(4); r.kinds.push_back(k); r.text += strf("kind=%u", k); break; } case 1: r.text += strf("created_at>%lld", (long long)t); r.a = r.ha ? std::max(r.a, t) : t; r.ha = true; break; default: r.text += strf("created_at<%lld", (long long)t); r.b = r.hb ? std::min(r.b, t) : t; r.hb = true; } }
  if (s.chance(1, 6)) { static const char* bad[] = {"kind=", "kind=x", "kind=65536", "kind=-1", "kind=-18446744073709551615", "kind= 1", "kind=1kind=2", "created_at>", "created_at<abc", "created_at=5", "Kind=1", "foo=1", "created_at>99999999999999999999", "kind=1 ", "kind=1,2", "kind=4294967297", "kind=+1", "kind=0x1"}; string x = s.pick(bad); r.text = s.flip() ? x + "&" + r.text : r.text + "&" + x; r.valid = false; } return r;
}
static bool allowed(const Cond& q, uint32_t kind, int64_t t) { return (q.kinds.empty() || std::find(q.kinds.begin(), q.kinds.end(), kind) != q.kinds.end()) && (!q.ha || t > q.a) && (!q.hb || t < q.b); }
static string deleg_hash(const string& pub, const string& cond) { return sha256("nostr:delegation:" + hex(pub) + ":" + cond); }
static int64_t g_when(Src& s, const Cond& q) { int64_t t = s.flip() && q.ha ? q.a : q.hb ? q.b : 1700000000; int64_t d = s.range(-2, 2); return (int64_t)((uint64_t)t + (uint64_t)d) < 0 ? t : t + d; }
PROP(P23, create, 5) {
  Cond q = g_cond(s); unsigned di = (unsigned)s.below(4), ei = 4 + (unsigned)s.below(4); nostr_privkey sk; nostr_key pk; string sec = privkey_n(di); if (s.chance(1, 15)) sec = string(32, s.flip() ? 0 : (char)0xff); string dpub; bool okkey = pub_of(sec, &dpub); memcpy(sk.data, sec.data(), 32); memcpy(pk.data, pubkey_n(ei).data(), 32); nostr_delegation d; heap_reset(); memset(&d, 0x5a, sizeof d); CStr ct(q.text); nostr_error_t e = nostr_delegation_create(&sk, &pk, ct, &d); c.nontrivial(); c.sample(q.text); c.label(!okkey ? "bad key" : q.valid ? "valid" : "malformed conditions"); CHECK((e == NOSTR_OK) == (okkey && q.valid), "delegation_create(%s) -> %d", q.text.c_str(), e); if (e != NOSTR_OK) { CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); return; }
  auto fr = defer([&] { nostr_delegation_free(&d); }); CHECK(q.text == d.conditions && dpub == string((char*)d.delegator_pubkey.data, 32), "delegation fields"); CHECK(schnorr_verify(dpub, deleg_hash(pubkey_n(ei), q.text), string((char*)d.token, 64)), "token is not a signature of the delegation string"); CHECK(nostr_delegation_verify(&d, &pk) == NOSTR_OK, "own token refused"); for (int i = 0; i < 6; i++) { uint32_t k = s.flip() && !q.kinds.empty() ? q.kinds[s.below(q.kinds.size())] : (uint32_t)s.below(5); int64_t t = g_when(s, q); CHECK((nostr_delegation_check_conditions(&d, (uint16_t)k, t) == NOSTR_OK) == allowed(q, k, t), "conditions %s for kind %u at %lld", q.text.c_str(), k, (long long)t); }
  Ev m = g_ev(s); m.tags.erase(std::remove_if(m.tags.begin(), m.tags.end(), [](auto& t) { return t[0] == "delegation"; }), m.tags.end()); EvPtr x(lib_event(m)); CHECK(nostr_event_add_delegation(x.e, &d) == NOSTR_OK, "add_delegation"); m.tags.push_back({"delegation", hex(dpub), q.text, hex(d.token, 64)}); string w; CHECK(same(m, from_lib(x.e), &w), "%s", w.c_str()); nostr_delegation g; CHECK(nostr_event_get_delegation(x.e, &g) == NOSTR_OK, "get_delegation"); CHECK(!memcmp(&g.delegator_pubkey, &d.delegator_pubkey, 32) && !memcmp(g.token, d.token, 64) && q.text == g.conditions, "delegation read back"); nostr_delegation_free(&g); CHECK(!g.conditions, "freed delegation");
}
PROP(P23, any_order, 3) {   // near twins of one delegation in any order: each verdict is its own
  struct Tw { Ev m; string phex, cond, thex; bool want; }; Cond q = g_cond(s); REQUIRE_CASE(q.valid); unsigned di = (unsigned)s.below(4), ei = 4 + (unsigned)s.below(4); Ev m; m.content = "x"; m.pubkey = pubkey_n(ei); m.created_at = g_when(s, q); m.kind = !q.kinds.empty() ? q.kinds[s.below(q.kinds.size())] : (uint32_t)s.below(5); string tok = schnorr_sign(privkey_n(di), deleg_hash(m.pubkey, q.text), string(32, 3)); vector<Tw> v{{m, hex(pubkey_n(di)), q.text, hex(tok), allowed(q, m.kind, m.created_at)}}; Tw base = v[0];
  for (unsigned i = 2 + (unsigned)s.below(4); i; i--) { Tw t = base; Cond r = q; switch (s.below(8)) { case 0: { size_t p = s.below(128); t.thex[p] = t.thex[p] == '0' ? '1' : '0'; t.want = false; break; } case 1: t.phex = hex(pubkey_n(di + 4)); t.want = false; break; case 2: t.m.pubkey = pubkey_n(ei == 7 ? 4 : ei + 1); t.want = false; break; case 3: t.cond += "&kind=1"; t.want = false; break; case 4: t.m.kind = s.flip() ? t.m.kind ^ 1 : (uint32_t)s.below(65536); t.want = allowed(q, t.m.kind, t.m.created_at); break; case 5: t.m.created_at = g_when(s, q); t.want = allowed(q, t.m.kind, t.m.created_at); break;
      case 6: { unsigned e2 = ei == 7 ? 4 : ei + 1; t.m.pubkey = pubkey_n(e2); t.thex = hex(schnorr_sign(privkey_n(di), deleg_hash(t.m.pubkey, q.text), string(32, 3))); break; } default: { unsigned k2 = t.m.kind ^ 1; t.cond = q.text + strf("&kind=%u", k2); r.kinds.push_back(k2); t.thex = hex(schnorr_sign(privkey_n(di), deleg_hash(t.m.pubkey, t.cond), string(32, 3))); if (s.flip()) t.m.kind = k2; t.want = allowed(r, t.m.kind, t.m.created_at); break; } } v.push_back(t); }
  c.nontrivial("near twins"); c.sample(strf("%zu near twins of %s", v.size(), q.text.substr(0, 80).c_str())); bool one = s.flip(); heap_reset(); EvPtr keep(lib_event(m));
  for (unsigned i = 3 + (unsigned)s.below(8); i; i--) { size_t n = s.below(v.size()); Tw& t = v[n]; bool got; Ev w = t.m; w.tags = {{"delegation", t.phex, t.cond, t.thex}};
    if (one) { nostr_delegation d; memset(&d, 0, sizeof d); EvPtr x(lib_event(w)); CHECK(nostr_event_get_delegation(x.e, &d) == NOSTR_OK, "get_delegation of twin %zu", n); nostr_key pk; memcpy(pk.data, t.m.pubkey.data(), 32); got = nostr_delegation_verify(&d, &pk) == NOSTR_OK; bool chk = nostr_delegation_check_conditions(&d, (uint16_t)t.m.kind, t.m.created_at) == NOSTR_OK; nostr_delegation_free(&d); got = got && chk; }
    else { EvPtr x(lib_event(w)); got = nostr_event_verify_delegation(x.e) == NOSTR_OK; }
    CHECK(got == t.want, "twin %zu of %s (kind %u at %lld) -> %d after others, expected %d", n, t.cond.c_str(), t.m.kind, (long long)t.m.created_at, got, t.want); }
}
PROP(P23, verify_event, 8) {
  Cond q = g_cond(s); unsigned di = (unsigned)s.below(4), ei = 4 + (unsigned)s.below(4); Ev m; m.content = "x"; m.pubkey = pubkey_n(ei); m.created_at = g_when(s, q); m.kind = s.flip() && !q.kinds.empty() ? q.kinds[s.below(q.kinds.size())] : (uint32_t)s.below(5); string tok = schnorr_sign(privkey_n(di), deleg_hash(m.pubkey, q.text), string(32, 3)); string thex = hex(tok), phex = hex(pubkey_n(di)), cond = q.text; bool good = true, form = true; const char* what = "intact";
  switch (s.below(12)) { case 0: { size_t p = s.below(128); thex[p] = thex[p] == '0' ? '1' : '0'; good = false; what = "token"; break; } case 1: phex = hex(pubkey_n(di + 4)); good = false; what = "delegator"; break; case 2: m.pubkey = pubkey_n(ei == 7 ? 4 : ei + 1); good = false; what = "delegatee"; break; case 3: cond += "&kind=1"; good = false; what = "conditions"; break; case 4: switch (s.below(3)) { case 0: thex.resize(s.below(128)); break; case 1: thex += s.flip() ? "0" : "00"; break; default: thex[s.below(128)] = "gG /:@`x"[s.below(8)]; } good = form = false; what = "short token"; break; case 5: phex[s.below(64)] = 'g'; good = form = false; what = "bad key"; break; case 6: thex = upper(thex); phex = upper(phex); what = "upper case"; break; case 7: if (s.flip()) { cond = ""; good = form = false; what = "empty conditions"; } break; case 8: { thex = hex(schnorr_sign(privkey_n(di), sha256("nostr:delegation:" + hex(m.pubkey) + cond), string(32, 3))); good = false; what = "other digest"; break; } default: break; }
  m.tags.push_back({"delegation", phex, cond, thex}); bool has = true; if (s.chance(1, 12)) { m.tags.back().resize(1 + s.below(3)); has = false; what = "short tag"; } if (s.flip()) m.tags.back().push_back("extra"), has ? 0 : (m.tags.back().pop_back(), 0); size_t n = s.below(3); static const char* dn[] = {"Delegation", "p", "delegations", "delegation ", "delegatio"}; while (n--) m.tags.insert(m.tags.begin() + s.below(m.tags.size() + 1), {s.pick(dn), phex, cond, thex}); EvPtr x(lib_event(m)); heap_reset(); nostr_error_t e = nostr_event_verify_delegation(x.e); bool ok = has && good && q.valid && allowed(q, m.kind, m.created_at); c.nontrivial(); c.label(strf("%s%s", what, ok ? "" : ", refused")); c.sample(strf("%s kind %u at %lld", cond.c_str(), m.kind, (long long)m.created_at)); CHECK((e == NOSTR_OK) == ok, "verify_delegation of kind %u at %lld under %s (%s) -> %d", m.kind, (long long)m.created_at, cond.c_str(), what, e); if (!has) CHECK(e == NOSTR_ERR_NOT_FOUND, "no delegation tag -> %d", e); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
  nostr_delegation d; e = nostr_event_get_delegation(x.e, &d); CHECK((e == NOSTR_OK) == (has && form && q.valid), "get_delegation (%s, %s) -> %d", what, cond.c_str(), e); if (e == NOSTR_OK) { CHECK(cond == d.conditions && lower(phex) == hex(d.delegator_pubkey.data, 32) && lower(thex) == hex(d.token, 64), "delegation fields"); nostr_delegation_free(&d); } CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
