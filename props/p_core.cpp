// P30 configuration, P31 untrusted input, P32 allocation failure
#include "oracle.h"
#include <algorithm>
#include <climits>
#include <map>
extern "C" void vf_free(void*);
using namespace vf; using namespace vo;

// ---------------------------------------------------------------- P30
struct Field { const char* env; size_t off; bool sgn; int64_t lo, hi, def; };
#define FI(e, f, s, lo, hi, d) {e, offsetof(nostr_config, f), s, lo, hi, d}
static const Field FS[] = {FI("NOSTR_NIP44_MIN_SIZE", nip44_min_plaintext_size, false, 1, 65535, 1), FI("NOSTR_NIP44_MAX_SIZE", nip44_max_plaintext_size, false, 1, 65535, 65535), FI("NOSTR_MAX_SESSIONS", max_sessions, false, 1, 10000, 100), FI("NOSTR_SESSION_TIMEOUT", session_timeout_secs, false, 60, 86400, 3600),
  FI("NOSTR_MAX_PERMISSIONS", max_permissions, false, 1, 1000, 32), FI("NOSTR_MAX_CONTENT_SIZE", max_content_size, false, 1024, 1048576, 65536), FI("NOSTR_MAX_TAGS", max_tags, false, 1, 1000, 100), FI("NOSTR_MAX_TAG_VALUES", max_tag_values, false, 1, 1000, 50), FI("NOSTR_RELAY_CONNECT_TIMEOUT", relay_connect_timeout_ms, false, 1000, 300000, 30000),
  FI("NOSTR_RELAY_RESPONSE_TIMEOUT", relay_response_timeout_ms, false, 1000, 60000, 10000), FI("NOSTR_ENCRYPTION_DEFAULT", encryption_default_nip, true, 4, 44, 44), FI("NOSTR_SECURE_MEMORY_LOCK", secure_memory_lock, true, 0, 1, 0), FI("NOSTR_DEBUG", debug_mode, true, 0, 1, 0)};
static const size_t NF = sizeof FS / sizeof *FS;
typedef vector<int64_t> Cfg;
static Cfg cfg_default() { Cfg c; for (auto& f : FS) c.push_back(f.def); return c; }
static bool cfg_valid(const Cfg& c) { for (size_t i = 0; i < NF; i++) { if (c[i] < FS[i].lo || c[i] > FS[i].hi) return false; } return c[1] >= c[0] && (c[10] == 4 || c[10] == 44); }
static nostr_config cfg_lib(const Cfg& c) { nostr_config k; memset(&k, 0, sizeof k); for (size_t i = 0; i < NF; i++) { uint32_t v = (uint32_t)c[i]; memcpy((char*)&k + FS[i].off, &v, 4); } return k; }
static Cfg cfg_from(const nostr_config& k) { Cfg c; for (auto& f : FS) { uint32_t v; memcpy(&v, (const char*)&k + f.off, 4); c.push_back(f.sgn ? (int64_t)(int32_t)v : (int64_t)v); } return c; }
static string cfg_show(const Cfg& c) { string o; for (auto v : c) o += strf("%lld ", (long long)v); return o; }
static int64_t g_field(Src& s, const Field& f, bool ok) { if (ok) { if (f.lo == 4) return s.flip() ? 4 : 44; switch (s.below(4)) { case 0: return f.lo; case 1: return f.hi; case 2: return f.def; default: return f.lo + (int64_t)s.below((uint64_t)(f.hi - f.lo) + 1); } } switch (s.below(6)) { case 0: return f.lo - 1 < 0 && !f.sgn ? f.hi + 1 : f.lo - 1; case 1: return f.hi + 1; case 2: return f.lo == 4 ? 5 + (int64_t)s.below(39) : f.sgn ? INT32_MIN : 0xffffffffll; case 3: return f.sgn ? INT32_MAX : 0x80000000ll; default: return f.sgn ? (int64_t)(int32_t)s.u64(4) : (int64_t)(uint32_t)s.u64(4); } }
static Cfg g_cfg(Src& s) { Cfg c = cfg_default(); if (s.chance(1, 8)) return c; for (size_t i = 0; i < NF; i++) if (s.chance(1, 2)) c[i] = g_field(s, FS[i], true); if (s.chance(4, 5) && c[1] < c[0]) std::swap(c[0], c[1]); if (s.chance(1, 3)) { size_t i = s.below(NF); c[i] = g_field(s, FS[i], false); } return c; }
struct EnvV { string text; bool known; bool has; int64_t v; };   // the number the text stands for, if it is one in range
static EnvV g_env(Src& s, const Field& f) {
  int64_t v = g_field(s, f, s.chance(3, 4)); string t = strf("%lld", (long long)v);
  switch (s.below(5)) { case 0: { static const char* bad[] = {"", "x", "12x", "1.5", "0x10", "99999999999", "99999999999999999999999", "-99999999999999999999999", "4294967296", "-18446744073709551615", "-18446744073709551516", "1e3", "12 ", "--1", "2147483648000", "-", "18446744073709551616", "18446744073709551716"}; t = s.pick(bad); if (f.sgn && t == "4294967296") return {t, true, false, 0}; return {t, true, false, 0}; } case 1: if (!f.sgn) return {strf("-%u", 1 + (unsigned)s.below(100000)), true, false, 0}; break; case 2: t = string(1 + s.below(4), '0') + t; if (v < 0) return {strf("%lld", (long long)v), true, true, v}; break; default: break; } return {t, true, true, v};
}
PROP(P30, validate_and_env, 3) {
  Cfg c0 = g_cfg(s); nostr_config k = cfg_lib(c0); nostr_error_t e = nostr_config_validate(&k); CHECK((e == NOSTR_OK) == cfg_valid(c0), "validate(%s) -> %d", cfg_show(c0).c_str(), e); CHECK(cfg_from(k) == c0, "validation changed the configuration");
  nostr_config d; memset(&d, 0x5a, sizeof d); CHECK(nostr_config_get_defaults(&d) == NOSTR_OK && cfg_from(d) == cfg_default(), "defaults %s", cfg_show(cfg_from(d)).c_str()); Cfg w = c0; vector<const char*> set; string tr; auto un = defer([&] { for (auto n : set) unsetenv(n); });
  for (size_t i = 0; i < NF; i++) { unsetenv(FS[i].env); if (!s.chance(1, 3)) continue; EnvV v = g_env(s, FS[i]); setenv(FS[i].env, v.text.c_str(), 1); set.push_back(FS[i].env); if (v.has) w[i] = v.v; tr += strf("%s=%s ", FS[i].env, v.text.c_str()); }
  c.nontrivial(); c.label(set.empty() ? "no environment" : "environment"); c.sample(tr); e = nostr_config_load_env(&k); CHECK(e == NOSTR_OK && cfg_from(k) == w, "load_env of %s over %s gave %s, expected %s", tr.c_str(), cfg_show(c0).c_str(), cfg_show(cfg_from(k)).c_str(), cfg_show(w).c_str());
}
struct Op { int k; Cfg c; bool flag = false; size_t a = 0, b = 0, ud = 0; vector<std::pair<string, EnvV>> env; };
struct Seen { int calls = 0; Cfg o, n, cur; void* ud = nullptr; bool had = false; };
static Seen seen;
static void on_change(const nostr_config* o, const nostr_config* n, void* ud) { seen.calls++; seen.o = cfg_from(*o); seen.n = cfg_from(*n); seen.ud = ud; const nostr_config* g = nostr_config_get_current(); seen.had = g != nullptr; if (g) seen.cur = cfg_from(*g); }
PROP(P30, history, 1) {
  vector<Op> ops; size_t n = 1 + s.below(8); string tr;
  while (n--) { Op o; o.k = (int)s.below(8); if (o.k == 0) { o.flag = s.chance(1, 3); if (o.flag) for (auto& f : FS) if (s.chance(1, 6)) o.env.push_back({f.env, g_env(s, f)}); o.c = g_cfg(s); } if (o.k == 1 || o.k == 2) { o.k = 1; o.c = g_cfg(s); if (s.flip()) { o.c[6] = 1 + s.below(6); o.c[5] = 1024 + s.below(40); } } if (o.k == 3) { o.flag = s.chance(3, 4); o.ud = s.below(3); } if (o.k >= 4) { o.a = s.below(5); o.b = s.below(5); } ops.push_back(o); tr += "ieuc?tnl"[o.k]; }
  c.nontrivial(); c.sample(tr); c.label("history");
  forked([&] {
    bool init = false, cb = false; Cfg cur; int ud[2]; void* given = nullptr; string t;
    for (auto& o : ops) switch (o.k) {
      case 0: { t += "init "; nostr_config k = cfg_lib(o.c); Cfg want = o.c; if (o.flag) { want = cfg_default(); for (auto& v : o.env) { setenv(v.first.c_str(), v.second.text.c_str(), 1); if (v.second.has) for (size_t i = 0; i < NF; i++) if (v.first == FS[i].env) want[i] = v.second.v; } } nostr_error_t e = nostr_init_with_config(o.flag ? nullptr : &k); for (auto& v : o.env) unsetenv(v.first.c_str()); bool ok = init || cfg_valid(want); CHECK((e == NOSTR_OK) == ok, "%s: init_with_config(%s%s) -> %d", t.c_str(), o.flag ? "environment " : "", cfg_show(want).c_str(), e); if (ok && !init) { init = true; cur = want; } break; }
      case 1: { t += "update "; nostr_config k = cfg_lib(o.c); seen = Seen(); Cfg old = cur; nostr_error_t e = nostr_config_update(&k); bool ok = init && cfg_valid(o.c); CHECK((e == NOSTR_OK) == ok, "%s: update(%s) -> %d", t.c_str(), cfg_show(o.c).c_str(), e); if (ok) cur = o.c; CHECK(seen.calls == (ok && cb ? 1 : 0), "%s: callback called %d times", t.c_str(), seen.calls); if (seen.calls) CHECK(seen.o == old && seen.n == cur && seen.ud == given && seen.had && seen.cur == cur, "%s: callback saw old %s new %s current %s", t.c_str(), cfg_show(seen.o).c_str(), cfg_show(seen.n).c_str(), cfg_show(seen.cur).c_str()); break; }
      case 3: t += "callback "; given = o.ud < 2 ? &ud[o.ud] : nullptr; CHECK(nostr_config_set_callback(o.flag ? on_change : nullptr, given) == NOSTR_OK, "set_callback"); cb = o.flag; break;
      case 4: { t += "get "; const nostr_config* g = nostr_config_get_current(); CHECK(!!g == init, "%s: current configuration", t.c_str()); if (g) CHECK(cfg_from(*g) == cur, "%s: current %s expected %s", t.c_str(), cfg_show(cfg_from(*g)).c_str(), cfg_show(cur).c_str()); break; }
      case 5: { t += "tags "; nostr_event* x = nullptr; CHECK(nostr_event_create(&x) == NOSTR_OK, "create"); size_t lim = init ? (size_t)cur[6] : 1000000, top = init && lim < 200 ? lim + o.a : 110; for (size_t i = 0; i < top; i++) { const char* v[] = {"t", "x"}; nostr_error_t e = nostr_event_add_tag(x, v, 2); CHECK((e == NOSTR_OK) == (i < lim), "%s: tag %zu with a limit of %zu -> %d", t.c_str(), i + 1, lim, e); } CHECK(x->tags_count == std::min(lim, top), "tag count"); nostr_event_destroy(x); break; }
      case 6: { t += "parse-tags "; size_t lim = init ? (size_t)cur[6] : 1000000, k = init && lim < 200 ? lim + o.a - std::min<size_t>(2, lim) : 150; Ev e; for (size_t i = 0; i < k; i++) e.tags.push_back({"t", strf("%zu", i)}); e.seal(privkey_n(3)); nostr_event* x = nullptr; nostr_error_t r = nostr_event_from_json(e.json_text().c_str(), &x); CHECK((r == NOSTR_OK) == (k <= lim), "%s: %zu tags with a limit of %zu -> %d", t.c_str(), k, lim, r); if (x) nostr_event_destroy(x); break; }
      default: { t += "parse-content "; size_t lim = init ? (size_t)cur[5] : 10000000, k = init ? lim + o.a - 2 : 70000; if (k > 70000) k = 70000; Ev e; e.content = string(k, 'c'); if (o.b == 0 && k > 2) { e.content.resize(k - 2); e.content += "\xc3\xa9"; } e.seal(privkey_n(3)); nostr_event* x = nullptr; nostr_error_t r = nostr_event_from_json(e.json_text().c_str(), &x); CHECK((r == NOSTR_OK) == (k <= lim), "%s: content of %zu with a limit of %zu -> %d", t.c_str(), k, lim, r); if (x) nostr_event_destroy(x); } }
  });
}

// ---------------------------------------------------------------- P30 features: what is reported is what was built
#include "nostr_features.h"
static const std::map<int, bool> NIPS = {
#ifdef NOSTR_FEATURE_NIP04
  {4, true},
#else
  {4, false},
#endif
#ifdef NOSTR_FEATURE_NIP05
  {5, true},
#else
  {5, false},
#endif
#ifdef NOSTR_FEATURE_NIP10
  {10, true},
#else
  {10, false},
#endif
#ifdef NOSTR_FEATURE_NIP13
  {13, true},
#else
  {13, false},
#endif
#ifdef NOSTR_FEATURE_NIP17
  {17, true},
#else
  {17, false},
#endif
#ifdef NOSTR_FEATURE_NIP18
  {18, true},
#else
  {18, false},
#endif
#ifdef NOSTR_FEATURE_NIP25
  {25, true},
#else
  {25, false},
#endif
#ifdef NOSTR_FEATURE_NIP26
  {26, true},
#else
  {26, false},
#endif
#ifdef NOSTR_FEATURE_NIP44
  {44, true},
#else
  {44, false},
#endif
#ifdef NOSTR_FEATURE_NIP46
  {46, true},
#else
  {46, false},
#endif
#ifdef NOSTR_FEATURE_NIP47
  {47, true},
#else
  {47, false},
#endif
#ifdef NOSTR_FEATURE_NIP49
  {49, true},
#else
  {49, false},
#endif
#ifdef NOSTR_FEATURE_NIP51
  {51, true},
#else
  {51, false},
#endif
#ifdef NOSTR_FEATURE_NIP57
  {57, true},
#else
  {57, false},
#endif
#ifdef NOSTR_FEATURE_NIP59
  {59, true},
#else
  {59, false},
#endif
#ifdef NOSTR_FEATURE_NIP65
  {65, true},
#else
  {65, false},
#endif
};
static const std::map<string, bool> EXTRA = {
#ifdef NOSTR_FEATURE_RELAY
  {"relay", true},
#else
  {"relay", false},
#endif
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
  {"relay-protocol", true},
#else
  {"relay-protocol", false},
#endif
#ifdef NOSTR_FEATURE_HD_KEYS
  {"hd-keys", true},
#else
  {"hd-keys", false},
#endif
#ifdef NOSTR_FEATURE_JSON_ENHANCED
  {"json-enhanced", true},
#else
  {"json-enhanced", false},
#endif
};
// what the library calls itself, its errors and what it releases
extern "C" void* vf_malloc(size_t);
static const nostr_error_t ERRS[] = {NOSTR_OK, NOSTR_ERR_INVALID_KEY, NOSTR_ERR_INVALID_EVENT, NOSTR_ERR_INVALID_SIGNATURE, NOSTR_ERR_MEMORY, NOSTR_ERR_JSON_PARSE, NOSTR_ERR_ENCODING, NOSTR_ERR_CONNECTION, NOSTR_ERR_PROTOCOL, NOSTR_ERR_NOT_FOUND, NOSTR_ERR_TIMEOUT, NOSTR_ERR_INVALID_PARAM, NOSTR_ERR_NOT_SUPPORTED};
static const nostr_relay_error_t RERRS[] = {NOSTR_RELAY_OK, NOSTR_RELAY_ERR_INVALID_JSON, NOSTR_RELAY_ERR_MISSING_FIELD, NOSTR_RELAY_ERR_INVALID_ID, NOSTR_RELAY_ERR_INVALID_PUBKEY, NOSTR_RELAY_ERR_INVALID_SIG, NOSTR_RELAY_ERR_INVALID_CREATED_AT, NOSTR_RELAY_ERR_INVALID_KIND, NOSTR_RELAY_ERR_INVALID_TAGS, NOSTR_RELAY_ERR_INVALID_CONTENT, NOSTR_RELAY_ERR_ID_MISMATCH, NOSTR_RELAY_ERR_SIG_MISMATCH, NOSTR_RELAY_ERR_FUTURE_EVENT, NOSTR_RELAY_ERR_EXPIRED_EVENT, NOSTR_RELAY_ERR_INVALID_SUBSCRIPTION_ID, NOSTR_RELAY_ERR_TOO_MANY_FILTERS, NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, NOSTR_RELAY_ERR_MEMORY, NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE, NOSTR_RELAY_ERR_STORAGE};
template <class E> __attribute__((no_sanitize("undefined"), noinline)) static const char* call_with(const char* (*f)(E), int v) { return f((E)v); }   // C has no invalid enumerators
template <class E, size_t N> static void named(Ctx& c, Src& s, const char* what, const char* (*fn)(E), const E (&all)[N]) {
  auto name = [&](int v) { return call_with(fn, v); };
  int a = s.chance(3, 4) ? (int)all[s.below(N)] : (int)(int64_t)s.u64(4), b = s.chance(3, 4) ? (int)all[s.below(N)] : a ^ (1 << s.below(16)); auto known = [&](int v) { for (auto e : all) if ((int)e == v) return true; return false; }; const char *x = name(a), *y = name(b); c.sample(strf("%s %d and %d", what, a, b)); CHECK(x && *x && y && *y && name(a) == string(x), "%s %d has no text, or not always the same", what, a); bool ka = known(a), kb = known(b); c.label(ka && kb ? "two errors" : ka || kb ? "an error and a stranger" : "strangers"); c.nontrivial();
  if (a != b && (ka || kb)) CHECK(string(x) != y, "%s %d and %d are both \"%s\"", what, a, b, x);
}
PROP(P30, texts, 1) {
  switch (s.below(3)) { case 0: named(c, s, "error", nostr_error_string, ERRS); break; case 1: named(c, s, "relay error", nostr_relay_error_string, RERRS); break;
    default: { size_t n = s.below(9); heap_reset(); char** a = (char**)vf_malloc(n * sizeof(char*) + !n); for (size_t i = 0; i < n; i++) { string t = g_text(s, 40); a[i] = s.chance(1, 6) ? nullptr : (char*)vf_malloc(t.size() + 1); if (a[i]) memcpy(a[i], t.c_str(), t.size() + 1); } nostr_free_strings(a, n); nostr_free_strings(nullptr, n); c.nontrivial("released texts"); c.sample(strf("%zu texts", n)); CHECK(heap_live() == 0, "%zu texts released, left: %s", n, heap_live_desc().c_str()); } }
#ifdef VF_VERSION
  CHECK(string(nostr_version()) == VF_VERSION, "version %s of a library whose version is %s", nostr_version(), VF_VERSION);
#endif
}
PROP(P30, features, 1) {
  int n = s.chance(3, 4) ? (int)s.below(100) : (int)(int64_t)s.u64(4); auto it = NIPS.find(n); bool want = it != NIPS.end() && it->second; c.nontrivial(); c.label(want ? "enabled NIP" : "other number"); c.sample(strf("NIP %d", n));
  CHECK((nostr_feature_nip_supported(n) != 0) == want, "NIP %d is %s, reported %d", n, want ? "built in" : "not built in", nostr_feature_nip_supported(n));
  string l = string(",") + nostr_feature_list_enabled() + ","; CHECK((l.find(strf(",nip%02d,", n)) != string::npos) == want, "NIP %d is %s, the list is %s", n, want ? "built in" : "not built in", l.c_str());
  int v[4] = {nostr_feature_relay_available(), nostr_feature_relay_protocol_available(), nostr_feature_hd_keys_available(), nostr_feature_json_enhanced_available()}; const char* nm[4] = {"relay", "relay-protocol", "hd-keys", "json-enhanced"};
  for (int i = 0; i < 4; i++) { bool w = EXTRA.at(nm[i]); CHECK((v[i] != 0) == w, "%s reported %d", nm[i], v[i]); CHECK((l.find(string(",") + nm[i] + ",") != string::npos) == w, "%s in the list %s", nm[i], l.c_str()); }
}
