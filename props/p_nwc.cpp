// P40 remote signing (NIP-46), P41 wallet connection, P42 wallet messages (NIP-47)
#include "enc.h"
#include <algorithm>

static const int64_t NOW = 1700000000;
static int inited = (before_case = [] { rand_mode = 0; nostr_init(); clock_virtual = true; clock_now = NOW; }, after_case = [] { rand_mode = 0; clock_virtual = false; }, 0);
static Ev grab(nostr_event* e) { EvPtr x(e); return from_lib(e); }
static Ev msg_of(Src& s, const Key& from, const Key& to, uint32_t kind, const string& inner) { Ev e; string x; ecdh_x(from.priv, to.pub, &x); e.kind = kind; e.created_at = NOW; e.content = enc44(x, s.bulk(32), inner); e.tags = {{"p", hex(to.pub)}}; e.seal(from.priv); return e; }
// members in any order, with members nobody knows between them
static JV shuffled(Src& s, vector<std::pair<string, JV>> m, std::initializer_list<const char*> decoys) { for (auto d : decoys) if (s.chance(1, 4)) m.push_back({d, s.flip() ? jstr("decoy") : jint(7)}); for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[s.below(i)]); return jobj(m); }

// ---------------------------------------------------------------- P40
PROP(P40, request, 6) {
  Key a = g_key(s), b = g_key(s), z = g_key(s); static const char* ms[] = {"connect", "sign_event", "ping", "get_public_key", "nip44_encrypt"}; string id = s.chance(1, 4) ? g_text(s, 80) : g_ascii(s, 64, "0123456789abcdef"), method = s.chance(1, 3) ? g_text(s, 40) : string(s.pick(ms)); if (s.chance(1, 10)) id = string(63 + s.below(4), 'i'); if (s.chance(1, 10)) method = string(30 + s.below(4), 'm'); vector<JV> ps; for (size_t i = s.below(5); i--;) ps.push_back(jstr(s.chance(1, 10) ? string(s.size(3000), 'p') : g_text(s, 80)));
  vector<std::pair<string, JV>> m = {{"id", jstr(id)}, {"method", jstr(method)}}; bool hp = s.chance(7, 8), ok = id.size() <= 64 && method.size() <= 31; if (hp) m.push_back({"params", jarr(ps)}); const char* what = ok ? "request" : "id or method too long"; string priv = b.priv; int mode = s.chance(2, 3) ? 0 : 1 + (int)s.below(7);
  if (mode == 7) { JV jm = jobj(m); put_nul(jm, s); m = jm.o; ok = false; what = "U+0000 in a text"; }
  if (mode == 1) { m.erase(m.begin() + (int)s.below(2)); ok = false; what = "no id or no method"; } if (mode == 2) { m[s.below(2)].second = s.flip() ? jint(5) : jnull(); ok = false; what = "id or method no text"; }
  string t = json_variant(shuffled(s, m, {"ID", "Method", "Params", "extra", "result"}), s); if (mode == 3) { t = s.flip() ? "[" + t + "]" : s.flip() ? "7" : t.substr(0, t.size() - 1 - s.below(t.size() - 1)); ok = false; what = "no object"; if (t.empty()) t = "x"; }
  Ev e = msg_of(s, a, b, 24133, t); if (mode == 4) { do e.kind = (uint32_t)s.u64(2); while (e.kind == 24133); ok = false; what = "other kind"; } if (mode == 5) { REQUIRE_CASE(z.pub != b.pub && z.pub != a.pub); priv = z.priv; ok = false; what = "other key"; } if (mode == 6) { string p; unb64(e.content, &p); p[s.below(p.size())] ^= (char)(1 << s.below(8)); e.content = b64(p); ok = false; what = "damaged"; }
  c.nontrivial(what); c.sample(vo::show(t, 80)); EvPtr x(lib_event(e)); nostr_privkey k = lpriv(priv); nostr_nip46_request_t r; memset(&r, 0x5a, sizeof r); nostr_error_t q = nostr_nip46_parse_request(x.e, &k, &r); CHECK((q == NOSTR_OK) == ok, "%s: parse_request -> %d\n  %s", what, q, vo::show(t, 300).c_str());
  if (q != NOSTR_OK) { CHECK(!r.params, "a refused request has parameters"); nostr_nip46_request_free(&r); return; } string gp = r.params ? string(r.params) : ""; JV pj; CHECK(string(r.id) == id && string(r.method) == method, "id %s method %s of %s", r.id, r.method, vo::show(t, 300).c_str()); CHECK(memcmp(r.sender_pubkey.data, a.pub.data(), 32) == 0, "sender"); if (hp) { CHECK(r.params && r.params_len == gp.size() && json_parse(gp, &pj) && json_compact(pj) == json_compact(jarr(ps)), "params %s of %s", vo::show(gp, 300).c_str(), vo::show(t, 300).c_str()); } else CHECK(!r.params && !r.params_len, "params out of nothing"); nostr_nip46_request_free(&r); CHECK(!r.params, "freed"); nostr_nip46_request_free(&r);
}
static string g_result(Src& s) { static const char* f[] = {"ack", "pong", "null", "true", "123", "{\"a\":1}", "[]", "\"x\"", "1e5", "00", "12345678901234567890", " ", "", "{\"kind\":1,\"content\":\"\\\"\"}"}; return s.flip() ? string(s.pick(f)) : s.flip() ? g_hexid(s) : g_text(s, 400); }
extern "C" void* vf_malloc(size_t);
static char* owned(const string* v) { if (!v) return nullptr; char* p = (char*)vf_malloc(v->size() + 1); memcpy(p, v->c_str(), v->size() + 1); return p; }
static std::pair<bool, string> make46(const string& id, const string* result, const string* error, const Key& a, const Key& b) {   // what the client finds in the response
  nostr_nip46_response_t r; memset(&r, 0, sizeof r); memcpy(r.id, id.c_str(), id.size()); CStr cr(result ? *result : ""), ce(error ? *error : ""); if (result) r.result = cr.p; if (error) r.error = ce.p; nostr_privkey k = lpriv(a.priv); nostr_key p = lpub(b.pub); nostr_event* e = nullptr; nostr_error_t q = nostr_nip46_create_response(&r, &k, &p, &e); CHECK((q == NOSTR_OK) == (e != nullptr), "create_response -> %d with %p", q, (void*)e); if (q != NOSTR_OK) return {false, ""};
  Ev w = grab(e); string x, t; CHECK(w.kind == 24133 && w.pubkey == a.pub && w.created_at == NOW && proper(w), "response %s", show(w).c_str()); CHECK(w.tags == vector<vector<string>>({{"p", hex(b.pub)}}), "tags of %s", w.json_text().substr(0, 300).c_str()); CHECK(ecdh_x(b.priv, a.pub, &x) && open44(x, w.content, &t), "the client cannot open the response"); return {true, t};
}
PROP(P40, response_release, 1) { heap_reset(); string res = g_result(s), err = g_text(s, 100); nostr_nip46_response_t r; memset(&r, 0, sizeof r); r.result = owned(s.flip() ? &res : nullptr); r.error = owned(s.flip() ? &err : nullptr); c.nontrivial("released"); c.sample("release"); nostr_nip46_response_free(&r); CHECK(!r.result && !r.error && heap_live() == 0, "released: %s", heap_live_desc().c_str()); nostr_nip46_response_free(&r); nostr_nip46_response_free(nullptr); CHECK(heap_live() == 0, "released twice"); }
PROP(P40, response, 4) {
  Key a = g_key(s), b = g_key(s); string id = g_ascii(s, 64, "0123456789abcdef-"), res = g_result(s), err = g_text(s, 100); if (s.chance(1, 8)) id = string(64, 'f'); bool hr = s.chance(5, 6), he = s.chance(1, 4); auto p = make46(id, hr ? &res : nullptr, he ? &err : nullptr, a, b); c.nontrivial(he ? "error" : hr ? "result" : "neither"); c.sample(vo::show(p.second, 80)); CHECK(p.first, "create_response refused"); JV j; CHECK(json_parse(p.second, &j) && j.t == JV::Obj, "not a JSON object: %s", vo::show(p.second, 300).c_str());
  auto str = [&](const char* k, const string& v) { auto x = j.get(k); return x && x->t == JV::Str && x->s == v; }; CHECK(str("id", id), "id of %s", vo::show(p.second, 300).c_str()); if (he) CHECK(str("error", err), "error %s of %s", vo::show(err).c_str(), vo::show(p.second, 300).c_str()); else { CHECK(!j.get("error") || j.get("error")->t == JV::Null || str("error", ""), "an error out of nothing"); if (hr) CHECK(str("result", res), "result %s became %s", vo::show(res).c_str(), vo::show(p.second, 300).c_str()); }
}
PROP(P40, refuse, 1) { Key a = g_key(s), b = g_key(s); if (s.flip()) a.priv = bad_priv(s); else b.pub = bad_pub(s); string r = "ack"; c.nontrivial("invalid key"); c.sample("invalid key"); CHECK(!make46("1", &r, nullptr, a, b).first, "made under an invalid key"); }
PROP(P40, memory, 1) {
  Key a = g_key(s), b = g_key(s); string id = "77", res = g_result(s), t = json_compact(jobj({{"id", jstr(id)}, {"method", jstr("connect")}, {"params", jarr({jstr("a"), jstr(res)})}})); Ev e = msg_of(s, a, b, 24133, t); EvPtr x(lib_event(e)); nostr_privkey k = lpriv(b.priv); c.nontrivial("allocation failures"); c.sample("memory"); with_faults(s, "create_response", [&] { return make46(id, &res, nullptr, a, b); });
  with_faults(s, "parse_request", [&] { nostr_nip46_request_t r; nostr_error_t q = nostr_nip46_parse_request(x.e, &k, &r); string o = q == NOSTR_OK ? string(r.id) + r.method + (r.params ? r.params : "none") : ""; nostr_nip46_request_free(&r); return std::make_pair(q == NOSTR_OK, o); });
}

// ---------------------------------------------------------------- P41
extern "C" void vf_conn(const struct nwc_connection*, char***, size_t*, const uint8_t**, const uint8_t**, const char**);
struct Nwc { string service, secret; vector<string> relays; string lud; bool has_lud = false; string text() const { string o = hex(service) + " " + hex(secret); for (auto& r : relays) o += " <" + r + ">"; return o + (has_lud ? " lud16 " + lud : ""); } };
static Nwc of_conn(const struct nwc_connection* c) { Nwc w; char** r; size_t n; const uint8_t *se, *sv; const char* l; vf_conn(c, &r, &n, &se, &sv, &l); w.service = string((char*)sv, 32); w.secret = string((char*)se, 32); for (size_t i = 0; i < n; i++) w.relays.push_back(r[i]); w.has_lud = l; if (l) w.lud = l; return w; }
static string any_case(Src& s, string h) { if (s.chance(1, 4)) for (auto& ch : h) if (s.flip()) ch = (char)toupper(ch); return h; }
static string pct(Src& s, const string& v) { string o; bool all = s.chance(1, 6); for (unsigned char ch : v) { bool must = ch == '&' || ch == '%', plain = isalnum(ch) || strchr(".-_~", ch); if (must || all || (!plain && s.chance(3, 4))) o += strf(s.flip() ? "%%%02X" : "%%%02x", ch); else o += (char)ch; } return o; }
static Nwc g_nwc(Src& s) { Nwc w; w.service = g_key(s).pub; w.secret = g_key(s).priv; for (size_t i = s.chance(1, 20) ? 28 + s.below(44) : 1 + (s.chance(1, 4) ? s.below(12) : s.below(3)); i--;) w.relays.push_back(s.chance(1, 3) ? g_text(s, 40) + "r" : g_url(s)); w.has_lud = s.flip(); if (w.has_lud) w.lud = g_text(s, 30); return w; }
static string uri_of(Src& s, const Nwc& w, bool extras = true) { vector<string> ps = {"secret=" + any_case(s, hex(w.secret))}; if (w.has_lud) ps.push_back("lud16=" + pct(s, w.lud)); static const char* junk[] = {"name=a%20b", "relays=x", "Secret=00", "x", "=", "lud=16", "relay", "secre=", "secrets=1"}; if (extras) for (size_t i = s.below(3); i--;) ps.push_back(s.pick(junk)); for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[s.below(i)]); size_t at = 0; for (auto& r : w.relays) { at += s.below(ps.size() - at + 1); ps.insert(ps.begin() + at++, "relay=" + pct(s, r)); } string u = "nostr+walletconnect://" + any_case(s, hex(w.service)) + "?"; for (size_t i = 0; i < ps.size(); i++) u += (i ? "&" : "") + ps[i]; return u; }
struct Conn { struct nwc_connection* c = nullptr; nostr_error_t e; explicit Conn(const string& u) { CStr t(u); e = nostr_nip47_parse_connection_uri(t, &c); CHECK((e == NOSTR_OK) == (c != nullptr), "parse_connection_uri -> %d with %p", e, (void*)c); } ~Conn() { if (c) nostr_nip47_free_connection(c); } Conn(const Conn&) = delete; };
PROP(P41, uri, 8) {
  Nwc w = g_nwc(s); string u = uri_of(s, w), why; const char* what = "proper"; bool ok = true; int mode = s.flip() ? 0 : 1 + (int)s.below(8); size_t q = u.find('?'), sc = u.find("secret=", q); while (sc != string::npos && u[sc - 1] != '?' && u[sc - 1] != '&') sc = u.find("secret=", sc + 1);
  switch (mode) {
    case 1: { static const char* bad[] = {" ", "+", "-", "g", "x", "\t", "G", ":"}; size_t p = s.flip() ? q - 64 + s.below(64) : sc + 7 + s.below(64); u.replace(p, 1, s.pick(bad)); ok = false; what = "no hex digit"; break; }
    case 2: { size_t p = s.flip() ? q - 64 : sc + 7; if (s.flip()) u.erase(p, 1 + s.below(3)); else u.insert(p, string(1 + s.below(2), 'a')); ok = false; what = "key of another length"; break; }
    case 3: { w.relays.clear(); u = uri_of(s, w); ok = false; what = "no relay"; break; }
    case 4: { size_t e = u.find('&', sc); u.erase(sc, e == string::npos ? string::npos : e - sc + 1); ok = false; what = "no secret"; break; }
    case 5: { size_t i = s.below(22); u[i] ^= 1; ok = false; what = "another scheme"; break; }
    case 6: u.resize(s.below(q + 1)); ok = false; what = "cut"; break;
    case 7: { size_t at = u.find("relay=", q) + 6; while (u[at - 7] != '?' && u[at - 7] != '&') at = u.find("relay=", at) + 6; static const char* odd[] = {"%zz", "%+f", "% 4", "%4g", "%", "%%", "%-1", "a+b"}; string o = s.pick(odd); w.relays[0] = o + w.relays[0]; u.insert(at, o); if (o == "%" || o == "%%") { string rest = u.substr(at + o.size(), 2); REQUIRE_CASE(rest.size() < 2 || !isxdigit((unsigned char)rest[0]) || !isxdigit((unsigned char)rest[1])); } what = "odd percent signs"; break; }
    case 8: { size_t e = u.size(); u += strf("&lud16=%s", pct(s, "x@y").c_str()); if (!w.has_lud) { w.has_lud = true; w.lud = "x@y"; } else { w.lud.clear(); } what = "more than one lud16"; if (u.size() == e) ok = true; break; }
  }
  c.nontrivial(what); c.sample(vo::show(u, 120)); Conn k(u); CHECK((k.e == NOSTR_OK) == ok, "%s: %s -> %d", what, vo::show(u, 500).c_str(), k.e); if (!ok) return; Nwc g = of_conn(k.c); if (w.has_lud && w.lud.empty()) { w.lud = g.lud; } CHECK(g.text() == w.text(), "%s\n  uri %s\n  read %s\n  want %s", what, vo::show(u, 500).c_str(), vo::show(g.text(), 500).c_str(), vo::show(w.text(), 500).c_str());
}
static string join_words(Src& s, const vector<string>& w) { string o(s.chance(1, 6) ? s.below(3) : 0, ' '); for (size_t i = 0; i < w.size(); i++) o += (i ? string(1 + (s.chance(1, 5) ? s.below(3) : 0), ' ') : "") + w[i]; return o + string(s.chance(1, 6) ? s.below(3) : 0, ' '); }
static vector<string> g_words(Src& s, size_t n) { static const char* w[] = {"pay_invoice", "get_balance", "make_invoice", "lookup_invoice", "get_info", "notifications", "nip44_v2", "nip04", "payment_received"}; vector<string> o; while (n--) o.push_back(s.chance(3, 4) ? string(s.pick(w)) : g_ascii(s, 20, "abcdefghijklmnop_0123456789,;") + "w"); return o; }
struct Info { bool ok; vector<string> w[3]; string text() const { string o; for (auto& v : w) { for (auto& x : v) o += x + ","; o += "|"; } return o; } };
static Info lib_info(const nostr_event* e, int mask) { char** l[3]; size_t n[3]; for (int i = 0; i < 3; i++) { l[i] = (char**)1; n[i] = 77; } auto L = [&](int i) { return mask >> i & 1 ? &l[i] : nullptr; }; auto N = [&](int i) { return mask >> i & 1 ? &n[i] : nullptr; }; nostr_error_t r = nostr_nip47_parse_info_event(e, L(0), N(0), L(1), N(1), L(2), N(2)); Info o; o.ok = r == NOSTR_OK; if (o.ok) for (int i = 0; i < 3; i++) if (mask >> i & 1) { for (size_t k = 0; k < n[i]; k++) { o.w[i].push_back(l[i][k]); vf_free(l[i][k]); } vf_free(l[i]); } return o; }
PROP(P41, info, 3) {
  vector<string> w[3] = {g_words(s, s.chance(1, 12) ? 28 + s.below(80) : s.below(9)), g_words(s, s.chance(1, 20) ? 14 + s.below(70) : s.below(4)), g_words(s, s.chance(1, 20) ? 14 + s.below(60) : s.below(3))}; Ev e; e.pubkey = g_key(s).pub; e.kind = 13194; e.content = join_words(s, w[0]); bool has[2] = {s.chance(3, 4), s.chance(3, 4)}; vector<vector<string>> tags; if (has[0]) tags.push_back({"notifications", join_words(s, w[1])}); else w[1].clear(); if (has[1]) tags.push_back({"encryption", join_words(s, w[2])}); else w[2].clear(); static const char* d[] = {"Encryption", "notification", "encryptions", "t", "p"}; for (size_t i = s.below(3); i--;) tags.insert(tags.begin() + (int)s.below(tags.size() + 1), vector<string>{s.pick(d), "decoy"}); if (s.chance(1, 5)) tags.insert(tags.begin(), vector<string>{s.flip() ? "encryption" : "notifications"}); for (auto& t : tags) if (s.chance(1, 8) && t.size() > 1) t.push_back("more"); e.tags = tags; bool ok = true; if (s.chance(1, 8)) { do e.kind = (uint32_t)s.u64(2); while (e.kind == 13194); ok = false; } int mask = s.flip() ? 7 : (int)s.below(8);
  EvPtr x(lib_event(e)); if (e.content.empty() && s.flip()) { vf_free(x->content); x->content = nullptr; } c.nontrivial(ok ? "info event" : "other kind"); c.sample(vo::show(e.json_text(), 100)); Info r = lib_info(x.e, mask); CHECK(r.ok == ok, "parse_info_event(kind %u) -> %d", e.kind, r.ok); if (!ok) return; Info want{true, {}}; for (int i = 0; i < 3; i++) if (mask >> i & 1) want.w[i] = w[i]; CHECK(r.text() == want.text(), "read %s instead of %s of %s", r.text().c_str(), want.text().c_str(), vo::show(e.json_text(), 500).c_str());
}
PROP(P41, memory, 1) { Nwc w = g_nwc(s); string u = uri_of(s, w); if (s.chance(1, 4)) u += "&lud16=b"; CStr t(u); c.nontrivial("allocation failures"); c.sample("memory"); with_faults(s, "parse_connection_uri", [&] { struct nwc_connection* k = nullptr; nostr_error_t e = nostr_nip47_parse_connection_uri(t, &k); CHECK((e == NOSTR_OK) == (k != nullptr), "-> %d with %p", e, (void*)k); string o = k ? of_conn(k).text() : ""; if (k) nostr_nip47_free_connection(k); return std::make_pair(e == NOSTR_OK, o); }); Ev e; e.kind = 13194; e.pubkey = w.service; e.content = join_words(s, g_words(s, 3)); e.tags = {{"notifications", "a b"}, {"encryption", "nip44_v2 nip04"}}; EvPtr x(lib_event(e)); with_faults(s, "parse_info_event", [&] { Info r = lib_info(x.e, 7); return std::make_pair(r.ok, r.text()); }); }

// ---------------------------------------------------------------- P42
static JV g_json(Src& s, int depth = 0) { switch (s.below(depth > 2 ? 5 : 7)) { case 0: return jstr(g_text(s, 60)); case 1: return jint(s.range(-1000000, 1000000000LL)); case 2: return jbool(s.flip()); case 3: return jnull(); case 4: return jstr(g_hexid(s)); case 5: { vector<JV> a; for (size_t i = s.below(4); i--;) a.push_back(g_json(s, depth + 1)); return jarr(a); } default: { vector<std::pair<string, JV>> o; for (size_t i = s.below(4); i--;) o.push_back({g_text(s, 10) + std::to_string(i), g_json(s, depth + 1)}); return jobj(o); } } }
static bool same_json(const char* text, const JV& v) { JV j; return text && json_parse(text, &j) && json_compact(j) == json_compact(v); }
PROP(P42, request, 4) {
  Nwc w = g_nwc(s); Key sv = g_key(s), cl = g_key(s); w.service = sv.pub; w.secret = cl.priv; Conn k(uri_of(s, w, false)); CHECK(k.c, "connection"); string method = s.flip() ? g_words(s, 1)[0] : g_text(s, s.chance(1, 4) ? 600 : 30); JV v = jobj({{"a", g_json(s)}, {"b", s.chance(1, 3) ? jstr(string(s.size(30000), 'p')) : jint(5)}}); string ps = json_variant(v, s); bool ok = true; const char* what = ps.size() > 8000 ? "long request" : "request"; if (s.chance(1, 6)) { ok = false; what = "parameters are no JSON"; if (s.flip()) ps = ps.substr(0, ps.find_last_of('}')); else ps += s.flip() ? "x" : ",\"method\":\"pay_invoice\"}"; } else if (s.chance(1, 20)) { ps = json_compact(jobj({{"a", jstr(string(66000, 'x'))}})); ok = false; what = "too long"; }
  CStr m(method), p(ps); nostr_event* e = nullptr; nostr_error_t r = nostr_nip47_create_request_event(&e, k.c, m, p, 1); c.nontrivial(what); c.sample(vo::show(method, 40) + " " + vo::show(ps, 80)); CHECK((r == NOSTR_OK) == ok && ok == (e != nullptr), "%s: create_request_event -> %d with %p", what, r, (void*)e); if (!ok) return; Ev g = grab(e); string x, t; JV j; CHECK(g.kind == 23194 && g.pubkey == cl.pub && g.created_at == NOW && proper(g), "request %s", vo::show(g.json_text(), 300).c_str()); CHECK(g.tags == vector<vector<string>>({{"p", hex(sv.pub)}, {"encryption", "nip44_v2"}}), "tags of %s", vo::show(g.json_text(), 300).c_str()); CHECK(ecdh_x(sv.priv, cl.pub, &x) && open44(x, g.content, &t), "the wallet cannot open the request"); CHECK(json_parse(t, &j) && json_compact(j) == json_compact(jobj({{"method", jstr(method)}, {"params", v}})), "the request (%zu and %zu bytes) became %zu bytes: %s", method.size(), ps.size(), t.size(), vo::show(t, 300).c_str());
}
struct Reply { bool ok; string t[4]; nostr_error_t e; };   // absent: "-"
static Reply lib_reply(bool note, const nostr_event* e, const string& priv, int mask) { nostr_privkey k = lpriv(priv); char* o[4]; for (auto& p : o) p = (char*)1; auto O = [&](int i) { return mask >> i & 1 ? &o[i] : nullptr; }; Reply r; r.e = note ? nostr_nip47_parse_notification_event(e, &k, O(0), O(1)) : nostr_nip47_parse_response_event(e, &k, O(0), O(1), O(2), O(3)); r.ok = r.e == NOSTR_OK; for (int i = 0; i < 4; i++) { r.t[i] = "-"; if (r.ok && (mask >> i & 1) && (i < 2 || !note) && o[i]) { CHECK(o[i] != (char*)1, "output %d was not set", i); r.t[i] = string("=") + o[i]; vf_free(o[i]); } } return r; }
PROP(P42, reply, 6) {
  Key sv = g_key(s), cl = g_key(s), z = g_key(s); REQUIRE_CASE(z.pub != cl.pub && z.pub != sv.pub); bool note = s.chance(1, 3); string type = s.flip() ? g_words(s, 1)[0] : g_text(s, 40), code = g_text(s, 20), msg = g_text(s, 60); JV body = jobj({{"x", g_json(s)}}); if (s.chance(1, 5)) body = jobj({{"x", jstr(string(s.size(20000), 'r'))}}); vector<std::pair<string, JV>> m; string want[4] = {"-", "-", "-", "-"}; bool hb = false;
  if (s.chance(9, 10)) { m.push_back({note ? "notification_type" : "result_type", jstr(type)}); want[0] = "=" + type; } else if (s.flip()) m.push_back({note ? "notification_type" : "result_type", jint(3)}); if (s.chance(4, 5)) { m.push_back({note ? "notification" : "result", body}); hb = true; } if (!note) { if (s.chance(1, 3)) { vector<std::pair<string, JV>> er; if (s.chance(4, 5)) { er.push_back({"code", jstr(code)}); want[2] = "=" + code; } if (s.chance(4, 5)) { er.push_back({"message", jstr(msg)}); want[3] = "=" + msg; } m.push_back({"error", jobj(er)}); } else if (s.flip()) m.push_back({"error", jnull()}); }
  string t = json_variant(shuffled(s, m, {"Result", "RESULT_TYPE", "other", "Notification", "Error"}), s); bool ok = true; const char* what = note ? "notification" : "response"; string priv = cl.priv; uint32_t kind = note ? 23197 : 23195; int mode = s.chance(2, 3) ? 0 : 1 + (int)s.below(6); if (mode == 6) { JV jm = jobj(m); REQUIRE_CASE(put_nul(jm, s)); t = json_variant(jm, s); ok = false; what = "U+0000 in a text"; } if (mode == 1) { t = s.flip() ? "[" + t + "]" : s.flip() ? "3" : t.substr(0, t.find_last_of('}')); ok = false; what = "no object"; } if (mode == 2) { do kind = (uint32_t)s.u64(2); while (kind == 23195 || kind == 23196 || kind == 23197); ok = false; what = "other kind"; } if (mode == 3) { priv = z.priv; ok = false; what = "other key"; }
  Ev e = msg_of(s, sv, cl, kind, t.empty() ? "x" : t); if (!note) { if (s.flip()) e.tags.push_back({"e", g_hexid(s)}); if (s.chance(1, 3)) e.tags.push_back({"encryption", "nip44_v2"}); } if (s.chance(1, 6)) e.tags.clear(); for (size_t i = s.chance(1, 4) ? 1 + s.below(2) : 0; i--;) { static const char* nm[] = {"p", "P", "p", "e", "author", "pubkey", "service", "wallet", "delegation"}; e.tags.insert(e.tags.begin() + (int)s.below(e.tags.size() + 1), {s.pick(nm), hex(s.flip() ? z.pub : s.flip() ? cl.pub : sv.pub)}); } e.seal(sv.priv); if (mode == 4) { string p; unb64(e.content, &p); p[s.below(p.size())] ^= (char)(1 << s.below(8)); e.content = b64(p); ok = false; what = "damaged"; } if (mode == 5) { e.pubkey = z.pub; ok = false; what = "other author"; }
  int mask = s.chance(2, 3) ? 15 : (int)s.below(16); c.nontrivial(what); c.sample(vo::show(t, 100)); EvPtr x(lib_event(e)); Reply r = lib_reply(note, x.e, priv, mask); CHECK(r.ok == ok, "%s: -> %d\n  %s", what, r.e, vo::show(t, 400).c_str()); if (!ok) return; for (int i = 0; i < (note ? 2 : 4); i++) { if (!(mask >> i & 1)) continue; if (i == 1) CHECK(hb ? r.t[1] != "-" && same_json(r.t[1].c_str() + 1, body) : r.t[1] == "-", "%s: body %s of %s", what, vo::show(r.t[1], 300).c_str(), vo::show(t, 400).c_str()); else CHECK(r.t[i] == want[i], "%s: member %d is %s, not %s, of %s", what, i, vo::show(r.t[i]).c_str(), vo::show(want[i]).c_str(), vo::show(t, 400).c_str()); }
}
static uint64_t g_u64(Src& s) { switch (s.below(5)) { case 0: return 1 + s.below(100000); case 1: return s.u64(8); case 2: return (uint64_t)1 << s.below(64); case 3: return 2100000000000000000ull - s.below(1000); default: return 1 + s.raw(6); } }
static JV ju(uint64_t v) { return jraw(strf("%llu", (unsigned long long)v)); }
struct Made { bool ok; string t; nostr_error_t e; };
template <class F> static Made made(F f) { char* o = nullptr; nostr_error_t e = f(&o); CHECK((e == NOSTR_OK) == (o != nullptr), "-> %d with %p", e, (void*)o); Made m{e == NOSTR_OK, o ? o : "", e}; vf_free(o); return m; }
// one set of parameters: how to make it and what it must say
static Made g_params(Src& s, JV* want, string* name, const std::function<void(const std::function<Made()>&)>* faults = nullptr) {
  vector<std::pair<string, JV>> w; Made m; auto run = [&](std::function<Made()> f) { m = f(); if (faults) (*faults)(f); }; auto opt = [&](const char* k, const string& v, bool on) { if (on) w.push_back({k, jstr(v)}); return on; };
  switch (s.below(8)) {
    case 0: { *name = "pay_invoice"; string inv = g_text(s, s.chance(1, 3) ? 6000 : 100); uint64_t a = g_u64(s); bool ha = s.flip(); w.push_back({"invoice", jstr(inv)}); if (ha) w.push_back({"amount", ju(a)}); CStr ci(inv); run([&] { return made([&](char** o) { return nostr_nip47_create_pay_invoice_params(o, ci, ha ? &a : nullptr); }); }); break; }
    case 1: { bool b = s.flip(); *name = b ? "get_balance" : "get_info"; run([&] { return made([&](char** o) { return b ? nostr_nip47_create_get_balance_params(o) : nostr_nip47_create_get_info_params(o); }); }); break; }
    case 2: { *name = "make_invoice"; uint64_t a = g_u64(s); string d = g_text(s, s.chance(1, 3) ? 5000 : 60), h = g_hexid(s); uint32_t x = (uint32_t)s.u64(4); w.push_back({"amount", ju(a)}); bool hd = opt("description", d, s.flip()), hh = opt("description_hash", h, s.flip()), hx = s.flip(); if (hx) w.push_back({"expiry", ju(x)}); CStr cd(d), ch(h); REQUIRE_CASE(a); run([&] { return made([&](char** o) { return nostr_nip47_create_make_invoice_params(o, a, hd ? (const char*)cd : nullptr, hh ? (const char*)ch : nullptr, hx ? &x : nullptr); }); }); break; }
    case 3: { *name = "list_transactions"; time_t f = s.range(0, 1LL << 40), u = s.chance(1, 4) ? (time_t)(s.u64(8) >> 1) : s.range(0, 1LL << 33); uint32_t l = (uint32_t)s.u64(4), of = (uint32_t)s.u64(4); int un = (int)s.below(2); string ty = s.flip() ? "incoming" : g_text(s, 20); int mk = (int)s.below(64); if (mk & 1) w.push_back({"from", jraw(strf("%lld", (long long)f))}); if (mk & 2) w.push_back({"until", jraw(strf("%lld", (long long)u))}); if (mk & 4) w.push_back({"limit", ju(l)}); if (mk & 8) w.push_back({"offset", ju(of)}); if (mk & 16) w.push_back({"unpaid", jbool(un)}); if (mk & 32) w.push_back({"type", jstr(ty)}); CStr ct(ty); run([&] { return made([&](char** o) { return nostr_nip47_create_list_transactions_params(o, mk & 1 ? &f : nullptr, mk & 2 ? &u : nullptr, mk & 4 ? &l : nullptr, mk & 8 ? &of : nullptr, mk & 16 ? &un : nullptr, mk & 32 ? (const char*)ct : nullptr); }); }); break; }
    case 4: { *name = "lookup_invoice"; string h = g_hexid(s), i = g_text(s, 200); int mk = 1 + (int)s.below(3); opt("payment_hash", h, mk & 1); opt("invoice", i, mk & 2); CStr ch(h), ci(i); run([&] { return made([&](char** o) { return nostr_nip47_create_lookup_invoice_params(o, mk & 1 ? (const char*)ch : nullptr, mk & 2 ? (const char*)ci : nullptr); }); }); break; }
    case 5: case 6: { *name = "pay_keysend"; uint64_t a = g_u64(s); REQUIRE_CASE(a); string pk = g_hexid(s), pre = g_text(s, 70); w.push_back({"amount", ju(a)}); w.push_back({"pubkey", jstr(pk)}); bool hp = opt("preimage", pre, s.flip()); vector<string> ts; vector<JV> ta; for (size_t i = s.chance(1, 10) ? 28 + s.below(110) : s.below(5); i--;) { uint64_t ty = s.flip() ? 7629169 + s.below(100) : g_u64(s); string v = g_text(s, 40); ts.push_back(strf("%llu", (unsigned long long)ty)); ts.push_back(v); ta.push_back(jobj({{"type", ju(ty)}, {"value", jstr(v)}})); } if (!ta.empty()) w.push_back({"tlv_records", jarr(ta)}); vector<const char*> tp; for (auto& t : ts) tp.push_back(t.c_str()); CStr cp(pk), cr(pre); run([&] { return made([&](char** o) { return nostr_nip47_create_pay_keysend_params(o, a, cp, hp ? (const char*)cr : nullptr, tp.empty() ? nullptr : tp.data(), tp.size()); }); }); break; }
    default: { *name = "multi_pay_invoice"; size_t n = s.chance(1, 15) ? 14 + s.below(60) : 1 + s.below(6); vector<string> ids, inv; vector<uint64_t> am; vector<JV> a; bool hi = s.chance(3, 4), ha = s.chance(3, 4); vector<const char*> ip, vp; for (size_t i = 0; i < n; i++) { ids.push_back(g_text(s, 20)); inv.push_back(g_text(s, s.chance(1, 4) ? 3000 : 60)); am.push_back(s.chance(1, 4) ? 0 : g_u64(s)); } for (size_t i = 0; i < n; i++) { bool h = hi && s.chance(5, 6); ip.push_back(h ? ids[i].c_str() : nullptr); vp.push_back(inv[i].c_str()); vector<std::pair<string, JV>> o; if (h) o.push_back({"id", jstr(ids[i])}); o.push_back({"invoice", jstr(inv[i])}); if (ha && am[i]) o.push_back({"amount", ju(am[i])}); a.push_back(jobj(o)); } w.push_back({"invoices", jarr(a)}); run([&] { return made([&](char** o) { return nostr_nip47_create_multi_pay_invoice_params(o, hi ? ip.data() : nullptr, vp.data(), ha ? am.data() : nullptr, n); }); }); break; }
  }
  *want = jobj(w); return m;
}
PROP(P42, params, 5) { JV w; string n; Made m = g_params(s, &w, &n); c.nontrivial(n.c_str()); c.sample(n + " " + vo::show(m.t, 100)); CHECK(m.ok, "%s -> %d", n.c_str(), m.e); JV j; CHECK(json_parse(m.t, &j), "%s: no JSON: %s", n.c_str(), vo::show(m.t, 300).c_str()); auto sorted = [](JV v) { std::function<void(JV&)> f = [&](JV& x) { for (auto& a : x.a) f(a); for (auto& a : x.o) f(a.second); std::stable_sort(x.o.begin(), x.o.end(), [](auto& p, auto& q) { return p.first < q.first; }); }; f(v); return json_compact(v); }; CHECK(sorted(j) == sorted(w), "%s: %s instead of %s", n.c_str(), vo::show(m.t, 500).c_str(), vo::show(json_compact(w), 500).c_str()); }
PROP(P42, results, 4) {
  int what = (int)s.below(3); c.nontrivial(what == 0 ? "balance" : what == 1 ? "payment" : "info"); uint64_t big = s.chance(1, 3) ? (1ull << 53) - s.below(3) : s.below(1ull << (1 + s.below(53))); static const char* odd[] = {"-1", "-5e3", "1e20", "18446744073709551616", "1e400", "\"5\"", "null", "true", "[5]"};
  if (what == 0) { int mode = (int)s.below(4); string num = mode == 1 ? string(s.pick(odd)) : std::to_string(big); JV v; json_parse(num, &v); auto o = shuffled(s, mode == 2 ? vector<std::pair<string, JV>>{} : vector<std::pair<string, JV>>{{"balance", v}}, {"Balance", "BALANCE", "fees"}); string t = json_variant(o, s); if (mode == 3) t = t.substr(0, t.find_last_of('}')); if (mode == 3 && s.flip()) t = "[" + t; CStr ct(t); uint64_t b = 42; nostr_error_t e = nostr_nip47_parse_balance_response(ct, &b); c.sample(vo::show(t, 80)); CHECK((e == NOSTR_OK) == (mode == 0), "balance of %s -> %d, %llu", vo::show(t).c_str(), e, (unsigned long long)b); if (mode == 0) CHECK(b == big, "balance %llu of %s", (unsigned long long)b, vo::show(t).c_str()); return; }
  if (what == 1) { string pre = g_hexid(s); vector<std::pair<string, JV>> m; bool hp = s.chance(4, 5), hf = s.flip(); string of = s.chance(1, 4) ? string(s.pick(odd)) : ""; if (hp) m.push_back({"preimage", jstr(pre)}); JV v; if (hf) { json_parse(of.empty() ? std::to_string(big) : of, &v); m.push_back({"fees_paid", v}); } string t = json_variant(shuffled(s, m, {"Preimage", "fees", "FEES_PAID"}), s); CStr ct(t); char* p = (char*)1; uint64_t f = 99; int mk = (int)s.below(4); nostr_error_t e = nostr_nip47_parse_pay_invoice_response(ct, mk & 1 ? nullptr : &p, mk & 2 ? nullptr : &f); c.sample(vo::show(t, 80)); CHECK(e == NOSTR_OK, "payment %s -> %d", vo::show(t).c_str(), e); if (!(mk & 1)) { CHECK(hp ? p && pre == p : !p, "preimage of %s", vo::show(t).c_str()); vf_free(p); } if (!(mk & 2)) CHECK(f == (hf && of.empty() ? big : 0), "fees %llu of %s", (unsigned long long)f, vo::show(t).c_str()); return; }
  const char* names[4] = {"alias", "color", "pubkey", "network"}; string vals[4]; bool has[4]; vector<std::pair<string, JV>> m; for (int i = 0; i < 4; i++) { vals[i] = g_text(s, 40); has[i] = s.chance(4, 5); if (has[i]) m.push_back({names[i], jstr(vals[i])}); else if (s.chance(1, 3)) m.push_back({names[i], jint(4)}); } uint32_t h = (uint32_t)s.u64(4); bool hh = s.flip(); string oh = s.chance(1, 5) ? string(s.flip() ? "4294967296" : s.pick(odd)) : ""; JV hv; json_parse(oh.empty() ? std::to_string(h) : oh, &hv); if (hh) m.push_back({"block_height", hv}); vector<string> ms = g_words(s, s.chance(1, 15) ? 14 + s.below(60) : s.below(5)); vector<JV> ma; for (auto& x : ms) { if (s.chance(1, 8)) ma.push_back(g_json(s, 9).t == JV::Str ? jint(1) : jnull()); ma.push_back(jstr(x)); } bool hm = s.chance(5, 6); if (hm) m.push_back({"methods", jarr(ma)}); else ms.clear(); string t = json_variant(shuffled(s, m, {"Alias", "notifications", "METHODS", "Network"}), s); CStr ct(t);
  char* o[4] = {(char*)1, (char*)1, (char*)1, (char*)1}; uint32_t bh = 7; char** me = (char**)1; size_t mc = 9; int mk = s.flip() ? 63 : (int)s.below(64); auto O = [&](int i) { return mk >> i & 1 ? &o[i] : nullptr; }; nostr_error_t e = nostr_nip47_parse_info_response(ct, O(0), O(1), O(2), O(3), mk & 16 ? &bh : nullptr, mk & 32 ? &me : nullptr, mk & 32 ? &mc : nullptr); c.sample(vo::show(t, 80)); CHECK(e == NOSTR_OK, "info -> %d of %s", e, vo::show(t, 300).c_str()); for (int i = 0; i < 4; i++) { if (!(mk >> i & 1)) continue; CHECK(has[i] ? o[i] && vals[i] == o[i] : !o[i], "%s of %s", names[i], vo::show(t, 300).c_str()); vf_free(o[i]); } if (mk & 16) CHECK(bh == (hh && oh.empty() ? h : 0), "block height %u of %s", bh, vo::show(t, 300).c_str()); if (!(mk & 32)) return; CHECK(mc == ms.size(), "%zu methods of %s", mc, vo::show(t, 300).c_str()); for (size_t i = 0; i < mc; i++) { CHECK(ms[i] == me[i], "method %zu of %s", i, vo::show(t, 300).c_str()); vf_free(me[i]); } if (me != (char**)1) vf_free(me);
}
// a text with U+0000 cannot be handed out as a C string: no reader gives a part of it
PROP(P42, nul_in_a_string, 1) {
  bool info = s.flip(); JV o = info ? jobj({{"alias", jstr(g_text(s, 9))}, {"network", jstr("mainnet")}, {"methods", jarr({jstr("pay_invoice"), jstr("get_info")})}}) : jobj({{"preimage", jstr(g_hexid(s))}}); put_nul(o, s); string t = json_variant(o, s); CStr ct(t); heap_reset(); c.nontrivial(info ? "info" : "payment"); c.sample(vo::show(t, 80)); nostr_error_t e;
  if (info) { char* q[4] = {}; uint32_t bh; char** me = nullptr; size_t mc = 0; e = nostr_nip47_parse_info_response(ct, &q[0], &q[1], &q[2], &q[3], &bh, &me, &mc); } else { char* p = nullptr; e = nostr_nip47_parse_pay_invoice_response(ct, &p, nullptr); }
  CHECK(e != NOSTR_OK, "%s was read", vo::show(t, 300).c_str()); CHECK(heap_live() == 0, "a refused reply left memory");
}
// a record type that is no number between 0 and 2^64-1 is never sent as another one
PROP(P42, no_number, 1) {
  static const char* bad[] = {"", "-1", "-5", "+5", " 5", "5 ", "0x10", "5x", "1e3", "1.5", "18446744073709551616", "99999999999999999999", "36893488147419103232", "-18446744073709551615", "x", "\t7"}; size_t n = 1 + s.below(3), at = s.below(n); vector<string> ts; for (size_t i = 0; i < n; i++) { ts.push_back(i == at ? string(s.pick(bad)) : strf("%u", (unsigned)s.below(100000))); ts.push_back(g_text(s, 10)); } vector<const char*> tp; for (auto& x : ts) tp.push_back(x.c_str());
  c.nontrivial("type that is no number"); c.sample(ts[at * 2]); heap_reset(); string pk = g_hexid(s); CStr cp(pk); Made m = made([&](char** o) { return nostr_nip47_create_pay_keysend_params(o, 1 + s.below(1000), cp, nullptr, tp.data(), tp.size()); }); CHECK(!m.ok, "record type \"%s\" became %s", ts[at * 2].c_str(), m.t.c_str()); CHECK(heap_live() == 0, "a refused record left memory");
}
PROP(P42, memory, 2) {
  c.nontrivial("allocation failures"); int what = (int)s.below(4); c.sample(what == 0 ? "params" : what == 1 ? "request" : what == 2 ? "reply" : "results"); Key sv = g_key(s), cl = g_key(s);
  if (what == 0) { JV w; string n; std::function<void(const std::function<Made()>&)> f = [&](const std::function<Made()>& g) { with_faults(s, n.c_str(), [&] { Made m = g(); return std::make_pair(m.ok, m.t); }); }; g_params(s, &w, &n, &f); }
  if (what == 1) { Nwc w = g_nwc(s); w.service = sv.pub; w.secret = cl.priv; Conn k(uri_of(s, w, false)); string x; ecdh_x(sv.priv, cl.pub, &x); with_faults(s, "create_request_event", [&] { nostr_event* e = nullptr; nostr_error_t r = nostr_nip47_create_request_event(&e, k.c, "pay_invoice", "{\"a\":[1,2,{}]}", 1); CHECK((r == NOSTR_OK) == (e != nullptr), "-> %d with %p", r, (void*)e); string t; if (e) { Ev g = grab(e); CHECK(proper(g) && g.tags.size() == 2 && open44(x, g.content, &t), "request %s", g.json_text().c_str()); } return std::make_pair(e != nullptr, t); }); }
  if (what == 2) { bool note = s.flip(); string t = note ? "{\"notification_type\":\"t\",\"notification\":{\"a\":1}}" : "{\"result_type\":\"t\",\"result\":{\"a\":1},\"error\":{\"code\":\"c\",\"message\":\"m\"}}"; Ev e = msg_of(s, sv, cl, note ? 23197 : 23195, t); EvPtr x(lib_event(e)); with_faults(s, note ? "notification" : "response", [&] { Reply r = lib_reply(note, x.e, cl.priv, 15); return std::make_pair(r.ok, r.t[0] + r.t[1] + r.t[2] + r.t[3]); }); }
  if (what == 3) { with_faults(s, "pay_invoice_response", [&] { char* p = nullptr; uint64_t f; bool ok = nostr_nip47_parse_pay_invoice_response("{\"preimage\":\"aa\",\"fees_paid\":4}", &p, &f) == NOSTR_OK; string o = ok && p ? p : "none"; vf_free(p); return std::make_pair(ok, o); }); with_faults(s, "info_response", [&] { char* o[4]; uint32_t h; char** m; size_t n; bool ok = nostr_nip47_parse_info_response("{\"alias\":\"a\",\"color\":\"c\",\"pubkey\":\"p\",\"network\":\"n\",\"methods\":[\"x\",5,\"y\"]}", &o[0], &o[1], &o[2], &o[3], &h, &m, &n) == NOSTR_OK; string t; if (ok) { for (auto p : o) { t += p ? p : "none"; vf_free(p); } for (size_t i = 0; i < n; i++) { t += m[i]; vf_free(m[i]); } vf_free(m); } return std::make_pair(ok, t); }); }
}

// ---------------------------------------------------------------- P43 sessions of wallets
struct Perm { string name; uint64_t limit, used; uint32_t every; int64_t reset; };
struct Sess { string id; Nwc w; int64_t until; vector<Perm> ps; bool ended = false; };
static nostr_config session_conf(uint32_t n, uint32_t secs, uint32_t perms) { nostr_config k; nostr_config_get_defaults(&k); k.max_sessions = n; k.session_timeout_secs = secs; k.max_permissions = perms; return k; }
static uint64_t g_msats(Src& s) { return s.weighted({5, 3, 1}) == 0 ? s.below(2000) : s.flip() ? s.below(3) * 1000 : s.u64(); }
PROP(P43, history, 6) {
  uint32_t slots = 1 + (uint32_t)s.below(s.chance(1, 3) ? 14 : 4), secs = 60 + (uint32_t)s.below(100), perms = 1 + (uint32_t)s.below(5); struct Step { int op; size_t who, n, m; uint64_t a, b; string t; Nwc w; string u; }; vector<Step> st; bool focus = s.chance(1, 3); static const char* ms[] = {"pay_invoice", "get_balance", "*", "pay", "make_invoice", "PAY_INVOICE", "", "multi_pay_invoice", "multi_pay_invoices"};
  for (size_t i = 3 + s.below(40); i--;) { Step x; x.op = (int)s.weighted({6, 7, 12, 4, 2, 3, 5, 1, 2, 2, 1}); x.who = focus && s.chance(5, 6) ? 0 : (size_t)s.below(1000); x.n = s.below(s.chance(1, 6) ? 14 : 2); x.m = s.below(100); x.a = g_msats(s); x.b = g_msats(s); x.t = s.chance(1, 10) ? g_text(s, 20) : string(ms[s.weighted({8, 3, 2, 1, 1, 1, 1, 1, 1})]); if (x.op == 0 || x.op == 7) { x.w = g_nwc(s); x.w.relays.resize(1); x.u = uri_of(s, x.w, false); } st.push_back(x); }
  if (focus && s.flip()) {   // a session that is filled, spent from, allowed more permissions, and spent from again
    string ops = "c" + string(perms, 'p') + string(1 + s.below(4), 'k') + "b" + string(1 + s.below(3), 'p') + string(2 + s.below(8), 'k'); if (s.chance(1, 3)) ops += "b" + string(1 + s.below(4), 'p') + string(4, 'k'); vector<Step> pre; size_t own = 0;
    for (char o : ops) { Step x; x.op = o == 'c' ? 0 : o == 'p' ? 1 : o == 'k' ? 2 : 9; x.who = 0; x.n = 0; x.m = s.below(100); if (o == 'k') x.m = s.below(14) * 7 + s.below(3) % 2 * 2; x.a = 1 + s.below(2000); x.b = o == 'b' ? 8 - s.below(3) : o == 'p' ? 4000 : s.below(1500); x.t = o == 'p' && s.flip() ? strf("m%zu", own++) : string(ms[s.weighted({8, 3, 1, 1, 1, 1, 0, 1, 1})]); if (o == 'c') { x.w = g_nwc(s); x.w.relays.resize(1); x.u = uri_of(s, x.w, false); } pre.push_back(x); }
    st.insert(st.begin(), pre.begin(), pre.end());
  }
  uint64_t rs = s.raw(4); c.nontrivial("history"); string sm; for (auto& x : st) sm += strf("%c", "cpkgxdtirub"[x.op]); c.sample(strf("slots %u perms %u ", slots, perms) + sm);
  forked([&] {
    nostr_config k = session_conf(slots, secs, perms); CHECK(nostr_init_with_config(&k) == NOSTR_OK, "init"); if (rs & 1) CHECK(nostr_nip47_session_init() == NOSTR_OK, "session_init"); rand_mode = 1; rand_seed(rs); clock_virtual = true; clock_now = NOW; vector<Sess> ss; std::map<int64_t, std::pair<int, int>> made; string log;
    auto live = [&](const Sess& x) { return !x.ended && x.until >= clock_now; }; auto avoid = [&] { for (bool again = true; again;) { again = false; for (auto& x : ss) { if (!x.ended && x.until == clock_now) again = true; for (auto& p : x.ps) if (!x.ended && p.reset == clock_now) again = true; } if (again) clock_now++; } };
    for (size_t i = 0; i < st.size(); i++) {
      Step& x = st[i]; Sess* o = ss.empty() ? nullptr : &ss[x.who % ss.size()]; log += strf("\n  +%lld: op %d", (long long)(clock_now - NOW), x.op);
      switch (x.op) {
        case 0: for (size_t j = 0; j <= x.n; j++) {   // create
          CStr t(x.u); size_t busy = 0; for (auto& y : ss) busy += live(y); auto& md = made[clock_now]; char* id = (char*)1; nostr_error_t e = nostr_nip47_session_create(t, &id); log += strf(" create -> %d", e);
          bool free_slot = busy < slots; if (!free_slot || md.second >= 10) CHECK(e != NOSTR_OK, "%s created with %zu of %u sessions, %d made in this second%s", e == NOSTR_OK ? "one more" : "", busy, slots, md.second, log.c_str()); else if (md.first < 10) CHECK(e == NOSTR_OK, "session_create -> %d with %zu of %u sessions, %d tried in this second%s", e, busy, slots, md.first, log.c_str()); md.first++; if (e != NOSTR_OK) break; md.second++;
          CHECK(id && strlen(id) == 64 && string(id).find_first_not_of("0123456789abcdef") == string::npos, "session id"); for (auto& y : ss) CHECK(y.id != id, "a session id twice"); ss.push_back({id, x.w, clock_now + (int64_t)secs, {}, false}); vf_free(id); o = nullptr; } break;
        case 1: if (!o || (!live(*o) && !o->ended)) break; { CStr id(o->id), t(x.t); uint32_t every = 1 + (uint32_t)(x.b % 5000); nostr_error_t e = nostr_nip47_session_add_permission(id, t, x.a, every); bool ok = live(*o) && o->ps.size() < perms; log += strf(" %zu add %s limit %llu every %u -> %d", x.who % ss.size(), vo::show(x.t).c_str(), (unsigned long long)x.a, every, e); CHECK((e == NOSTR_OK) == ok, "add_permission -> %d with %zu of %u permissions, %s%s", e, o->ps.size(), perms, o->ended ? "ended" : "live", log.c_str()); if (ok) o->ps.push_back({x.t, x.a, 0, every, clock_now + every}); avoid(); } break;
        case 2: if (!o) break; for (size_t j = 0; j <= x.n % 4; j++) {   // spend: also a second and third time
          avoid(); bool known = false, ok = false; Perm* p = nullptr; string m = x.t; if (!o->ps.empty() && x.m % 3) m = o->ps[x.m % o->ps.size()].name; if (m == "*" && x.m % 2) m = "pay_keysend"; for (auto& q : o->ps) if (q.name == m || q.name == "*") { p = &q; known = true; break; } uint64_t a = x.m % 7 == 0 && p && p->limit ? p->limit - p->used + x.m % 2 : x.m % 7 == 1 && p ? (uint64_t)0 - p->used - x.b % 3 : x.b;
          if (live(*o) && known) { if (p->reset < clock_now) { p->used = 0; p->reset = clock_now + p->every; } ok = p->limit == 0 || (a <= p->limit && p->used <= p->limit - a); } CStr id(o->id), t(m); nostr_error_t e = nostr_nip47_session_check_permission(id, t, a); log += strf(" %zu check %s of %llu -> %d", x.who % ss.size(), vo::show(m).c_str(), (unsigned long long)a, e);
          CHECK((e == NOSTR_OK) == ok, "check_permission(%s, %llu) -> %d; %s, %s%s%s", vo::show(m).c_str(), (unsigned long long)a, e, o->ended ? "ended" : live(*o) ? "live" : "expired", known ? "" : "no such permission", p ? strf("limit %llu, used %llu", (unsigned long long)p->limit, (unsigned long long)p->used).c_str() : "", log.c_str()); if (ok && p->limit) p->used += a; } break;
        case 3: if (!o) break; { CStr id(o->id); struct nwc_connection* w = nullptr; nostr_error_t e = nostr_nip47_session_get_connection(id, &w); CHECK((e == NOSTR_OK) == live(*o), "get_connection -> %d of a session %s%s", e, o->ended ? "ended" : live(*o) ? "live" : "expired", log.c_str()); if (e == NOSTR_OK) { CHECK(w != nullptr, "no connection"); string g = of_conn(w).text(), h = o->w.text(); CHECK(g == h, "the connection of another session: %s instead of %s%s", vo::show(g).c_str(), vo::show(h).c_str(), log.c_str()); } } break;
        case 4: if (!o || (!live(*o) && !o->ended)) break; { CStr id(o->id); uint32_t more = x.m % 5 == 0 ? (uint32_t)x.b : (uint32_t)x.m; nostr_error_t e = nostr_nip47_session_extend(id, more); log += strf(" %zu extend %u -> %d", x.who % ss.size(), more, e); CHECK((e == NOSTR_OK) == live(*o), "extend -> %d%s", e, log.c_str()); if (live(*o)) o->until += more; avoid(); } break;
        case 5: if (!o || (!live(*o) && !o->ended)) break; { CStr id(o->id); nostr_error_t e = nostr_nip47_session_destroy(id); log += strf(" %zu destroy -> %d", x.who % ss.size(), e); CHECK((e == NOSTR_OK) == !o->ended, "destroy -> %d%s", e, log.c_str()); o->ended = true; } break;
        case 6: if (o && x.m % 4 == 0 && live(*o) && o->until > clock_now + 1 && o->until < NOW + (1LL << 40)) clock_now = o->until + (x.b % 2 ? 1 : -1); else if (o && x.m % 4 == 1 && !o->ps.empty() && o->ps[x.b % o->ps.size()].reset > clock_now + 1) clock_now = o->ps[x.b % o->ps.size()].reset + (x.b % 3 ? 1 : -1); else clock_now += x.m < 30 ? 1 : x.m < 80 ? (int64_t)x.m : (int64_t)(x.b % 6000); avoid(); break;
        case 7: { string u = "nostr+walletconnect://" + hex(x.w.service) + "?relay=wss%3A%2F%2Fr&secret=00"; CStr t(u); char* id = nullptr; CHECK(nostr_nip47_session_create(t, &id) != NOSTR_OK, "created from %s", u.c_str()); } break;
        case 8: {   // ids that are none
          string id = o ? o->id : string(64, 'a'); switch (x.m % 6) { case 0: id.resize(x.b % 64); break; case 1: id += 'a'; break; case 2: id[x.b % 64] = id[x.b % 64] == '0' ? '1' : '0'; break; case 3: id = ""; break; case 4: id = string(64, 0); break; case 5: id += id; break; } CStr i2(id), m(o && !o->ps.empty() ? o->ps[0].name : string("*")); struct nwc_connection* w; CHECK(nostr_nip47_session_check_permission(i2, m, 0) != NOSTR_OK && nostr_nip47_session_get_connection(i2, &w) != NOSTR_OK && nostr_nip47_session_add_permission(i2, m, 1, 5) != NOSTR_OK && nostr_nip47_session_extend(i2, 60) != NOSTR_OK && nostr_nip47_session_destroy(i2) != NOSTR_OK, "the id %s is taken for %s", vo::show(id).c_str(), o ? o->id.c_str() : "none"); } break;
        case 9: { secs = 60 + (uint32_t)(x.m % 100); perms = 1 + (uint32_t)(x.b % 9); nostr_config n = session_conf(slots, secs, perms); log += strf(" permissions %u", perms); CHECK(nostr_config_update(&n) == NOSTR_OK, "update"); } break;
        case 10: { rand_mode = 2; rand_fail_after = 0; string u = "nostr+walletconnect://" + string(64, 'a') + "?relay=wss%3A%2F%2Fr&secret=" + string(64, '1'); CStr t(u); char* id = nullptr; nostr_error_t e = nostr_nip47_session_create(t, &id); made[clock_now].first++; rand_mode = 1; CHECK(e != NOSTR_OK, "a session without randomness"); } break;
      }
    }
    // nothing is left of ended sessions
    for (auto& x : ss) if (live(x)) { CStr id(x.id); CHECK(nostr_nip47_session_destroy(id) == NOSTR_OK, "destroy at the end"); }
  });
}
PROP(P43, memory, 1) {
  Nwc w = g_nwc(s); string u = uri_of(s, w); CStr t(u); vector<std::pair<string, uint64_t>> ps; for (size_t i = 1 + s.below(4); i--;) ps.push_back({g_text(s, 20), s.below(1000)}); uint32_t slots = 1 + (uint32_t)s.below(3); c.nontrivial("allocation failures"); c.sample("memory");
  Src* sp = &s; forked([&, sp] {
    nostr_config k = session_conf(slots, 60, 3); CHECK(nostr_init_with_config(&k) == NOSTR_OK && nostr_nip47_session_init() == NOSTR_OK, "init"); clock_virtual = true; clock_now = NOW;
    with_faults(*sp, "session_create", [&] { clock_now += 1; char* id = nullptr; nostr_error_t e = nostr_nip47_session_create(t, &id); string o; if (e == NOSTR_OK) { CHECK(id && strlen(id) == 64, "a session without an id"); o = id; struct nwc_connection* x = nullptr; CHECK(nostr_nip47_session_get_connection(id, &x) == NOSTR_OK && x, "no connection"); o += of_conn(x).text(); CHECK(nostr_nip47_session_destroy(id) == NOSTR_OK, "destroy"); vf_free(id); } return std::make_pair(e == NOSTR_OK, o); });
    with_faults(*sp, "add_permission", [&] { clock_now += 1; string id; { char* i = nullptr; if (nostr_nip47_session_create(t, &i) != NOSTR_OK) return std::make_pair(false, string()); id = i; vf_free(i); } bool all = true; size_t n = 0; vector<bool> has; for (auto& p : ps) { bool ok = nostr_nip47_session_add_permission(id.c_str(), p.first.c_str(), p.second, 1000) == NOSTR_OK; has.push_back(ok); if (!ok && n < 3) all = false; n += ok; } string o; for (size_t i = 0; i < ps.size(); i++) { bool want = false; uint64_t lim = 0; for (size_t j = 0; j < ps.size(); j++) if (has[j] && (ps[j].first == ps[i].first || ps[j].first == "*")) { want = true; lim = ps[j].second; break; } bool got = nostr_nip47_session_check_permission(id.c_str(), ps[i].first.c_str(), 0) == NOSTR_OK; CHECK(got == want, "permission %s: %d", vo::show(ps[i].first).c_str(), got); if (want && lim) CHECK(nostr_nip47_session_check_permission(id.c_str(), ps[i].first.c_str(), lim + 1) != NOSTR_OK, "limit %llu", (unsigned long long)lim); } CHECK(nostr_nip47_session_destroy(id.c_str()) == NOSTR_OK, "destroy"); return std::make_pair(all, string(strf("%zu", n))); });
    clock_now += 5; for (uint32_t i = 0; i < slots; i++) { char* id = nullptr; CHECK(nostr_nip47_session_create(t, &id) == NOSTR_OK, "session %u of %u refused after failures", i + 1, slots); }
  });
}
PROP(P43, init_memory, 1) {
  Nwc w = g_nwc(s); string u = uri_of(s, w); CStr t(u); bool sticky = s.flip(); long at = (long)s.below(4); c.nontrivial("initialisation fails"); c.sample("init memory");
  forked([&] { nostr_config k = session_conf(3, 60, 3); CHECK(nostr_init_with_config(&k) == NOSTR_OK, "init"); clock_virtual = true; clock_now = NOW; heap_reset(); if (sticky) heap_fail_from(at); else heap_fail_at(at); char* id = nullptr; nostr_error_t e = nostr_nip47_session_create(t, &id); bool f = heap_fault_fired(); heap_fail_at(-1); CHECK(f ? true : e == NOSTR_OK, "create -> %d", e); CHECK(nostr_nip47_session_check_permission(string(64, 'a').c_str(), "x", 1) != NOSTR_OK && nostr_nip47_session_destroy(string(64, 'b').c_str()) != NOSTR_OK, "unknown id"); int n = e == NOSTR_OK; for (int i = 0; i < 4; i++) { char* j = nullptr; n += nostr_nip47_session_create(t, &j) == NOSTR_OK; } CHECK(n == 3, "%d of 3 sessions after a failure", n); });
}
