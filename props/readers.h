// Readers and operations shared by P31, P32 and P35: everything the library can tell about a text or an event, as text.
#pragma once
#include "oracle.h"
#include <algorithm>
#include <climits>
extern "C" void vf_free(void*);
using namespace vf; using namespace vo;

struct Dig { string s; void n(const char* k, long long v) { s += strf("%s=%lld;", k, v); } void t(const char* k, const string& v) { s += k; s += "=" + strf("%zu:", v.size()) + v + ";"; } void z(const char* k, const char* v) { if (v) t(k, v); else s += strf("%s=null;", k); } void b(const char* k, const void* p, size_t l) { t(k, hex(p, l)); } };
static void read_filter(Dig& d, const nostr_filter_t* f, const nostr_event* probe) {
  size_t n; const char** a;
#define LST(NAME, CALL) n = 77; a = (const char**)(CALL); d.n(NAME, (long long)n); for (size_t i = 0; i < n && i < 5000; i++) d.z("v", a[i]);
  LST("ids", nostr_filter_get_ids(f, &n)) LST("authors", nostr_filter_get_authors(f, &n)) LST("e", nostr_filter_get_e_tags(f, &n)) LST("p", nostr_filter_get_p_tags(f, &n))
  for (const char* q = "atdr"; *q; q++) { LST("tag", nostr_filter_get_tag_values(f, *q, &n)) }
  const int32_t* k = nostr_filter_get_kinds(f, &n); d.n("kinds", (long long)n); for (size_t i = 0; i < n; i++) d.n("k", k[i]); d.n("since", nostr_filter_get_since(f)); d.n("until", nostr_filter_get_until(f)); d.n("limit", nostr_filter_get_limit(f)); d.z("search", nostr_filter_get_search(f)); d.n("has", nostr_filter_has_search(f) + 2 * nostr_filter_has_tag_filters(f));
  d.n("match", nostr_filter_matches(f, probe)); nostr_validation_result_t r; memset(&r, 0, sizeof r); d.n("valid", nostr_filter_validate(f, &r)); d.t("msg", string(r.error_message, strnlen(r.error_message, sizeof r.error_message))); char mb[40]; d.n("fmt", (long long)nostr_validation_error_format(&r, mb, sizeof mb)); nostr_filter_t c; memset(&c, 0, sizeof c); d.n("clone", nostr_filter_clone(&c, f)); d.n("clonematch", nostr_filter_matches(&c, probe)); nostr_filter_free(&c);
}
static void read_event(Dig& d, const nostr_event* e, size_t bs, int depth);
static void read_relays(Dig& d, char** r, size_t n) { d.n("relays", (long long)n); for (size_t i = 0; i < n; i++) d.z("r", r[i]); }
static void outbuf(Dig& d, const char* k, bool ok, const CBuf& b) { if (ok) { size_t n = strnlen(b.p, b.n); CHECK(n < b.n || !b.n, "%s: output is not terminated", k); d.t(k, string(b.p, n)); } }
static void read_list(Dig& d, const nostr_list* l) { d.n("list", l->kind); d.z("d", l->d_tag); d.z("t", l->title); d.z("ds", l->description); d.z("im", l->image); for (size_t i = 0; i < nostr_list_count(l); i++) { const nostr_list_item* it = nostr_list_get(l, i); d.z("ty", it->tag_type); d.z("v", it->value); d.z("h", it->relay_hint); d.z("p", it->petname); d.n("pr", it->is_private); } }
static void read_event(Dig& d, const nostr_event* e, size_t bs, int depth) {
  d.t("ev", show(from_lib(e))); char idh[65], pkh[65]; nostr_event_get_id_hex(e, idh); nostr_event_get_pubkey_hex(e, pkh); d.z("id", idh); d.z("pk", pkh); d.n("verify", nostr_event_verify(e));
  char* j = nullptr; nostr_error_t r = nostr_event_to_json(e, &j); d.n("json", r); if (r == NOSTR_OK) { d.z("j", j); if (depth < 1) { nostr_event* e2 = nullptr; d.n("again", nostr_event_from_json(j, &e2)); if (e2) nostr_event_destroy(e2); } nostr_free(j); }
  { CBuf b(bs); size_t n = 0; nostr_relay_error_t q = nostr_event_serialize(e, b.p, bs, &n); d.n("ser", q); if (q == NOSTR_RELAY_OK) d.t("s", string(b.p, n)); q = nostr_event_serialize_canonical(e, b.p, bs, &n); d.n("can", q); if (q == NOSTR_RELAY_OK) d.t("c", string(b.p, n)); }
  { nostr_validation_result_t v; memset(&v, 0, sizeof v); d.n("full", nostr_event_validate_full(e, 900, &v)); d.n("ec", v.error_code); char mb[50]; nostr_validation_error_format(&v, mb, sizeof mb); d.z("mb", mb); }
  d.n("cmp", nostr_event_compare_replaceable(e, e) * 10 + nostr_event_compare_addressable(e, e)); d.z("dt", nostr_event_get_d_tag(e)); d.z("ev", nostr_event_get_tag_value(e, "e")); const char* vs[7]; size_t n = nostr_event_get_tag_values(e, "p", vs, 7); d.n("vals", (long long)n); for (size_t i = 0; i < std::min<size_t>(n, 7); i++) d.z("v", vs[i]);
  for (size_t i = 0; i <= nostr_event_get_tag_count(e); i++) { size_t m = 99; const char** a = nostr_event_get_tag_at(e, i, &m); d.n("tag", a ? (long long)m : -1); const nostr_tag* t = nostr_event_get_tag(e, i); d.z("n", nostr_tag_get_name(t)); d.n("c", (long long)nostr_tag_get_value_count(t)); for (size_t k = 0; k < 4; k++) d.z("v", nostr_tag_get_value(t, k)); }
  { nostr_tag_iterator_t it; nostr_tag_iterator_init(&it, e); nostr_tag_info_t ti; size_t k = 0; while (nostr_tag_iterator_next_info(&it, &ti) && k++ < 5000) { d.z("in", ti.name); d.n("ic", (long long)ti.values_count); d.n("ix", nostr_tag_is_indexable(ti.name)); } }
  for (int q = 0; q < 2; q++) { size_t k = 0; uint8_t(*a)[32] = q ? nostr_event_get_e_tags_binary(e, &k) : nostr_event_get_p_tags_binary(e, &k); d.n("bin", (long long)k); if (a) { d.b("b", a, k * 32); nostr_free(a); } }
  d.n("exp", nostr_event_get_expiration(e)); d.n("expd", nostr_event_is_expired(e, 1700000000)); d.n("expn", nostr_event_is_expired_now(e)); d.n("del?", nostr_event_is_deletion(e)); d.n("pow", nostr_nip13_verify_pow(e, 8)); d.n("dif", nostr_nip13_calculate_difficulty(e->id));
  { nostr_deletion_request_t q; memset(&q, 0, sizeof q); nostr_relay_error_t x = nostr_deletion_parse(e, &q); d.n("del", x); if (x == NOSTR_RELAY_OK) { for (size_t i = 0; i < q.event_ids_count; i++) d.z("e", q.event_ids[i]); for (size_t i = 0; i < q.addresses_count; i++) d.z("a", q.addresses[i]); d.z("r", q.reason); d.n("au", nostr_deletion_authorized(&q, e) + 2 * nostr_deletion_authorized_address(&q, e)); nostr_deletion_free(&q); } }
  { CBuf a(bs), b(bs); r = nostr_event_get_root_id(e, a.p, bs, b.p, bs); d.n("root", r); outbuf(d, "ri", r == NOSTR_OK, a); outbuf(d, "rh", r == NOSTR_OK, b); r = nostr_event_get_reply_id(e, a.p, bs, b.p, bs); d.n("reply", r); outbuf(d, "pi", r == NOSTR_OK, a); outbuf(d, "ph", r == NOSTR_OK, b); int x = -1; d.n("isr", nostr_event_is_reply(e, &x)); d.n("x", x); }
  { CBuf a(bs), b(bs), cc(bs); uint16_t k = 0; r = nostr_reaction_parse(e, a.p, bs, b.p, bs, cc.p, bs, &k); d.n("react", r); outbuf(d, "a", r == NOSTR_OK, a); outbuf(d, "b", r == NOSTR_OK, b); outbuf(d, "c", r == NOSTR_OK, cc); if (r == NOSTR_OK) d.n("k", k); int x = -1; d.n("like", nostr_reaction_is_like(e, &x)); d.n("x", x); x = -1; d.n("dis", nostr_reaction_is_dislike(e, &x)); d.n("x", x); r = nostr_repost_parse(e, a.p, bs, b.p, bs, cc.p, bs, &k); d.n("rep", r); outbuf(d, "a", r == NOSTR_OK, a); outbuf(d, "b", r == NOSTR_OK, b); outbuf(d, "c", r == NOSTR_OK, cc); }
  { nostr_delegation g; memset(&g, 0, sizeof g); r = nostr_event_get_delegation(e, &g); d.n("dg", r); if (r == NOSTR_OK) { d.z("co", g.conditions); d.n("kc", (long long)g.parsed_conditions.kind_count); d.n("v", nostr_delegation_verify(&g, &e->pubkey)); d.n("cc", nostr_delegation_check_conditions(&g, e->kind, e->created_at)); } nostr_delegation_free(&g); d.n("vd", nostr_event_verify_delegation(e)); }
  { uint64_t am = 7; char* bo = nullptr; nostr_event* zr = nullptr; char pre[65]; memset(pre, 0, sizeof pre); r = nostr_zap_parse_receipt(e, &am, &bo, pre, &zr); d.n("zap", r); if (r == NOSTR_OK) { d.n("am", (long long)am); d.z("bo", bo); d.t("pre", string(pre, strnlen(pre, 65))); d.n("zr", !!zr); nostr_free(bo); if (zr) { if (depth < 2) read_event(d, zr, bs, depth + 1); nostr_event_destroy(zr); } } d.n("zv", nostr_zap_verify(e, e, pkh)); }
  { nostr_list* l = nullptr; r = nostr_list_from_event(e, nullptr, &l); d.n("lst", r); if (l) { read_list(d, l); nostr_list_free(l); } nostr_relay_list* rl = nullptr; r = nostr_relay_list_from_event(e, &rl); d.n("rl", r); if (rl) { for (size_t i = 0; i < nostr_relay_list_count(rl); i++) { auto x = nostr_relay_list_get(rl, i); d.z("u", x->url); d.n("rw", x->read + 2 * x->write); } char** u = nullptr; size_t k = 0; d.n("rr", nostr_relay_list_get_read_relays(rl, &u, &k)); read_relays(d, u, k); nostr_relay_list_free_urls(u, k); nostr_relay_list_free(rl); } }
  { nostr_filter_t f; memset(&f, 0, sizeof f); string q = "{\"#e\":[\"aa\"],\"kinds\":[1,7,30000],\"authors\":[\"" + string(pkh) + "\"]}"; if (nostr_filter_parse(q.c_str(), q.size(), &f) == NOSTR_RELAY_OK) d.n("fm", nostr_filter_matches(&f, e)); nostr_filter_free(&f); }
  { nostr_event* w = nullptr; Ev cp = from_lib(e); EvPtr me(lib_event(cp)); w = me.e; d.n("quote", nostr_quote_tags_from_content(w)); d.n("qc", (long long)w->tags_count); d.n("nonce", nostr_nip13_add_nonce_tag(w, 5, 1)); if (w->tags_count) d.n("rt", nostr_event_add_reply_tags(w, w->tags[0].count > 1 ? w->tags[0].values[1] : nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)); d.t("w", show(from_lib(w))); }
}
static string g_word(Src& s) {
  switch (s.below(14)) { case 0: return hex(g_bin32(s)); case 1: return hex(pubkey_n((unsigned)s.below(3))); case 2: return strf("%llu", (unsigned long long)s.u64()); case 3: return strf("%lld", (long long)g_ts(s)); case 4: return strf("%d:%s:%s", (int)s.pick(vector<int>{30000, 10002, 0, 65536, -1}), hex(pubkey_n(1)).c_str(), g_text(s, 6).c_str()); case 5: return g_url(s); case 6: return s.pick(vector<string>{"", "read", "write", "root", "reply", "mention", "+", "-", "relays", "p2p", "amount"}); case 7: return strf("kind=%d&created_at>%lld&created_at<%lld", (int)s.u64(2), (long long)g_ts(s), (long long)g_ts(s)); case 8: return s.pick(vector<string>{"lnbc10u1pvjluez", "lnbc1", "lnbc99999999999999999999m1x", "lntb2500000001p1q", "lnbc20m1", "lnurl1dp68gurn8ghj7um9wfmxjcm99e3k7mf0"}); case 9: { Ev e = g_ev(s); e.kind = 9734; e.seal(privkey_n(1)); return e.json_text(); } case 10: return hex(g_bytes(s, 70)); case 11: return g_cstr(s, 12); case 12: return string(s.below(700), 'a'); default: return g_text(s, 40); }
}
static const char* TN[] = {"e", "p", "a", "d", "t", "r", "k", "q", "nonce", "delegation", "expiration", "amount", "relays", "lnurl", "bolt11", "description", "preimage", "title", "image", "emoji", "word", "group", "P", "relay", "-", ""};
static Ev g_hostile(Src& s) {
  Ev e = g_ev(s); if (s.flip()) e.kind = s.pick(vector<uint32_t>{5, 6, 7, 16, 9734, 9735, 10000, 10002, 10030, 30000, 30030, 13194, 24133, 1059}); size_t n = s.size(9); for (size_t i = 0; i < n; i++) { vector<string> t{s.pick(TN)}; size_t m = s.below(5); while (m--) t.push_back(s.chance(1, 3) && !e.tags.empty() && !e.tags.back().empty() ? e.tags.back().back() : g_word(s)); e.tags.push_back(t); }
  if (s.chance(1, 3)) e.content = g_word(s); if (s.chance(1, 4)) { e.content += " nostr:" + bech32_encode(s.pick(vector<string>{"npub", "note", "nevent", "naddr", "nprofile"}), g_bytes(s, 80)); } e.seal(privkey_n((unsigned)s.below(3))); if (s.chance(1, 6)) { size_t k = s.below(64); e.sig[k] = (char)(e.sig[k] ^ 1); } return e;
}
static JV g_filter_json(Src& s) {
  vector<std::pair<string, JV>> o; size_t n = s.below(6); while (n--) { string k = s.pick(vector<string>{"ids", "authors", "kinds", "#e", "#p", "#t", "#d", "since", "until", "limit", "search", "#a", "#", "#ee", "x"}); JV v; switch (s.below(6)) { case 0: v = jint((int64_t)s.u64()); break; case 1: v = jstr(g_word(s)); break; case 2: v = jraw(s.pick(vector<string>{"1e400", "-0", "1.5", "99999999999999999999", "-1", "4294967296", "1e10"})); break; default: { vector<JV> a; size_t m = s.chance(1, 20) ? 240 + s.below(40) : s.size(6); bool num = s.flip(); for (size_t i = 0; i < m; i++) a.push_back(k == "kinds" || (num && s.chance(1, 9)) ? jint((int64_t)s.u64(3)) : jstr(g_word(s))); v = jarr(a); } } o.push_back({k, v}); } return jobj(o);
}
static string g_tlv(Src& s) { string b; size_t n = s.below(7); while (n--) { string v = s.flip() ? g_bin32(s) : s.chance(1, 8) ? string(s.below(256), 'w') : g_bytes(s, 60); if (s.chance(1, 4)) v = "wss://r.example"; b += (char)s.below(5); b += (char)(s.chance(1, 12) ? s.u8() : v.size()); b += v.substr(0, 255); } return s.chance(1, 6) ? b.substr(0, s.below(b.size() + 1)) : b; }
static string g_bech(Src& s) { string p = s.pick(vector<string>{"npub", "nsec", "note", "nprofile", "nevent", "naddr", "nrelay", "ncryptsec", "lnurl", "x", ""}); string b = s.chance(2, 3) ? (p == "npub" || p == "nsec" || p == "note" ? g_bin32(s) : g_tlv(s)) : g_bytes(s, 100); string t = bech32_encode(p, b); if (s.chance(1, 6)) t = upper(t); return t; }
static string g_nest(Src& s, size_t n) { string o, cl; for (size_t i = 0; i < n; i++) { if (s.generating() ? s.flip() : s.flip()) { o += "["; cl += "]"; } else { o += "{\"a\":"; cl += "}"; } if (i > 40) { string w(o.substr(o.size() - 1)); o += string((n - i), '['); cl += string((n - i), ']'); break; } } std::reverse(cl.begin(), cl.end()); return o + "1" + cl; }
static string g_text_for(Src& s, int k) {
  string t; switch (k) {
    case 0: case 1: t = json_variant(g_hostile(s).json(), s); break;
    case 2: t = json_variant(g_filter_json(s), s); break;
    case 3: { vector<JV> a{jstr(s.pick(vector<string>{"EVENT", "REQ", "CLOSE", "AUTH", "COUNT", "X"}))}; size_t n = s.below(4); if (s.flip()) a.push_back(jstr(g_text(s, 70))); while (n--) a.push_back(s.flip() ? g_filter_json(s) : g_hostile(s).json()); t = json_variant(jarr(a), s); break; }
    case 4: { string nm = s.pick(vector<string>{"_", "bob", "a.b"}); JV names = jobj({{nm, jstr(g_word(s))}, {g_text(s, 5), jint(1)}}); vector<JV> rl; size_t n = s.below(5); while (n--) rl.push_back(s.chance(1, 6) ? jnull() : jstr(g_url(s))); t = json_variant(jobj({{"names", names}, {"relays", jobj({{s.flip() ? hex(pubkey_n(1)) : g_word(s), jarr(rl)}})}}), s); break; }
    case 5: t = (s.flip() ? "nostr:" : "") + g_bech(s); break;
    case 6: t = g_bech(s); break;
    case 7: t = s.pick(vector<string>{"bob@example.com", "_@x", "a@b@c", "@", "EXAMPLE.com"}); break;
    case 8: { static const char* w[] = {"abandon", "about", "zoo", "legal", "winner", "xyz"}; size_t n = s.pick(vector<size_t>{12, 24, 11, 13, 0, 60}); for (size_t i = 0; i < n; i++) t += (i ? " " : "") + string(s.pick(w)); break; }
    case 9: t = "m/44'/1237'/" + strf("%llu'/0/0", (unsigned long long)s.u64()); break;
    default: t = g_word(s); }
  if (s.chance(1, 2)) t = g_mut(s, t, 1 + (unsigned)s.below(4)); if (s.chance(1, 60)) { string f = t.substr(0, 1 + s.below(12)); t.clear(); if (f.empty()) f = "["; size_t n = s.pick(vector<size_t>{300, 1000, 5000, 20000}); while (t.size() < n) t += f; } if (s.chance(1, 80)) t = g_nest(s, s.pick(vector<size_t>{50, 900, 1100, 30000})); if (s.chance(1, 50)) t = g_bytes(s, 200); return t;
}
static string eat(int k, const string& t, size_t bs, const nostr_event* probe) {
  Dig d; string z = t.substr(0, t.find('\0')); CStr cs(z); nostr_error_t r;
  switch (k) {
    case 0: { nostr_event* e = nullptr; r = nostr_event_from_json(cs, &e); d.n("r", r); if (r == NOSTR_OK) { read_event(d, e, bs, 0); nostr_event_destroy(e); } break; }
    case 1: { Raw w(t.empty() ? " " : t); nostr_event* e = nullptr; nostr_relay_error_t q = nostr_event_parse(w.p, w.n, &e); d.n("r", q); if (q == NOSTR_RELAY_OK) { read_event(d, e, bs, 0); nostr_event_destroy(e); } break; }
    case 2: { Raw w(t.empty() ? " " : t); nostr_filter_t f; memset(&f, 0, sizeof f); nostr_relay_error_t q = nostr_filter_parse(w.p, w.n, &f); d.n("r", q); if (q == NOSTR_RELAY_OK) read_filter(d, &f, probe); nostr_filter_free(&f); break; }
    case 3: { Raw w(t.empty() ? " " : t); nostr_client_msg_t m; memset(&m, 0, sizeof m); nostr_relay_error_t q = nostr_client_msg_parse(w.p, w.n, &m); d.n("r", q); if (q == NOSTR_RELAY_OK) { d.n("ty", nostr_client_msg_get_type(&m)); d.z("sub", nostr_client_msg_get_subscription_id(&m)); size_t n = 0; const nostr_filter_t* f = nostr_client_msg_get_filters(&m, &n); d.n("nf", (long long)n); for (size_t i = 0; i < n; i++) read_filter(d, f + i, probe); if (n) d.n("any", nostr_filters_match(f, n, probe)); if (const nostr_event* e = nostr_client_msg_get_event(&m)) read_event(d, e, bs, 0); } nostr_client_msg_free(&m); break; }
    case 4: { for (const char* nm : {"_", "bob", "a.b"}) { CBuf pk(bs); char** rl = nullptr; size_t n = 0; r = nostr_nip05_parse_response(cs, nm, pk.p, bs, &rl, &n); d.n("r", r); outbuf(d, "pk", r == NOSTR_OK, pk); if (r == NOSTR_OK) { read_relays(d, rl, n); nostr_nip05_free_relays(rl, n); } } break; }
    case 5: { nostr_uri u; memset(&u, 0, sizeof u); r = nostr_uri_parse(cs, &u); d.n("r", r); if (r == NOSTR_OK) { d.n("ty", u.type); CBuf b(bs); r = nostr_uri_encode(&u, b.p, bs); d.n("enc", r); outbuf(d, "u", r == NOSTR_OK, b); nostr_uri_free(&u); } break; }
    case 6: { nostr_nprofile p; memset(&p, 0, sizeof p); r = nostr_nprofile_decode(cs, &p); d.n("np", r); if (r == NOSTR_OK) { read_relays(d, p.relays, p.relay_count); CBuf b(bs); r = nostr_nprofile_encode(&p, b.p, bs); d.n("e", r); outbuf(d, "o", r == NOSTR_OK, b); nostr_nprofile_free(&p); } nostr_nevent v; memset(&v, 0, sizeof v); r = nostr_nevent_decode(cs, &v); d.n("nv", r); if (r == NOSTR_OK) { read_relays(d, v.relays, v.relay_count); d.n("k", v.has_kind ? v.kind : -1); CBuf b(bs); r = nostr_nevent_encode(&v, b.p, bs); d.n("e", r); outbuf(d, "o", r == NOSTR_OK, b); nostr_nevent_free(&v); } nostr_naddr a; memset(&a, 0, sizeof a); r = nostr_naddr_decode(cs, &a); d.n("na", r); if (r == NOSTR_OK) { read_relays(d, a.relays, a.relay_count); d.z("i", a.identifier); d.n("k", a.kind); CBuf b(bs); r = nostr_naddr_encode(&a, b.p, bs); d.n("e", r); outbuf(d, "o", r == NOSTR_OK, b); nostr_naddr_free(&a); } nostr_nrelay y; r = nostr_nrelay_decode(cs, &y); d.n("nr", r); if (r == NOSTR_OK) d.z("u", y.url);
      nostr_key pk; r = nostr_key_from_bech32(cs, &pk); d.n("pk", r); if (r == NOSTR_OK) d.b("d", &pk, 32); nostr_privkey sk; r = nostr_privkey_from_bech32(cs, &sk); d.n("sk", r); uint8_t id[32]; r = nostr_event_id_from_bech32(cs, id); d.n("id", r); char lp[65]; memset(lp, 0, sizeof lp); bool al = false; d.n("lnurl", nostr_zap_validate_lnurl(cs, lp, &al)); d.n("al", al); d.n("ncv", nostr_ncryptsec_validate(cs)); nostr_privkey nk; memset(&nk, 0, sizeof nk); d.n("ncd", nostr_ncryptsec_decrypt(cs, "pw", &nk)); break; }
    case 7: { CBuf a(bs), b(bs); r = nostr_nip05_parse(cs, a.p, bs, b.p, bs); d.n("r", r); outbuf(d, "n", r == NOSTR_OK, a); outbuf(d, "d", r == NOSTR_OK, b); if (r == NOSTR_OK) { CBuf u(bs); r = nostr_nip05_build_url(a.p, b.p, u.p, bs); d.n("u", r); outbuf(d, "u", r == NOSTR_OK, u); } CBuf u(bs); r = nostr_nip05_build_url(cs, cs, u.p, bs); d.n("bu", r); outbuf(d, "u", r == NOSTR_OK, u); break; }
    case 8: d.n("r", nostr_mnemonic_validate(cs)); break;
    case 9: { nostr_hd_key m, o; string sd(32, 'x'); if (nostr_hd_key_from_seed((const uint8_t*)sd.data(), 32, &m) == NOSTR_OK) { r = nostr_hd_key_derive_path(&m, cs, &o); d.n("r", r); if (r == NOSTR_OK) d.b("k", &o.pubkey, 32); } break; }
    default: { d.n("h", nostr_validate_hex64(cs)); d.n("p", nostr_validate_hex_prefix(cs)); d.n("s", nostr_validate_subscription_id(cs)); d.n("a", nostr_validate_address(cs)); nostr_key pk; r = nostr_key_from_hex(cs, &pk); d.n("k", r); nostr_privkey sk; d.n("sk", nostr_privkey_from_hex(cs, &sk)); nostr_keypair kp; d.n("kp", nostr_keypair_from_private_hex(&kp, cs)); nostr_keypair_destroy(&kp); uint8_t o[32]; Raw w(t); d.n("hb", nostr_hex_to_bytes(w.p, w.n, o, 32)); d.n("hd", nostr_hex_decode(cs, o, std::min<size_t>(z.size() / 2, 32))); d.n("ix", nostr_tag_is_indexable(cs)); nostr_relay_list* rl = nullptr; if (nostr_relay_list_create(&rl) == NOSTR_OK) { d.n("ra", nostr_relay_list_add(rl, cs, true, false)); nostr_relay_list_free(rl); } }
  }
  return d.s;
}

// ---- operations with a reproducible outcome
struct Arm { int mode = 0; long k = 0; long n = 0; bool fired = false; void on() { rand_seed(7); if (mode < 0) return; if (mode == 0) heap_fail_at(-1); else if (mode == 1) heap_fail_at(k); else heap_fail_from(k); } void off() { if (mode < 0) return; n = heap_count(); fired = heap_fault_fired(); heap_fail_at(-1); } };
struct Run { bool ok = false; string out; bool atomic = false; string before, after; };
typedef std::function<void(Arm&, Run&)> Scn;
#define OP(EXPR) a.on(); r.ok = (EXPR); a.off()
static string rd_filter(const nostr_filter_t* f, const nostr_event* p) { Dig d; read_filter(d, f, p); return d.s; }
static string rd_list(const nostr_list* l) { Dig d; read_list(d, l); return d.s; }
static string rd_rl(const nostr_relay_list* l) { Dig d; for (size_t i = 0; i < nostr_relay_list_count(l); i++) { auto x = nostr_relay_list_get(l, i); d.z("u", x->url); d.n("rw", x->read + 2 * x->write); } return d.s; }
static string ev_text(const nostr_event* e) { return from_lib(e).json_text(); }
static Scn scenario(Src& s, string* name) {
  Ev e = g_hostile(s); for (auto& t : e.tags) for (auto& v : t) v = v.substr(0, v.find('\0')); e.tags.erase(std::remove_if(e.tags.begin(), e.tags.end(), [](const vector<string>& t) { return t.empty(); }), e.tags.end()); string txt = json_variant(e.json(), s); size_t cnt = s.size(9); string id = hex(g_bin32(s)), pk = hex(pubkey_n(2)), url = g_url(s), w = g_text(s, 40), bech = g_bech(s); int sub = (int)s.below(8); uint16_t kd = (uint16_t)s.pick(vector<int>{1, 6, 7, 30023, 10002});
  JV fj = g_filter_json(s); for (auto& m : fj.o) if (m.second.t == JV::Arr && m.second.a.size() > 20) m.second.a.resize(20); string ft = json_variant(fj, s); auto mk = [e] { return lib_event(e); };
  switch (s.below(27)) {
    case 0: *name = "event_from_json"; return [=](Arm& a, Run& r) { CStr t(txt); nostr_event* x = nullptr; OP(nostr_event_from_json(t, &x) == NOSTR_OK); if (r.ok) { r.out = ev_text(x); nostr_event_destroy(x); } else CHECK(!x, "failed parse left an event"); };
    case 1: *name = "event_parse"; return [=](Arm& a, Run& r) { Raw t(txt); nostr_event* x = nullptr; OP(nostr_event_parse(t.p, t.n, &x) == NOSTR_RELAY_OK); if (r.ok) { r.out = ev_text(x); nostr_event_destroy(x); } };
    case 2: *name = "event_to_json"; return [=](Arm& a, Run& r) { EvPtr x(mk()); char* j = nullptr; OP(nostr_event_to_json(x.e, &j) == NOSTR_OK); if (r.ok) { r.out = j; nostr_free(j); } };
    case 3: *name = "serialize"; return [=](Arm& a, Run& r) { EvPtr x(mk()); CBuf b(20000); size_t n = 0; OP((sub & 1 ? nostr_event_serialize(x.e, b.p, b.n, &n) : nostr_event_serialize_canonical(x.e, b.p, b.n, &n)) == NOSTR_RELAY_OK); if (r.ok) r.out = string(b.p, n); };
    case 4: *name = "sign"; return [=](Arm& a, Run& r) { EvPtr x(mk()); nostr_privkey k; memcpy(&k, privkey_n(1).data(), 32); rand_mode = 1; OP((sub & 1 ? nostr_event_sign(x.e, &k) : nostr_event_compute_id(x.e)) == NOSTR_OK); rand_mode = 0; if (r.ok) r.out = ev_text(x.e); };
    case 5: *name = "verify"; return [=](Arm& a, Run& r) { EvPtr x(mk()); nostr_validation_result_t v; memset(&v, 0, sizeof v); OP(sub & 1 ? nostr_event_verify(x.e) == NOSTR_OK : nostr_event_validate_full(x.e, 900, &v) == NOSTR_RELAY_OK); };
    case 6: *name = "event edit"; return [=](Arm& a, Run& r) { EvPtr x(mk()); const char* v[] = {"t", w.c_str(), url.c_str()}; for (size_t i = 0; i < cnt * 3; i++) nostr_event_add_tag(x.e, v, 1 + (i % 3)); r.atomic = true; r.before = ev_text(x.e); string big = w + string(sub * 300, 'y'); const char* bv[] = {"t", big.c_str()}; OP((sub & 1 ? nostr_event_add_tag(x.e, bv, 2) : nostr_event_set_content(x.e, w.c_str())) == NOSTR_OK); r.after = ev_text(x.e); r.out = r.after; };
    case 7: *name = "filter_parse"; return [=](Arm& a, Run& r) { Raw t(ft); nostr_filter_t f; memset(&f, 0, sizeof f); OP(nostr_filter_parse(t.p, t.n, &f) == NOSTR_RELAY_OK); if (r.ok) { EvPtr x(mk()); r.out = rd_filter(&f, x.e); } nostr_filter_free(&f); };
    case 8: *name = "filter_clone"; return [=](Arm& a, Run& r) { Raw t(ft); nostr_filter_t f, g; memset(&f, 0, sizeof f); memset(&g, 0, sizeof g); if (nostr_filter_parse(t.p, t.n, &f) != NOSTR_RELAY_OK) return; OP(nostr_filter_clone(&g, &f) == NOSTR_RELAY_OK); EvPtr x(mk()); if (r.ok) r.out = rd_filter(&g, x.e); nostr_filter_free(&g); nostr_filter_free(&f); };
    case 9: { *name = "client_msg_parse"; string m = sub < 2 ? "[\"EVENT\"," + txt + "]" : sub < 3 ? "[\"AUTH\"," + txt + "]" : sub < 6 ? "[\"REQ\",\"s\"," + ft + "," + ft + "]" : "[\"COUNT\",\"q\"," + ft + "]"; return [=](Arm& a, Run& r) { Raw t(m); nostr_client_msg_t g; memset(&g, 0, sizeof g); OP(nostr_client_msg_parse(t.p, t.n, &g) == NOSTR_RELAY_OK); if (r.ok) { Dig d; d.z("sub", nostr_client_msg_get_subscription_id(&g)); size_t n = 0; const nostr_filter_t* f = nostr_client_msg_get_filters(&g, &n); EvPtr x(mk()); for (size_t i = 0; i < n; i++) read_filter(d, f + i, x.e); if (auto q = nostr_client_msg_get_event(&g)) d.t("e", ev_text(q)); r.out = d.s; } nostr_client_msg_free(&g); }; }
    case 10: *name = "relay_msg_serialize"; return [=](Arm& a, Run& r) { EvPtr x(mk()); nostr_relay_msg_t m; switch (sub) { case 0: nostr_relay_msg_event(&m, w.substr(0, 10).c_str(), x.e); break; case 1: nostr_relay_msg_ok(&m, id.c_str(), true, w.c_str()); break; case 2: nostr_relay_msg_eose(&m, "s"); break; case 3: nostr_relay_msg_closed(&m, "s", w.c_str()); break; case 4: nostr_relay_msg_notice(&m, w.c_str()); break; case 5: nostr_relay_msg_auth(&m, w.c_str()); break; default: nostr_relay_msg_count(&m, "s", (int64_t)cnt, sub & 1); } CBuf b(20000); size_t n = 0; OP(nostr_relay_msg_serialize(&m, b.p, b.n, &n) == NOSTR_RELAY_OK); if (r.ok) r.out = string(b.p, n); };
    case 11: *name = "relay_info_nips"; return [=](Arm& a, Run& r) { nostr_relay_info_t i; nostr_relay_info_init(&i); int32_t n[3] = {1, 2, 3}; for (size_t q = 0; q < cnt; q++) nostr_relay_info_add_nip(&i, (int32_t)q); auto rd = [&] { string o; for (size_t q = 0; q < i.supported_nips_count; q++) o += strf("%d ", i.supported_nips[q]); return o; }; r.atomic = true; r.before = rd(); OP((sub & 1 ? nostr_relay_info_add_nip(&i, 42) : nostr_relay_info_set_nips(&i, n, 3)) == NOSTR_RELAY_OK); r.out = r.after = rd(); nostr_relay_info_free(&i); };
    case 12: { *name = "nip05_parse_response"; string j = json_compact(jobj({{"names", jobj({{"bob", jstr(pk)}})}, {"relays", jobj({{pk, jarr({jstr(url), jstr(w), jstr("wss://x")})}})}})); return [=](Arm& a, Run& r) { CStr t(j); CBuf b(65); char** rl = nullptr; size_t n = 0; OP(nostr_nip05_parse_response(t, "bob", b.p, 65, &rl, &n) == NOSTR_OK); if (r.ok) { Dig d; d.z("pk", b.p); read_relays(d, rl, n); r.out = d.s; nostr_nip05_free_relays(rl, n); } }; }
    case 13: *name = "uri"; return [=](Arm& a, Run& r) { string t0 = "nostr:" + bech; t0 = t0.substr(0, t0.find('\0')); CStr t(t0); nostr_uri u; memset(&u, 0, sizeof u); if (sub & 1) { OP(nostr_uri_parse(t, &u) == NOSTR_OK); if (r.ok) { CBuf b(5000); if (nostr_uri_encode(&u, b.p, b.n) == NOSTR_OK) r.out = b.p; nostr_uri_free(&u); } } else { if (nostr_uri_parse(t, &u) != NOSTR_OK) return; CBuf b(5000); OP(nostr_uri_encode(&u, b.p, b.n) == NOSTR_OK); if (r.ok) r.out = b.p; nostr_uri_free(&u); } };
    case 14: *name = "ncryptsec"; return [=](Arm& a, Run& r) { nostr_privkey k, o; memcpy(&k, privkey_n(1).data(), 32); rand_mode = 1; rand_seed(3); char b[200]; if (sub & 1) { OP(nostr_ncryptsec_encrypt(&k, "pw", 16, b, sizeof b) == NOSTR_OK); rand_mode = 0; if (r.ok) r.out = b; } else { bool good = nostr_ncryptsec_encrypt(&k, "pw", 16, b, sizeof b) == NOSTR_OK; rand_mode = 0; if (!good) return; OP(nostr_ncryptsec_decrypt(b, sub & 2 ? "pw" : "no", &o) == NOSTR_OK); if (r.ok) r.out = hex(&o, 32); } };
    case 15: *name = "mnemonic"; return [=](Arm& a, Run& r) { string m = "abandon"; for (int i = 0; i < 10; i++) m += " abandon"; m += sub & 4 ? " about" : " zoo"; uint8_t sd[64]; OP((sub & 1 ? nostr_mnemonic_to_seed(m.c_str(), w.c_str(), sd) : nostr_mnemonic_validate(m.c_str())) == NOSTR_OK); if (r.ok && (sub & 1)) r.out = hex(sd, 64); };
    case 16: { *name = "delegation"; string cond = strf("kind=%u&kind=%u&created_at>%lld&kind=7&created_at<%lld", (e.kind + 1) & 0xffff, e.kind & 0xffff, (long long)e.created_at - 1, (long long)e.created_at + 1); return [=](Arm& a, Run& r) { nostr_privkey k; memcpy(&k, privkey_n(4).data(), 32); nostr_delegation g; memset(&g, 0, sizeof g); EvPtr x(mk()); rand_mode = 1; rand_seed(7); auto un = defer([] { rand_mode = 0; }); if (sub < 2) { OP(nostr_delegation_create(&k, &x->pubkey, cond.c_str(), &g) == NOSTR_OK); if (r.ok) r.out = g.conditions + hex(g.token, 64); nostr_delegation_free(&g); return; } if (nostr_delegation_create(&k, &x->pubkey, cond.c_str(), &g) != NOSTR_OK) return; auto fr = defer([&] { nostr_delegation_free(&g); }); if (sub == 2) { OP(nostr_delegation_verify(&g, &x->pubkey) == NOSTR_OK); return; } if (sub == 3) { r.atomic = true; r.before = ev_text(x.e); OP(nostr_event_add_delegation(x.e, &g) == NOSTR_OK); r.out = r.after = ev_text(x.e); return; } if (nostr_event_add_delegation(x.e, &g) != NOSTR_OK) return; if (sub & 1) x->kind ^= (sub & 2) ? 1 : 0; if (sub < 6) { nostr_delegation h; memset(&h, 0, sizeof h); OP(nostr_event_get_delegation(x.e, &h) == NOSTR_OK); if (r.ok) r.out = h.conditions + hex(h.token, 64) + strf("%zu", h.parsed_conditions.kind_count); nostr_delegation_free(&h); } else { OP(nostr_event_verify_delegation(x.e) == NOSTR_OK); } }; }
    case 17: *name = "list edit"; return [=](Arm& a, Run& r) { nostr_list* l = nullptr; if (nostr_list_create(&l, 30000) != NOSTR_OK) return; for (size_t i = 0; i < cnt * 2; i++) nostr_list_add_hashtag(l, w.c_str(), false); nostr_list_set_title(l, "old"); r.atomic = true; r.before = rd_list(l); nostr_error_t q = NOSTR_OK; a.on(); switch (sub) { case 0: q = nostr_list_add_pubkey(l, pk.c_str(), url.c_str(), w.c_str(), false); break; case 1: q = nostr_list_add_event(l, id.c_str(), url.c_str(), false); break; case 2: q = nostr_list_add_group(l, w.c_str(), url.c_str(), w.c_str(), true); break; case 3: q = nostr_list_add_emoji(l, "x", url.c_str(), false); break; case 4: q = nostr_list_set_title(l, w.c_str()); break; case 5: q = nostr_list_set_d_tag(l, w.c_str()); break; case 6: q = nostr_list_add_relay(l, url.c_str(), false); break; default: q = nostr_list_set_image(l, w.c_str()); } a.off(); r.ok = q == NOSTR_OK; r.out = r.after = rd_list(l); nostr_list_free(l); };
    case 18: *name = "list_to_event"; return [=](Arm& a, Run& r) { nostr_list* l = nullptr; a.on(); bool made = nostr_list_create(&l, sub & 1 ? 30000 : 10000) == NOSTR_OK; a.off(); if (!made) { r.ok = false; CHECK(!l, "failed create left a list"); return; } nostr_list_set_title(l, "ti"); nostr_list_set_description(l, w.c_str()); for (size_t i = 0; i < cnt; i++) { nostr_list_add_hashtag(l, w.c_str(), false); nostr_list_add_pubkey(l, pk.c_str(), url.c_str(), "n", false); } nostr_event* x = nullptr; rand_mode = 1; if (a.mode == 0 || !a.fired) { OP(nostr_list_to_event(l, nullptr, &x) == NOSTR_OK); } rand_mode = 0; if (r.ok) { r.out = ev_text(x); nostr_event_destroy(x); } nostr_list_free(l); };
    case 19: *name = "list_from_event"; return [=](Arm& a, Run& r) { Ev f = e; f.kind = 30000; EvPtr x(lib_event(f)); nostr_list* l = nullptr; OP(nostr_list_from_event(x.e, nullptr, &l) == NOSTR_OK); if (r.ok) { r.out = rd_list(l); nostr_list_free(l); } else CHECK(!l, "failed read left a list"); };
    case 20: *name = "relay list"; return [=](Arm& a, Run& r) { nostr_relay_list* l = nullptr; if (sub < 2) { Ev f = e; f.kind = 10002; for (size_t i = 0; i < cnt; i++) f.tags.push_back({"r", strf("wss://h%zu", i), i & 1 ? "read" : "write"}); EvPtr x(lib_event(f)); OP(nostr_relay_list_from_event(x.e, &l) == NOSTR_OK); if (r.ok) { r.out = rd_rl(l); nostr_relay_list_free(l); } else CHECK(!l, "failed read left a list"); return; } if (nostr_relay_list_create(&l) != NOSTR_OK) return; for (size_t i = 0; i < cnt * 2; i++) nostr_relay_list_add(l, strf("wss://h%zu", i).c_str(), true, i & 1); r.before = rd_rl(l); r.atomic = true; if (sub < 4) { OP(nostr_relay_list_add(l, "wss://new.example", true, true) == NOSTR_OK); r.out = r.after = rd_rl(l); } else if (sub < 6) { nostr_event* x = nullptr; OP(nostr_relay_list_to_event(l, &x) == NOSTR_OK); r.after = rd_rl(l); if (r.ok) { r.out = ev_text(x); nostr_event_destroy(x); } else CHECK(!x, "failed conversion left an event"); } else { char** u = nullptr; size_t n = 0; OP((sub & 1 ? nostr_relay_list_get_read_relays(l, &u, &n) : nostr_relay_list_get_write_relays(l, &u, &n)) == NOSTR_OK); r.after = rd_rl(l); if (r.ok) { Dig d; read_relays(d, u, n); r.out = d.s; nostr_relay_list_free_urls(u, n); } } nostr_relay_list_free(l); };
    case 21: { *name = "zap"; Ev q; q.kind = 9734; q.tags = {{"p", pk}, {"amount", "1000000"}, {"relays", url}}; q.seal(privkey_n(2)); Ev z; z.kind = 9735; z.tags = {{"p", pk}, {"bolt11", "lnbc10u1pvjluez"}, {"description", q.json_text()}, {"preimage", id}}; z.seal(privkey_n(3)); return [=](Arm& a, Run& r) { EvPtr x(lib_event(z)), y(lib_event(q)); if (sub < 3) { uint64_t am = 0; char* bo = nullptr; char pre[65]; nostr_event* zr = nullptr; OP(nostr_zap_parse_receipt(x.e, &am, &bo, pre, &zr) == NOSTR_OK); if (r.ok) { r.out = strf("%llu %s %.64s", (unsigned long long)am, bo ? bo : "-", pre) + (zr ? ev_text(zr) : "-"); nostr_free(bo); if (zr) nostr_event_destroy(zr); } } else if (sub < 6) { string sv = hex(pubkey_n(sub == 3 ? 4 : 3)); OP(nostr_zap_verify(x.e, y.e, sv.c_str()) == NOSTR_OK); } else { nostr_event* o = nullptr; nostr_key k; memcpy(&k, pubkey_n(2).data(), 32); vector<const char*> rl(1 + cnt, "wss://r.example"); OP(nostr_zap_create_request(&o, 1000, &k, nullptr, w.c_str(), rl.data(), rl.size()) == NOSTR_OK); if (r.ok) { r.out = ev_text(o); nostr_event_destroy(o); } else CHECK(!o, "failed creation left an event"); } }; }
    case 22: *name = "reaction or repost"; return [=](Arm& a, Run& r) { nostr_event* o = nullptr; OP((sub & 1 ? nostr_reaction_create(&o, "+", id.c_str(), pk.c_str(), url.c_str(), kd) : nostr_repost_create(&o, id.c_str(), pk.c_str(), url.c_str(), kd, kd == 30023 ? "d" : nullptr, nullptr)) == NOSTR_OK); if (r.ok) { r.out = ev_text(o); nostr_event_destroy(o); } else CHECK(!o, "failed creation left an event"); };
    case 23: *name = "event tags"; return [=](Arm& a, Run& r) { Ev f = e; f.content += " nostr:" + bech32_encode("npub", pubkey_n(1)) + " nostr:" + bech32_encode("note", pubkey_n(2)) + " nostr:" + bech32_encode("nevent", string("\0\x20", 2) + pubkey_n(2)); EvPtr x(lib_event(f)); nostr_error_t q; a.on(); switch (sub) { case 0: case 1: q = nostr_quote_tags_from_content(x.e); break; case 2: case 3: q = nostr_event_add_reply_tags(x.e, id.c_str(), url.c_str(), pk.c_str(), pk.c_str(), url.c_str(), pk.c_str()); break; case 4: case 5: q = nostr_event_add_mention_tag(x.e, pk.c_str(), url.c_str()); break; case 6: q = nostr_nip13_add_nonce_tag(x.e, 77, 4); break; default: q = nostr_nip13_mine_event(x.e, 2, 100); } a.off(); r.ok = q == NOSTR_OK; if (r.ok) r.out = ev_text(x.e); else ev_text(x.e); };
    case 24: { *name = "deletion_parse"; Ev f = e; f.kind = 5; f.tags.push_back({"e", id}); f.tags.push_back({"a", "30000:" + hex(f.pubkey) + ":x"}); Ev g = e; g.kind = 30000; g.tags.insert(g.tags.begin(), {"d", sub & 1 ? "x" : "y"}); if (sub & 2) f.tags.push_back({"e", hex(g.id)}); return [=](Arm& a, Run& r) { EvPtr x(lib_event(f)); nostr_deletion_request_t q; memset(&q, 0, sizeof q); OP(nostr_deletion_parse(x.e, &q) == NOSTR_RELAY_OK); if (r.ok) { Dig d; for (size_t i = 0; i < q.event_ids_count; i++) d.z("e", q.event_ids[i]); for (size_t i = 0; i < q.addresses_count; i++) d.z("a", q.addresses[i]); d.z("r", q.reason); EvPtr y(lib_event(g)); d.n("id", nostr_deletion_authorized(&q, y.e)); d.n("ad", nostr_deletion_authorized_address(&q, y.e)); r.out = d.s; nostr_deletion_free(&q); } }; }
    case 25: *name = "binary tags"; return [=](Arm& a, Run& r) { Ev f = e; f.tags.push_back({"e", id}); f.tags.push_back({"p", pk}); EvPtr x(lib_event(f)); size_t n = 0; uint8_t(*p)[32] = nullptr; OP((p = sub & 1 ? nostr_event_get_e_tags_binary(x.e, &n) : nostr_event_get_p_tags_binary(x.e, &n)) != nullptr); if (r.ok) { r.out = hex(p, n * 32); nostr_free(p); } else CHECK(n == 0, "no array but count %zu", n); };
    default: { *name = "relay_info_serialize"; vector<string> ss; for (size_t i = 0; i < cnt; i++) ss.push_back(strf("c%zu", i)); return [=](Arm& a, Run& r) { nostr_relay_info_t i; nostr_relay_info_init(&i); i.name = w.c_str(); i.contact = url.c_str(); i.software = "sw"; i.posting_policy = "pp"; vector<const char*> cs; for (auto& q : ss) cs.push_back(q.c_str()); i.language_tags = cs.data(); i.language_tags_count = cs.size(); for (size_t q = 0; q < cnt; q++) nostr_relay_info_add_nip(&i, (int32_t)q); nostr_relay_fee_t fee; memset(&fee, 0, sizeof fee); fee.amount = 5; fee.unit = "msats"; fee.period = 30; int32_t ks[] = {0, 1, 30000}; fee.kinds = ks; fee.kinds_count = cnt % 4; nostr_relay_retention_t re; memset(&re, 0, sizeof re); re.kinds = ks; re.kinds_count = sub % 4; re.time = 3600; re.count = 7; if (sub & 2) { i.fees.admission = &fee; i.fees.admission_count = 1; } if (sub & 4) { i.fees.subscription = i.fees.publication = &fee; i.fees.subscription_count = i.fees.publication_count = 1; i.retention = &re; i.retention_count = 1; i.tags = i.relay_countries = cs.data(); i.tags_count = i.relay_countries_count = cs.size(); i.limitation.created_at_lower_limit = 5; i.limitation.auth_required = true; i.pubkey = id.c_str(); i.icon = i.banner = i.version = url.c_str(); } CBuf b(20000); size_t n = 0; OP((sub != 1 ? nostr_relay_info_serialize(&i, b.p, b.n, &n) : nostr_relay_limitation_serialize(&i.limitation, b.p, b.n, &n)) == NOSTR_RELAY_OK); if (r.ok) r.out = string(b.p, n); i.language_tags = nullptr; i.language_tags_count = 0; memset(&i.fees, 0, sizeof i.fees); i.retention = nullptr; i.retention_count = 0; i.tags = i.relay_countries = nullptr; i.tags_count = i.relay_countries_count = 0; nostr_relay_info_free(&i); }; }
  }
}
