// P25 NIP-51 lists, P26 NIP-57 zaps, P27 NIP-65 relay lists
#include "oracle.h"
#include <algorithm>
extern "C" void vf_free(void*);
using namespace vf; using namespace vo;

// ---------------------------------------------------------------- P25
struct Item { vector<string> v; bool priv = false; };           // v as it appears in the tag
struct Meta { bool has = false; string v; };
struct ListModel { uint32_t kind = 10000; Meta d, title, desc, image; vector<Item> items; };
static const char* opt(const char* p) { return p ? p : ""; }
static void check_item(const nostr_list_item* g, const Item& w, size_t i, const string& tr) {
  CHECK(g && g->tag_type && g->value, "%s: item %zu missing", tr.c_str(), i); vector<string> v{g->tag_type, g->value}; if (g->relay_hint || g->petname) v.push_back(opt(g->relay_hint)); if (g->petname) v.push_back(g->petname);
  CHECK(v == w.v && g->is_private == w.priv, "%s: item %zu is %s %s (private %d), expected %s %s (%d)", tr.c_str(), i, v[0].c_str(), vo::show(v[1]).c_str(), g->is_private, w.v[0].c_str(), vo::show(w.v[1]).c_str(), w.priv);
}
static void check_list(const nostr_list* l, const ListModel& m, const string& tr) {
  CHECK(nostr_list_count(l) == m.items.size(), "%s: %zu items, expected %zu", tr.c_str(), nostr_list_count(l), m.items.size()); for (size_t i = 0; i < m.items.size(); i++) check_item(nostr_list_get(l, i), m.items[i], i, tr); CHECK(!nostr_list_get(l, m.items.size()) && !nostr_list_get(l, SIZE_MAX), "item beyond the end");
  auto f = [&](const char* g, const Meta& w, const char* n) { CHECK(!g == !w.has && (!g || w.v == g), "%s: %s is %s expected %s", tr.c_str(), n, g ? g : "(none)", w.has ? w.v.c_str() : "(none)"); }; f(l->d_tag, m.d, "d"); f(l->title, m.title, "title"); f(l->description, m.desc, "description"); f(l->image, m.image, "image"); CHECK(l->kind == m.kind, "kind");
}
static vector<vector<string>> list_tags(const ListModel& m) { vector<vector<string>> t; if (m.kind >= 30000 && m.kind < 40000) { t.push_back({"d", m.d.has ? m.d.v : ""}); if (m.title.has) t.push_back({"title", m.title.v}); if (m.desc.has) t.push_back({"description", m.desc.v}); if (m.image.has) t.push_back({"image", m.image.v}); } for (auto& i : m.items) if (!i.priv) t.push_back(i.v); return t; }
static uint32_t g_list_kind(Src& s) { static const uint32_t k[] = {10000, 10001, 10003, 30000, 30003, 39999, 29999, 40000, 3, 65535, 30078}; return s.pick(k); }
PROP(P25, history, 8) {
  ListModel m; m.kind = g_list_kind(s); nostr_list* l = nullptr; heap_reset(); CHECK(nostr_list_create(&l, (uint16_t)m.kind) == NOSTR_OK, "create"); auto fr = defer([&] { nostr_list_free(l); }); unsigned ops = 1 + (unsigned)s.size(60); string tr; bool privs = s.chance(1, 6), self = false; clock_virtual = true; clock_now = 1700000000 + (int64_t)s.below(1000); auto cv = defer([] { clock_virtual = false; });
  auto txt = [&]() { string t = s.chance(1, 20) ? string(200 + s.below(2000), 'v') : s.chance(1, 4) ? g_cstr(s, 12) : g_text(s, 30); return t; };
  if (s.chance(1, 20)) { size_t n = s.pick({60, 124, 252, 300}) + s.below(12); for (size_t i = 0; i < n; i++) { string v = strf("h%zu", i); bool w = privs && i % 3 == 0; CHECK(nostr_list_add_hashtag(l, v.c_str(), w) == NOSTR_OK, "add hashtag %zu", i); Item it; it.priv = w; it.v = {"t", v}; m.items.push_back(it); } tr += strf("[%zu]", n); }
  while (ops--) {
    bool pv = privs && s.flip(); Item it; it.priv = pv; nostr_error_t e; bool ok = true; string a = txt(), b = txt(), d = txt(); bool hb = s.flip(), hd = s.flip(); CStr ca(a), cb(b), cd(d); string id = s.chance(1, 8) ? (s.flip() ? upper(g_hexid(s)) : g_hexid(s).substr(s.below(3)) + (s.flip() ? "0" : "g")) : g_hexid(s); string junk; bool idok = strict_hex(id, 32, &junk); CStr ci(id);
    switch (s.below(14)) {
      case 0: e = nostr_list_add_pubkey(l, ci, hb ? cb.p : nullptr, hd ? cd.p : nullptr, pv); ok = idok; it.v = {"p", id}; if (hb || hd) it.v.push_back(hb ? b : ""); if (hd) it.v.push_back(d); break;
      case 1: e = nostr_list_add_event(l, ci, hb ? cb.p : nullptr, pv); ok = idok; it.v = {"e", id}; if (hb) it.v.push_back(b); break;
      case 2: e = nostr_list_add_hashtag(l, ca, pv); ok = !a.empty(); it.v = {"t", a}; break;
      case 3: e = nostr_list_add_word(l, ca, pv); ok = !a.empty(); it.v = {"word", a}; break;
      case 4: e = nostr_list_add_relay(l, ca, pv); ok = !a.empty(); it.v = {"relay", a}; break;
      case 5: e = nostr_list_add_reference(l, ca, hb ? cb.p : nullptr, pv); ok = !a.empty(); it.v = {"a", a}; if (hb) it.v.push_back(b); break;
      case 6: e = nostr_list_add_group(l, ca, cb, hd ? cd.p : nullptr, pv); ok = !a.empty() && !b.empty(); it.v = {"group", a, b}; if (hd) it.v.push_back(d); break;
      case 7: e = nostr_list_add_emoji(l, ca, cb, pv); ok = !a.empty() && !b.empty(); it.v = {"emoji", a, b}; break;
      case 8: case 9: { size_t i = s.below(s.chance(1, 4) ? std::min<size_t>(m.items.size(), 3) + 1 : m.items.size() + 2); e = nostr_list_remove(l, i); CHECK((e == NOSTR_OK) == (i < m.items.size()), "%s: remove %zu of %zu -> %d", tr.c_str(), i, m.items.size(), e); if (e == NOSTR_OK) m.items.erase(m.items.begin() + i); tr += "-"; continue; }
      case 10: { // values taken from the list itself
        if (m.items.empty()) continue; size_t i = s.below(m.items.size()); const nostr_list_item* g = nostr_list_get(l, i); string v = m.items[i].v[1]; bool hint = g->relay_hint; e = nostr_list_add_reference(l, g->value, g->relay_hint, pv); ok = !v.empty(); it.v = {"a", v}; if (hint) it.v.push_back(m.items[i].v[2]); self = true; break; }
      default: { Meta* f; char** g; nostr_error_t (*set)(nostr_list*, const char*); switch (s.below(4)) { case 0: f = &m.d; g = &l->d_tag; set = nostr_list_set_d_tag; break; case 1: f = &m.title; g = &l->title; set = nostr_list_set_title; break; case 2: f = &m.desc; g = &l->description; set = nostr_list_set_description; break; default: f = &m.image; g = &l->image; set = nostr_list_set_image; }
        if (s.chance(1, 6) && f->has) { size_t k = s.below(f->v.size() + 1); CHECK(set(l, *g + k) == NOSTR_OK, "set to its own value"); f->v = f->v.substr(k); self = true; } else if (s.chance(1, 5)) { CHECK(set(l, nullptr) == NOSTR_OK, "unset"); *f = Meta(); } else { CHECK(set(l, ca) == NOSTR_OK, "set"); f->has = true; f->v = a; } tr += "m"; continue; } }
    CHECK((e == NOSTR_OK) == ok, "%s: add %s -> %d", tr.c_str(), it.v[0].c_str(), e); if (ok) m.items.push_back(it); tr += pv ? "P" : "+";
  }
  check_list(l, m, tr); if (self) c.label("values from the list itself"); size_t np = 0; for (auto& i : m.items) np += i.priv; c.label(np ? "private items" : "public only"); c.sample(tr); if (tr.size() > 1) c.nontrivial();
  if (np == 0) { nostr_event* x = (nostr_event*)1; CHECK(nostr_list_to_event(l, nullptr, &x) == NOSTR_OK, "to_event"); EvPtr xp(x); Ev g = from_lib(x); CHECK(g.kind == m.kind && g.content.empty() && g.tags == list_tags(m) && g.created_at == clock_now, "event %s", show(g).c_str()); check_list(l, m, "after to_event");
    nostr_list* r = nullptr; CHECK(nostr_list_from_event(x, nullptr, &r) == NOSTR_OK, "from_event"); auto f2 = defer([&] { nostr_list_free(r); }); ListModel w = m; if (m.kind < 30000 || m.kind >= 40000) w.d = w.title = w.desc = w.image = Meta(); else if (!w.d.has) { w.d.has = true; } check_list(r, w, "read back"); }
  else { nostr_event* x = nullptr; size_t live = heap_live(); CHECK(nostr_list_to_event(l, nullptr, &x) != NOSTR_OK && !x && heap_live() == live, "private items without a key"); }
}
PROP(P25, read_foreign, 6) {
  Ev e; e.kind = g_list_kind(s); ListModel m; m.kind = e.kind; bool enc = s.chance(1, 6); e.content = enc ? "AgKx" + g_text(s, 20) : ""; size_t n = s.chance(1, 15) ? 60 + s.below(200) : s.below(12);
  while (n--) { vector<string> t = g_tag(s, 6); static const char* nm[] = {"p", "e", "t", "a", "word", "relay", "group", "emoji", "d", "title", "description", "image", "D", "titles", "alt", ""}; if (s.chance(4, 5)) t[0] = s.pick(nm); e.tags.push_back(t); if (t.size() < 2) continue; Meta x; x.has = true; x.v = t[1]; if (t[0] == "d") m.d = x; else if (t[0] == "title") m.title = x; else if (t[0] == "description") m.desc = x; else if (t[0] == "image") m.image = x; else { Item i; i.v = t; if (i.v.size() > 4) i.v.resize(4); m.items.push_back(i); } }
  EvPtr x(lib_event(e)); e = from_lib(x.e); nostr_list* l = nullptr; heap_reset(); nostr_error_t r = nostr_list_from_event(x.e, nullptr, &l); CHECK(r == NOSTR_OK, "from_event -> %d", r); check_list(l, m, "foreign"); nostr_list_free(l); CHECK(heap_live() == 0, "leak"); c.label(enc ? "encrypted part, no key" : "public"); if (m.items.size() > 1) c.nontrivial(); c.sample(show(e)); string w; CHECK(same(e, from_lib(x.e), &w), "reading changed the event");
}

// ---------------------------------------------------------------- P26
static const char* CS = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
struct Inv { string text; bool has = false; bool known = true, beyond = false, upper = false; uint64_t msat = 0; };     // known: whether the specification says what the amount is
static Inv g_inv(Src& s) {
  Inv v; string hrp = "lnbc"; uint64_t n = 0; switch (s.below(8)) { case 0: break; case 1: n = 1 + s.below(9); break; case 2: n = s.u64(8); break; default: n = 1 + s.below(s.flip() ? 100 : 3000000); } bool amt = n > 0; char mul = amt ? "munp\0"[s.below(5)] : 0;
  if (amt) { hrp += strf("%llu", (unsigned long long)n); if (mul) hrp += mul; uint64_t f = mul == 'm' ? 100000000ull : mul == 'u' ? 100000ull : mul == 'n' ? 100ull : mul == 'p' ? 0 : 100000000000ull; unsigned __int128 p = mul == 'p' ? n / 10 : (unsigned __int128)n * f; if (mul == 'p' && n % 10) v.known = false; if (p > 2100000000000000000ull) v.known = false; v.has = true; v.msat = (uint64_t)p; v.beyond = p > UINT64_MAX; }
  if (amt && s.chance(1, 8)) { static const char* odd[] = {"x", "mm", "mu", "pn", "k", "q", "m5", ".", "-", "u0", " "}; hrp = strf("lnbc%llu", (unsigned long long)n) + s.pick(odd); v.has = false; v.known = true; v.beyond = false; v.msat = 0; }   // names no amount
  if (amt && s.chance(1, 10)) { string d(1, (char)('1' + s.below(9))); for (size_t i = 19 + s.below(12); i--;) d += (char)('0' + s.below(10)); if (d.size() > 20 || d > "18446744073709551616") { mul = "munp\0"[s.below(5)]; if (d.size() > 21) { hrp = "lnbc" + d; if (mul) hrp += mul; v.has = true; v.known = false; v.beyond = true; v.msat = 0; } } }   // more than any counter holds
  if (s.chance(1, 10)) v.upper = true;
  string data; size_t k = s.chance(1, 4) ? 100 + s.below(s.chance(1, 4) ? 2000 : 200) : 7 + s.below(20); while (k--) data += CS[s.below(32)]; if (s.chance(1, 3)) { string lead = s.flip() ? string(1, "munp"[s.below(4)]) : ""; lead += lead.empty() ? "" : ""; if (lead == "m" || lead == "u" || lead == "n" || lead == "p") data = lead + data; } if (s.chance(1, 6)) data += "lnbc5"; for (auto& ch : data) if (ch == '1') ch = 'q'; v.text = hrp + "1" + data; if (v.upper) v.text = upper(v.text); return v;
}
static string g_amount(Src& s, uint64_t* v) { *v = s.flip() ? 1 + s.below(100000) : s.u64(8); if (!*v) *v = 1; return strf("%llu", (unsigned long long)*v); }
PROP(P26, create_request, 5) {
  uint64_t amt = s.flip() ? s.below(1000000) : s.u64(8); string pk = pubkey_n((unsigned)s.below(5)), ln = g_text(s, 60), con = g_text(s, 100); bool hl = s.flip(), hc = s.chance(2, 3); size_t n = s.chance(1, 10) ? 0 : s.chance(1, 4) ? 13 + s.below(8) : 1 + s.below(5); vector<string> rel; while (n--) rel.push_back(g_url(s)); vector<const char*> rp; for (auto& r : rel) rp.push_back(r.c_str()); nostr_key k; memcpy(k.data, pk.data(), 32); CStr cl(ln), cc(con); nostr_event* x = nullptr; heap_reset();
  nostr_error_t e = nostr_zap_create_request(&x, amt, &k, hl ? cl.p : nullptr, hc ? cc.p : nullptr, rp.data(), rp.size()); c.nontrivial(); c.label(rel.empty() ? "no relays" : rel.size() > 15 ? "many relays" : "few relays"); if (rel.empty()) { CHECK(e != NOSTR_OK && heap_live() == 0, "request without relays -> %d", e); return; } CHECK(e == NOSTR_OK, "create_request with %zu relays -> %d", rel.size(), e); EvPtr xp(x); Ev g = from_lib(x); vector<vector<string>> w{{"relays"}, {"amount", strf("%llu", (unsigned long long)amt)}}; for (auto& r : rel) w[0].push_back(r); if (hl) w.push_back({"lnurl", ln}); w.push_back({"p", hex(pk)});
  CHECK(g.kind == 9734 && g.content == (hc ? con : ""), "kind %u content %s", g.kind, g.content.c_str()); auto sorted = [](vector<vector<string>> t) { std::sort(t.begin(), t.end()); return t; }; CHECK(sorted(g.tags) == sorted(w), "tags %s", show(g).c_str()); c.sample(show(g));
}
static Ev g_request(Src& s, uint64_t* amt, bool with_amount) { Ev q; q.kind = 9734; q.created_at = 1700000000 + (int64_t)s.below(1000); q.content = g_text(s, 40); q.tags.push_back({"relays", "wss://r.example"}); if (with_amount) q.tags.push_back({"amount", g_amount(s, amt)}); q.tags.push_back({"p", hex(pubkey_n(2))}); if (s.flip()) q.tags.push_back({"e", g_hexid(s)}); if (s.chance(1, 4)) for (size_t i = 1 + s.below(20); i--;) q.tags.push_back({s.flip() ? "t" : "P", g_text(s, 12)}); for (size_t i = q.tags.size(); i > 1; i--) std::swap(q.tags[i - 1], q.tags[s.below(i)]); q.seal(privkey_n(5)); return q; }
PROP(P26, parse_receipt, 8) {
  Ev r; r.kind = s.chance(7, 8) ? 9735 : 9734 + (uint32_t)s.below(3) * 2; Inv inv; bool hb = s.chance(5, 6), hp = s.chance(1, 2), hq = s.chance(3, 4), badq = hq && s.chance(1, 6); uint64_t ra; Ev q = g_request(s, &ra, s.flip()); string pre; if (hb) { inv = g_inv(s); r.tags.push_back({"bolt11", inv.text}); } if (hp) { pre = s.chance(5, 6) ? g_hexid(s) : string(s.flip() ? s.below(65) : 63 + s.below(8), 'a'); r.tags.insert(r.tags.begin() + s.below(r.tags.size() + 1), {"preimage", pre}); } if (hq) { string t = q.json_text(); if (badq) t = s.flip() ? "not json" : t.substr(0, t.size() / 2); r.tags.insert(r.tags.begin() + s.below(r.tags.size() + 1), {"description", t}); }
  size_t n = s.below(4); while (n--) { static const char* nm[] = {"p", "P", "Bolt11", "e", "descriptions", "bolt11"}; vector<string> t{s.pick(nm), "lnbc9m1qqqqqqq"}; if (t[0] == "bolt11" || s.chance(1, 4)) t.resize(1); r.tags.insert(r.tags.begin() + s.below(r.tags.size() + 1), t); } bool dup = s.chance(1, 10); if (dup) { if (hb) r.tags.push_back({"bolt11", g_inv(s).text}); if (hq) r.tags.push_back({"description", q.json_text()}); }
  EvPtr x(lib_event(r)); uint64_t amt = 0xdeadbeef; char* b = (char*)0x5a5a; char pr[65]; memset(pr, 0x5a, 65); nostr_event* zq = (nostr_event*)0x5a5a; bool wa = s.chance(3, 4), wb = s.chance(3, 4), wp = s.flip(), wq = s.flip(); heap_reset(); nostr_error_t e = nostr_zap_parse_receipt(x.e, wa ? &amt : nullptr, wb ? &b : nullptr, wp ? pr : nullptr, wq ? &zq : nullptr);
  if (e == NOSTR_OK) { uint64_t a2 = 7; char* b2 = nullptr; if (nostr_zap_parse_receipt(x.e, &a2, &b2, nullptr, nullptr) == NOSTR_OK) { if (wa) CHECK(a2 == amt, "amount %llu when asked alone or with other fields, %llu with the invoice", (unsigned long long)amt, (unsigned long long)a2); if (wb) CHECK(!b == !b2 && (!b || string(b) == b2), "invoice %s when asked with other fields", b ? b : "(none)"); vf_free(b2); } }
  bool rec = r.kind == 9735, ok = rec && !(badq && wq); c.label(!rec ? "another kind" : dup ? "repeated tags" : badq ? "damaged request" : hb ? inv.has ? "amount" : "no amount" : "no invoice"); if (rec) c.nontrivial(); c.sample(inv.text.substr(0, 40)); if (dup && hq && badq) { if (e == NOSTR_OK) { if (wb && b) vf_free(b); if (wq && zq) nostr_event_destroy(zq); } CHECK(heap_live() == 0, "leak"); return; } CHECK((e == NOSTR_OK) == ok, "parse_receipt -> %d", e);
  if (e != NOSTR_OK) { CHECK(heap_live() == 0, "a refused receipt left allocations"); return; } if (wb) { if (hb && !dup) CHECK(b && inv.text == b, "bolt11 %s", b ? b : "(none)"); if (!hb) CHECK(!b, "an invoice of a receipt without one"); } if (wa && (!dup || !hb)) { if (!hb || !inv.has) CHECK(amt == 0, "amount %llu of %s", (unsigned long long)amt, hb ? inv.text.c_str() : "no invoice"); else if (inv.beyond) CHECK(amt == 0 || amt == UINT64_MAX, "amount %llu of %s", (unsigned long long)amt, inv.text.c_str()); else if (inv.known) CHECK(amt == inv.msat, "amount %llu of %s expected %llu", (unsigned long long)amt, inv.text.c_str(), (unsigned long long)inv.msat); }
  if (wp) { if (hp) { if (pre.size() <= 64) CHECK(pre == pr, "preimage"); else CHECK(pr[64] == 0 || memchr(pr, 0, 64), "preimage not terminated"); } else CHECK(!*pr, "a preimage of a receipt without one"); } if (wq) { if (hq) { CHECK(zq, "request"); string w; CHECK(same(q, from_lib(zq), &w), "embedded request: %s", w.c_str()); } else CHECK(!zq, "a request of a receipt without one"); } if (wb && b) vf_free(b); if (wq && zq) nostr_event_destroy(zq); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
PROP(P26, verify, 8) {
  uint64_t ra = 0; bool ha = s.chance(5, 6); Ev q = g_request(s, &ra, ha); Ev emb = q; Inv inv = g_inv(s); const char* what = "intact"; bool ok = true, known = true; bool match = s.chance(3, 4); if (match) { inv = Inv(); inv.has = true; uint64_t sat = 1 + s.below(1000000); ra = sat * 1000; int f = (int)s.below(3); inv.text = f == 0 ? strf("lnbc%llun1", (unsigned long long)sat * 10) : f == 1 ? strf("lnbc%llup1", (unsigned long long)sat * 10000) : strf("lnbc%lluu1", (unsigned long long)(sat = (1 + s.below(10000)) * 100) / 100); if (f == 2) ra = sat * 1000; for (int i = 0; i < 20; i++) inv.text += CS[s.below(32)]; inv.msat = ra; if (ha) { for (auto& t : q.tags) if (t[0] == "amount") t[1] = strf("%llu", (unsigned long long)ra); q.seal(privkey_n(5)); emb = q; } }
  Ev r; r.kind = 9735; r.created_at = 1700001000; Key srv{privkey_n(6), pubkey_n(6)}; bool hb = true, hq = true, tamper = false; string server = hex(srv.pub), desc;
  switch (s.below(13)) { case 12: what = "request id altered"; q.id[s.below(32)] ^= (char)(1 << s.below(8)); ok = false; break; case 0: what = "another server"; server = hex(pubkey_n(7)); ok = false; break; case 1: what = "near server key"; { size_t i = s.below(64); server[i] = server[i] == '0' ? '1' : '0'; } ok = false; break; case 2: what = "short server key"; server.resize(s.below(64)); ok = false; break; case 3: what = "another request"; emb.content += "!"; emb.seal(privkey_n(5)); ok = false; break; case 4: what = "request altered under its id"; emb.content += "!"; ok = false; break; case 5: what = "no request"; hq = false; ok = false; break; case 6: what = "altered after signing"; tamper = true; ok = false; break; case 7: what = "receipt kind"; r.kind = 9734 + 2 * (uint32_t)s.below(2); ok = false; break; case 8: what = "request kind"; q.kind = 1; q.seal(privkey_n(5)); emb = q; ok = false; break; case 9: what = "amount altered under its id"; for (auto& t : emb.tags) if (t[0] == "amount") t[1] += "0"; ok = !ha; break; default: break; }
  if (ha && inv.has && ra != inv.msat && inv.known) { ok = false; what = "amounts differ"; } if (!inv.known || !inv.has || inv.msat == 0) known = !ok ? true : false; if (!inv.known) known = !ok; desc = emb.json_text(); if (s.flip()) r.tags.push_back({"p", hex(pubkey_n(2))}); if (hb) r.tags.push_back({"bolt11", inv.text}); if (hq) r.tags.insert(r.tags.begin() + s.below(r.tags.size() + 1), {"description", desc}); r.seal(srv.priv); if (tamper) { switch (s.below(3)) { case 0: r.content += "x"; break; case 1: r.created_at++; break; default: r.sig[s.below(64)] ^= 1; } }
  EvPtr xr(lib_event(r)), xq(lib_event(q)); CStr cs(server); size_t live = heap_live(); heap_reset(); nostr_error_t e = nostr_zap_verify(xr.e, xq.e, cs); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); c.nontrivial(); c.label(what); c.sample(strf("%s amount %llu invoice %s", what, (unsigned long long)ra, inv.text.substr(0, 30).c_str())); if (known) CHECK((e == NOSTR_OK) == ok, "%s: request amount %llu, invoice %s -> %d", what, (unsigned long long)(ha ? ra : 0), inv.text.c_str(), e);
}
PROP(P26, lnurl, 2) {
  string data = s.chance(1, 10) ? s.bulk(200 + s.below(900)) : s.bulk(s.below(120)), h = "lnurl", what = "valid"; uint32_t k = 1; bool ok = true; int m = (int)s.below(9); if (m == 0) { h = s.flip() ? "lnurlp" : s.flip() ? "lnur" : "lnurl" + string(s.below(78), s.flip() ? 'a' : '1'); ok = h == "lnurl"; what = "prefix"; } if (m == 1) { k = 0x2bc830a3; ok = false; what = "bech32m"; }
  string t = bech32_encode(h, data, k); if (m == 2) { t[6 + s.below(t.size() - 6)] = "b1io!Q\x80"[s.below(7)]; ok = false; what = "character"; } if (m == 3) { size_t i = 6 + s.below(t.size() - 6); char n = CS[s.below(32)]; if (n == t[i]) n = t[i] == 'q' ? 'p' : 'q'; t[i] = n; ok = false; what = "checksum"; } if (m == 4) { t.resize(s.below(12)); ok = false; what = "cut"; } if (t.size() > 2000) throw Discard();
  CStr ct(t); nostr_error_t e = nostr_zap_validate_lnurl(ct, nullptr, nullptr); c.label(what); c.nontrivial(); c.sample(t); CHECK((e == NOSTR_OK) == ok, "%s: validate_lnurl(%s) -> %d", what.c_str(), vo::show(t, 200).c_str(), e);
}

// ---------------------------------------------------------------- P27
struct Rl { string url; bool r, w; };
static bool ok_url(const string& u) { size_t p = u.compare(0, 6, "wss://") == 0 ? 6 : u.compare(0, 5, "ws://") == 0 ? 5 : 0; return p && u.size() <= 2048 && u.size() > p && !strchr("/:?#@ ", u[p]); }
static string g_rurl(Src& s) { if (s.chance(1, 8)) { static const char* bad[] = {"", "ws://", "wss://", "http://x.y", "wss:///x", "ws://:80", "WSS://up.example", "wss://@h", "relay.example", "wss:/x", "ws:// x", "wss://?q", " wss://x"}; return s.pick(bad); } if (s.chance(1, 20)) return "wss://" + string(2030 + s.below(20), 'l'); if (s.chance(1, 6)) { static const char* path[] = {"/Inbox", "/inbox", "/INBOX", "/inbox/", "/inbox?a", "/inbox?A"}; return strf("wss://r%u.example", (unsigned)s.below(3)) + s.pick(path); } if (s.flip()) return strf("wss://r%u.example", (unsigned)s.below(12)); return g_url(s); }
static void add_model(vector<Rl>& m, const string& u, bool r, bool w) { if (!ok_url(u) || (!r && !w) || m.size() >= 256) return; for (auto& x : m) if (x.url == u) return; m.push_back({u, r, w}); }
static void check_rl(const nostr_relay_list* l, const vector<Rl>& m, const char* what) {
  CHECK(nostr_relay_list_count(l) == m.size(), "%s: %zu relays, expected %zu", what, nostr_relay_list_count(l), m.size()); for (size_t i = 0; i < m.size(); i++) { auto* e = nostr_relay_list_get(l, i); CHECK(e && m[i].url == e->url && e->read == m[i].r && e->write == m[i].w, "%s: relay %zu", what, i); } CHECK(!nostr_relay_list_get(l, m.size()), "relay beyond the end");
  for (int k = 0; k < 2; k++) { char** u = (char**)1; size_t n = 99; vector<string> w; for (auto& x : m) if (k ? x.w : x.r) w.push_back(x.url); CHECK((k ? nostr_relay_list_get_write_relays(l, &u, &n) : nostr_relay_list_get_read_relays(l, &u, &n)) == NOSTR_OK && n == w.size(), "%s: %zu %s relays expected %zu", what, n, k ? "write" : "read", w.size()); for (size_t i = 0; i < n; i++) CHECK(w[i] == u[i], "%s relay %zu", k ? "write" : "read", i); nostr_relay_list_free_urls(u, n); }
}
PROP(P27, history, 6) {
  nostr_relay_list* l = nullptr; heap_reset(); CHECK(nostr_relay_list_create(&l) == NOSTR_OK, "create"); vector<Rl> m; size_t n = s.chance(1, 10) ? 250 + s.below(150) : s.below(30); bool many = n > 100; string tr; clock_virtual = true; clock_now = 1700000000 + (int64_t)s.below(100); auto cv = defer([] { clock_virtual = false; });
  for (size_t i = 0; i < n; i++) { string u = many && s.chance(9, 10) ? strf("wss://m%zu.example", i) : g_rurl(s); bool r = s.chance(3, 4), w = s.chance(3, 4); CStr cu(u); size_t before = m.size(); add_model(m, u, r, w); nostr_error_t e = nostr_relay_list_add(l, cu, r, w); CHECK((e == NOSTR_OK) == (m.size() > before), "add %s (%d/%d) to %zu -> %d", vo::show(u, 100).c_str(), r, w, before, e); }
  check_rl(l, m, "list"); nostr_event* x = nullptr; CHECK(nostr_relay_list_to_event(l, &x) == NOSTR_OK, "to_event of %zu", m.size()); Ev g = from_lib(x); vector<vector<string>> w; for (auto& r : m) { w.push_back({"r", r.url}); if (!r.r || !r.w) w.back().push_back(r.r ? "read" : "write"); } CHECK(g.kind == 10002 && g.tags == w && g.content.empty() && g.created_at == clock_now, "event %s", show(g).c_str()); nostr_relay_list* b = nullptr; CHECK(nostr_relay_list_from_event(x, &b) == NOSTR_OK, "from_event"); check_rl(b, m, "read back"); nostr_relay_list_free(b); nostr_event_destroy(x); nostr_relay_list_free(l); CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str()); if (m.size() > 1) c.nontrivial(); c.label(m.size() == 256 ? "full" : m.size() > 8 ? "grown" : "small"); c.sample(strf("%zu relays", m.size()));
}
PROP(P27, read_foreign, 5) {
  Ev e; static const uint32_t other[] = {10001, 10003, 10050, 10006, 10007, 30002, 0, 2, 1, 10002 + 128, 10002 - 256}; e.kind = s.chance(7, 8) ? 10002 : s.pick(other); e.content = g_text(s, 10); vector<Rl> m; size_t n = s.chance(1, 12) ? 260 + s.below(160) : s.below(14); bool many = n > 100;
  for (size_t i = 0; i < n; i++) { string u = many ? strf("wss://m%zu.example", i) : g_rurl(s); vector<string> t{"r", u}; static const char* mk[] = {"read", "write", "", "Read", "both", "readwrite", "read "}; string k; if (s.chance(2, 3)) { k = s.flip() ? (s.flip() ? "read" : "write") : s.pick(mk); t.push_back(k); if (s.chance(1, 6)) t.push_back(s.flip() ? "write" : "x"); } switch (s.chance(1, 5) ? s.below(3) : 9) { case 0: t[0] = s.flip() ? "R" : "relay"; break; case 1: t.resize(1); break; case 2: t[0] = "p"; break; default: add_model(m, u, k != "write", k != "read"); } e.tags.push_back(t); }
  EvPtr x(lib_event(e)); nostr_relay_list* l = nullptr; heap_reset(); nostr_error_t r = nostr_relay_list_from_event(x.e, &l); c.label(e.kind == 10002 ? "relay list" : "another kind"); c.nontrivial(); c.sample(show(e)); CHECK((r == NOSTR_OK) == (e.kind == 10002), "from_event of kind %u -> %d", e.kind, r); if (r == NOSTR_OK) { check_rl(l, m, "foreign"); nostr_relay_list_free(l); } CHECK(heap_live() == 0, "leak");
}
