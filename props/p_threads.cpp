// P35 thread safety, under ThreadSanitizer: concurrent calls give the answers they give alone, and touch nothing unsynchronized.
#include "readers.h"
#include "vf_ws.h"
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <map>

static int inited = (before_case = [] { static bool once = false; if (once) return; once = true; nostr_config c; nostr_config_get_defaults(&c); nostr_init_with_config(&c); nostr_init(); for (unsigned i = 0; i < 17; i++) pubkey_n(i); secp(); }, 0);

// ---- configuration: every configuration in use carries one number in several fields
static nostr_config conf(uint32_t k) { nostr_config c; nostr_config_get_defaults(&c); c.max_sessions = 1 + k; c.session_timeout_secs = 60 + k; c.max_permissions = 1 + k % 1000; c.relay_connect_timeout_ms = 1000 + k; c.relay_response_timeout_ms = 1000 + k; c.max_tag_values = 1 + k % 1000; c.debug_mode = (int)(k & 1); return c; }
static long conf_no(const nostr_config& c) { uint32_t k = c.max_sessions - 1; nostr_config w = conf(k); return memcmp(&w, &c, sizeof c) == 0 ? (long)k : -1; }
struct Seen { long from, to; };
static thread_local std::vector<Seen>* seen; static thread_local string conf_bad; static const int ud[4] = {0, 1, 2, 3};
template <int N> static void conf_cb(const nostr_config* o, const nostr_config* n, void* u) { if (u != &ud[N]) conf_bad = "the callback was called with the user data of another"; if (conf_no(*o) < 0 || conf_no(*n) < 0) conf_bad = "the callback got a mixture of two configurations"; if (seen) seen->push_back({conf_no(*o), conf_no(*n)}); }
static const nostr_config_callback CB[4] = {conf_cb<0>, conf_cb<1>, conf_cb<2>, conf_cb<3>};

// ---- operations
struct Shared { EvPtr ev[2]; nostr_filter_t f; bool fok = false; nostr_keypair kp; nostr_hd_key master; nostr_relay_list* rl = nullptr; nostr_list* l = nullptr; nostr_privkey sk; ~Shared() { nostr_filter_free(&f); nostr_relay_list_free(rl); nostr_list_free(l); } };
struct Op { string name; std::function<string()> run; };
static nostr_error_t http(const char* url, char** resp, size_t* len, void* u) { const string& t = *(const string*)u; *resp = (char*)malloc(t.size() + 1); memcpy(*resp, t.c_str(), t.size() + 1); *len = t.size(); return NOSTR_OK; }
static std::atomic<uint32_t> conf_next;
#ifdef VF_NOSCRYPT
enum { SEALED = 6 };
#else
enum { SEALED = 0 };
#endif
static Op g_op(Src& s, std::shared_ptr<Shared> sh) {
  switch (s.weighted({5, 4, 6, 2, 2, 3, 2, 3, 1, 1, 2, 1, 3, 3, SEALED, 2})) {
    case 0: { int k = (int)s.weighted({5, 4, 4, 5, 3, 4, 5, 1, 2, 2, 2}); string t = g_text_for(s, k); if (t.size() > 3000) t.resize(3000); size_t bs = s.pick(vector<size_t>{4096, 256, 65, 20}); return {strf("read text %d", k), [=] { return eat(k, t, bs, sh->ev[0].e); }}; }
    case 1: { int i = s.flip(); return {"read shared event", [=] { Dig d; read_event(d, sh->ev[i].e, 4096, 0); return d.s; }}; }
    case 2: { string n; Scn sc = scenario(s, &n); return {n, [=] { Arm a; a.mode = -1; Run r; sc(a, r); return strf("%d", r.ok) + r.out; }}; }
    case 3: return {"shared filter", [=] { Dig d; if (sh->fok) { read_filter(d, &sh->f, sh->ev[0].e); read_filter(d, &sh->f, sh->ev[1].e); } return d.s; }};
    case 4: { int b = s.flip(); return {"generate a key", [=] { nostr_keypair kp; nostr_privkey p; nostr_key k; bool ok; if (b) { ok = nostr_keypair_generate(&kp) == NOSTR_OK && nostr_keypair_validate(&kp) == NOSTR_OK; if (ok) p = *nostr_keypair_private_key(&kp), k = *nostr_keypair_public_key(&kp); } else ok = nostr_key_generate(&p, &k) == NOSTR_OK; if (!ok) return string("failed"); string pub; pub_of(string((const char*)p.data, 32), &pub); return string(pub == string((const char*)k.data, 32) ? "matching" : "the public key is of another private key"); }}; }
    case 5: { Ev e = g_hostile(s); int b = (int)s.below(3); for (auto& t : e.tags) for (auto& v : t) v = v.substr(0, v.find('\0')); e.content = e.content.substr(0, e.content.find('\0')); return {"sign with the shared key", [=] { EvPtr x(lib_event(e)); nostr_error_t r = nostr_event_sign(x.e, &sh->sk); string o = strf("%d", r); if (r == NOSTR_OK) { char h[65]; nostr_event_get_id_hex(x.e, h); o += h; o += strf("%d", nostr_event_verify(x.e)); if (b) { char* j = nullptr; nostr_event_to_json(x.e, &j); nostr_event* y = nullptr; o += strf("%d", nostr_event_from_json(j, &y)); if (y) { o += strf("%d", nostr_event_verify(y)); nostr_event_destroy(y); } nostr_free(j); } } return o; }}; }
    case 6: { Ev e = g_ev(s); int d = 1 + (int)s.below(5), n = 1 + (int)s.below(3); bool th = s.chance(2, 3); return {th ? "mine with threads" : "mine", [=] { EvPtr x(lib_event(e)); nostr_error_t r = th ? nostr_nip13_mine_event_threaded(x.e, d, n, 3000) : nostr_nip13_mine_event(x.e, d, 3000); string o = strf("%d ", r); if (r == NOSTR_OK) o += strf("%d", nostr_nip13_verify_pow(x.e, d)); return o; }}; }
    case 7: { uint32_t k = 1 + conf_next.load() % 3000; int w = (int)s.below(5); conf_next = conf_next.load() + 1; auto pause = s.below(3); return {"configuration", [=] {   // executed twice (alone, then concurrently): the outcome must be the same
      const nostr_config* g = nostr_config_get_current(); if (!g) return string("no configuration"); nostr_config c0 = *g; if (conf_no(c0) < 0) return string("a mixture of two configurations"); if (w < 3) { nostr_config c = conf(k); if (nostr_config_update(&c) != NOSTR_OK) return string("refused"); } else if (w == 3) nostr_config_set_callback(CB[k & 3], (void*)&ud[k & 3]); else { nostr_config c = conf(k); c.max_tags = 5000; if (nostr_config_update(&c) == NOSTR_OK) return string("accepted"); }
      for (size_t i = 0; i < pause; i++) std::this_thread::yield(); if (memcmp(g, &c0, sizeof c0) != 0 && w >= 3) return string("the configuration handed out changed"); return conf_bad.empty() ? string("fine") : conf_bad; }}; }
    case 8: return {"init", [=] { return strf("%d%d", nostr_init(), nostr_init_with_config(nullptr)); }};
    case 9: return {"features", [=] { string o; for (int i = 0; i < 70; i++) o += strf("%d", nostr_feature_nip_supported(i)); o += nostr_feature_list_enabled(); o += nostr_feature_crypto_backend_info(); for (int i = -2; i < 20; i++) { o += nostr_error_string((nostr_error_t)i); } return o; }};
    case 10: { string path = s.pick(vector<string>{"m/44'/1237'/0'/0/0", "m/0", "m/1'/2", "m"}); int n = s.pick(vector<int>{12, 24}); return {"shared HD key and a mnemonic", [=] { nostr_hd_key o; Dig d; nostr_error_t r = nostr_hd_key_derive_path(&sh->master, path.c_str(), &o); d.n("r", r); if (r == NOSTR_OK) d.b("k", &o.pubkey, 32); char m[400]; d.n("g", nostr_mnemonic_generate(n, m, sizeof m)); d.n("v", nostr_mnemonic_validate(m)); return d.s; }}; }
    case 11: { string pk = hex(pubkey_n(2)); auto doc = std::make_shared<string>("{\"names\":{\"bob\":\"" + pk + "\"},\"relays\":{\"" + pk + "\":[\"wss://r.example\"]}}"); return {"identifier", [=] { char** rl = nullptr; size_t n = 0; nostr_error_t r = nostr_nip05_verify("bob@example.com", pk.c_str(), http, doc.get(), &rl, &n); Dig d; d.n("r", r); if (r == NOSTR_OK) { read_relays(d, rl, n); nostr_nip05_free_relays(rl, n); } return d.s; }}; }
    case 12: { unsigned i = (unsigned)s.below(6); string w = g_text(s, 20); w = w.substr(0, w.find('\0')); return {"own keys", [=] { Dig d; nostr_privkey p, q; nostr_keypair kp; nostr_key k, k2; char b[200], h[200]; uint8_t z[64];
      memcpy(&p, privkey_n(i).data(), 32); memcpy(&k, pubkey_n(i).data(), 32); d.n("kp", nostr_keypair_from_private_key(&kp, &p)); d.n("v", nostr_keypair_validate(&kp)); d.b("pk", nostr_keypair_public_key(&kp), 32); d.n("xh", nostr_keypair_export_private_hex(&kp, h, sizeof h)); d.z("h", h); nostr_keypair kq; d.n("ph", nostr_keypair_from_private_hex(&kq, h)); d.b("kq", &kq, sizeof kq); nostr_keypair_destroy(&kq);
      d.n("nsec", nostr_privkey_to_bech32(&p, b, sizeof b)); d.z("b", b); d.n("from", nostr_privkey_from_bech32(b, &q)); d.b("q", &q, 32); d.n("hex", nostr_privkey_to_hex(&q, h, sizeof h)); d.z("h", h); d.n("unhex", nostr_privkey_from_hex(h, &p)); d.b("p", &p, 32);
      d.n("npub", nostr_key_to_bech32(&k, "npub", b, sizeof b)); d.z("b", b); d.n("from", nostr_key_from_bech32(b, &k2)); d.b("k", &k2, 32); d.n("hex", nostr_key_to_hex(&k2, h, sizeof h)); d.z("h", h); d.n("unhex", nostr_key_from_hex(h, &k)); d.b("k", &k, 32); d.n("note", nostr_event_id_to_bech32(k.data, b, sizeof b)); d.z("b", b); d.n("from", nostr_event_id_from_bech32(b, z)); d.b("z", z, 32);
      d.n("dh", nostr_key_ecdh(&p, &k, z)); d.b("z", z, 32); string seed = hex(p.data, 32) + w; nostr_hd_key m, c2; d.n("seed", nostr_hd_key_from_seed((const uint8_t*)seed.data(), 64, &m)); d.n("ch", nostr_hd_key_derive(&m, 0x80000000u + i, &c2)); d.b("c", &c2, sizeof c2); d.n("hkp", nostr_hd_key_to_keypair(&c2, &kq)); d.b("kq", &kq, sizeof kq);
      if (i == 0) { string mn = "abandon"; for (int j = 0; j < 10; j++) mn += " abandon"; mn += " about"; d.n("mk", nostr_mnemonic_to_keypair(mn.c_str(), w.c_str(), 0, &kq)); d.b("kq", &kq, sizeof kq); } nostr_keypair_destroy(&kp); return d.s; }}; }
    case 13: { unsigned i = (unsigned)s.below(6); string url = "wss://" + strf("h%u.example", i), w = g_text(s, 20); w = w.substr(0, w.find('\0')); unsigned kind = (unsigned)s.below(40000); return {"entities", [=] { Dig d; char b[2000]; char* rl = (char*)url.c_str(); EvPtr x(lib_event(Ev())); string text = "see";
      nostr_nprofile p, p2; memset(&p, 0, sizeof p); memcpy(&p.pubkey, pubkey_n(i).data(), 32); p.relays[0] = rl; p.relay_count = 1; if (nostr_nprofile_encode(&p, b, sizeof b) == NOSTR_OK) { d.z("p", b); text += " nostr:" + string(b); if (nostr_nprofile_decode(b, &p2) == NOSTR_OK) { d.b("k", &p2.pubkey, 32); read_relays(d, p2.relays, p2.relay_count); nostr_nprofile_free(&p2); } }
      nostr_nevent v, v2; memset(&v, 0, sizeof v); memcpy(v.id, pubkey_n(i + 1).data(), 32); v.relays[0] = rl; v.relay_count = 1; v.has_author = v.has_kind = 1; memcpy(&v.author, pubkey_n(i).data(), 32); v.kind = kind; if (nostr_nevent_encode(&v, b, sizeof b) == NOSTR_OK) { d.z("v", b); text += " nostr:" + string(b); if (nostr_nevent_decode(b, &v2) == NOSTR_OK) { d.b("i", v2.id, 32); d.n("kind", v2.kind); read_relays(d, v2.relays, v2.relay_count); nostr_nevent_free(&v2); } }
      nostr_naddr a, a2; memset(&a, 0, sizeof a); strcpy(a.identifier, strf("d%u", i).c_str()); memcpy(&a.pubkey, pubkey_n(i).data(), 32); a.kind = 30000 + i; a.relays[0] = rl; a.relay_count = 1; if (nostr_naddr_encode(&a, b, sizeof b) == NOSTR_OK) { d.z("a", b); text += " nostr:" + string(b); if (nostr_naddr_decode(b, &a2) == NOSTR_OK) { d.z("d", a2.identifier); d.n("kind", a2.kind); nostr_naddr_free(&a2); } }
      nostr_nrelay r, r2; memset(&r, 0, sizeof r); strcpy(r.url, url.c_str()); if (nostr_nrelay_encode(&r, b, sizeof b) == NOSTR_OK) { d.z("r", b); if (nostr_nrelay_decode(b, &r2) == NOSTR_OK) d.z("u", r2.url); }
      nostr_uri u; string full = "nostr:" + bech32_encode("nsec", privkey_n(i)); if (nostr_uri_parse(full.c_str(), &u) == NOSTR_OK) { if (nostr_uri_encode(&u, b, sizeof b) == NOSTR_OK) d.z("n", b); nostr_uri_free(&u); }
      nostr_event_set_content(x.e, text.c_str()); d.n("q", nostr_quote_tags_from_content(x.e)); string id = hex(pubkey_n(i + 1)), pk = hex(pubkey_n(i)); d.n("re", nostr_event_add_reply_tags(x.e, id.c_str(), url.c_str(), pk.c_str(), pk.c_str(), nullptr, nullptr)); d.n("me", nostr_event_add_mention_tag(x.e, pk.c_str(), url.c_str())); nostr_event* o = nullptr; if (nostr_reaction_create(&o, "+", id.c_str(), pk.c_str(), url.c_str(), 1) == NOSTR_OK) { d.t("o", ev_text(o)); nostr_event_destroy(o); } d.t("e", ev_text(x.e)); return d.s; }}; }
#ifdef VF_NOSCRYPT
    case 14: { unsigned i = (unsigned)s.below(5), j = (unsigned)s.below(5); string w = g_text(s, 60); w = w.substr(0, w.find('\0')); if (w.empty()) w = "x"; return {"sealed messages", [=] { Dig d; nostr_privkey p, q; nostr_key pp, pq; memcpy(&p, privkey_n(i).data(), 32); memcpy(&q, privkey_n(j).data(), 32); memcpy(&pp, pubkey_n(i).data(), 32); memcpy(&pq, pubkey_n(j).data(), 32); char *t = nullptr, *o = nullptr; size_t n = 0; bool cycle = nostr_nip44_encrypt(&p, &pq, w.c_str(), w.size(), &t) == NOSTR_OK && nostr_nip44_decrypt(&q, &pp, t, &o, &n) == NOSTR_OK && string(o, n) == w; d.n("44", cycle); vf_free(t); vf_free(o);
      t = o = nullptr; nostr_error_t e = nostr_nip04_encrypt(&p, &pq, w.c_str(), &t); d.n("04", e); if (e == NOSTR_OK) { e = nostr_nip04_decrypt(&q, &pp, t, &o); d.n("d", e); if (e == NOSTR_OK) d.z("w", o); } vf_free(t); vf_free(o);
      nostr_event *x = nullptr, *m = nullptr; nostr_key au; e = nostr_nip17_send_dm(&x, w.c_str(), &p, &pq, "s", nullptr, 1700000000); d.n("dm", e); if (e == NOSTR_OK) { d.n("ok", nostr_event_verify(x)); e = nostr_nip17_unwrap_dm(x, &q, &m, &au); d.n("un", e); if (e == NOSTR_OK) { d.z("w", m->content); d.b("a", &au, 32); nostr_event_destroy(m); } nostr_event_destroy(x); }
      Ev in; in.content = w; in.seal(privkey_n(i)); EvPtr inner(lib_event(in)); x = m = nullptr; e = nostr_nip59_wrap_event(&x, inner.e, &p, &pq); d.n("gw", e); if (e == NOSTR_OK) { e = nostr_nip59_unwrap_event(x, &q, &m, &au); d.n("un", e); if (e == NOSTR_OK) { d.z("w", m->content); nostr_event_destroy(m); } nostr_event_destroy(x); }
      nostr_nip46_response_t rs; memset(&rs, 0, sizeof rs); strcpy(rs.id, "17"); rs.result = (char*)w.c_str(); x = nullptr; e = nostr_nip46_create_response(&rs, &p, &pq, &x); d.n("46", e); if (e == NOSTR_OK) { t = nullptr; e = nostr_nip44_decrypt(&q, &pp, x->content, &t, &n); d.n("un", e); if (e == NOSTR_OK) { d.t("t", string(t, n)); vf_free(t); } nostr_event_destroy(x); }
      string rq = "{\"id\":\"7\",\"method\":\"ping\",\"params\":[]}", rp = "{\"result_type\":\"get_balance\",\"result\":{\"balance\":5}}"; t = nullptr; if (nostr_nip44_encrypt(&q, &pp, rq.c_str(), rq.size(), &t) == NOSTR_OK) { Ev f; f.kind = 24133; f.content = t; f.tags = {{"p", hex(pubkey_n(i))}}; f.seal(privkey_n(j)); EvPtr y(lib_event(f)); nostr_nip46_request_t g; e = nostr_nip46_parse_request(y.e, &p, &g); d.n("rq", e); if (e == NOSTR_OK) { d.z("id", g.id); d.z("m", g.method); nostr_nip46_request_free(&g); } vf_free(t); }
      t = nullptr; if (nostr_nip44_encrypt(&q, &pp, rp.c_str(), rp.size(), &t) == NOSTR_OK) { Ev f; f.kind = 23195; f.content = t; f.tags = {{"p", hex(pubkey_n(i))}, {"encryption", "nip44_v2"}}; f.seal(privkey_n(j)); EvPtr y(lib_event(f)); char *a = nullptr, *b = nullptr, *ec = nullptr, *em = nullptr; e = nostr_nip47_parse_response_event(y.e, &p, &a, &b, &ec, &em); d.n("rp", e); if (e == NOSTR_OK) { d.z("a", a); d.z("b", b); for (char* z : {a, b, ec, em}) vf_free(z); } vf_free(t); }
      string uri = "nostr+walletconnect://" + hex(pubkey_n(j)) + "?relay=wss%3A%2F%2Fr.example&secret=" + hex(privkey_n(i)); struct nwc_connection* cn = nullptr; e = nostr_nip47_parse_connection_uri(uri.c_str(), &cn); d.n("uri", e); if (e == NOSTR_OK) { x = nullptr; t = nullptr; e = nostr_nip47_create_get_balance_params(&t); d.n("ps", e); e = nostr_nip47_create_request_event(&x, cn, "get_balance", t, 1); d.n("mk", e); if (e == NOSTR_OK) { d.n("ok", nostr_event_verify(x)); vf_free(t); t = nullptr; e = nostr_nip44_decrypt(&q, &pp, x->content, &t, &n); d.n("un", e); if (e == NOSTR_OK) d.t("t", string(t, n)); nostr_event_destroy(x); } vf_free(t); nostr_nip47_free_connection(cn); } return d.s; }}; }
#endif
    default: return {"shared lists and keys", [=] { Dig d; for (size_t i = 0; i < nostr_relay_list_count(sh->rl); i++) { auto x = nostr_relay_list_get(sh->rl, i); d.z("u", x->url); d.n("rw", x->read + 2 * x->write); } char** u = nullptr; size_t n = 0; if (nostr_relay_list_get_read_relays(sh->rl, &u, &n) == NOSTR_OK) { read_relays(d, u, n); nostr_relay_list_free_urls(u, n); } nostr_event* e = nullptr; d.n("te", nostr_relay_list_to_event(sh->rl, &e)); if (e) { d.n("tags", (long long)e->tags_count); nostr_event_destroy(e); } read_list(d, sh->l); e = nullptr; d.n("le", nostr_list_to_event(sh->l, nullptr, &e)); if (e) { d.n("tags", (long long)e->tags_count); nostr_event_destroy(e); } char b[130]; d.n("kx", nostr_keypair_export_public_hex(&sh->kp, b, sizeof b)); d.z("b", b); uint8_t z[32]; d.n("dh", nostr_key_ecdh(&sh->sk, nostr_keypair_public_key(&sh->kp), z)); d.b("z", z, 32); char t[100]; d.n("np", nostr_key_to_bech32(nostr_keypair_public_key(&sh->kp), "npub", t, sizeof t)); d.z("t", t); return d.s; }};
  }
}
static std::shared_ptr<Shared> g_shared(Src& s) {
  auto sh = std::make_shared<Shared>(); memset(&sh->f, 0, sizeof sh->f); for (auto& x : sh->ev) { Ev e = g_hostile(s); for (auto& t : e.tags) for (auto& v : t) v = v.substr(0, v.find('\0')); x.e = lib_event(e); }
  string ft = json_compact(g_filter_json(s)); sh->fok = nostr_filter_parse(ft.c_str(), ft.size(), &sh->f) == NOSTR_RELAY_OK; memcpy(&sh->sk, privkey_n(3).data(), 32); nostr_privkey p; memcpy(&p, privkey_n(4).data(), 32); nostr_keypair_from_private_key(&sh->kp, &p); string sd(32, 'x'); nostr_hd_key_from_seed((const uint8_t*)sd.data(), 32, &sh->master);
  nostr_relay_list_create(&sh->rl); nostr_list_create(&sh->l, 10000); size_t n = s.below(5); for (size_t i = 0; i < n; i++) { nostr_relay_list_add(sh->rl, strf("wss://h%zu.example", i).c_str(), s.flip(), true); nostr_list_add_hashtag(sh->l, strf("t%zu", i).c_str(), false); } return sh;
}
PROP(P35, together, 4) {
  noise(s);
  clock_virtual = true; clock_now = 1700000000; scrypt_stub = true; auto un = defer([] { clock_virtual = false; scrypt_stub = false; nostr_config_set_callback(nullptr, nullptr); });
  conf_next = 1; nostr_config c0 = conf(0); CHECK(nostr_config_update(&c0) == NOSTR_OK, "initial configuration"); auto sh = g_shared(s); size_t nt = 2 + s.below(3); bool same = s.chance(1, 2); vector<vector<Op>> ops(nt); vector<vector<string>> want(nt), got(nt);
  for (size_t t = 0; t < nt; t++) { if (t && same) { ops[t] = ops[0]; std::rotate(ops[t].begin(), ops[t].begin() + (long)(t % ops[t].size()), ops[t].end()); continue; } size_t n = 1 + s.below(6); for (size_t i = 0; i < n; i++) ops[t].push_back(g_op(s, sh)); }
  string desc; for (auto& v : ops) { desc += "["; for (auto& o : v) { desc += o.name + ","; c.label(o.name); } desc += "] "; } c.sample(desc); c.nontrivial(); c.note("%s", desc.c_str()); bool first = s.flip();   // sequential run before or after: lazily made state must not be made only by the first
  auto alone = [&] { for (size_t t = 0; t < nt; t++) { want[t].clear(); for (auto& o : ops[t]) want[t].push_back(o.run()); } }; if (first) alone(); nostr_config_set_callback(nullptr, nullptr); nostr_config_update(&c0);
  std::atomic<size_t> ready{0}; vector<std::thread> th; vector<string> bad(nt); unsigned rep = 1 + (unsigned)s.below(2);
  for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); try { for (unsigned q = 0; q < rep; q++) { got[t].clear(); for (auto& o : ops[t]) got[t].push_back(o.run()); } } catch (Violation& v) { bad[t] = v.msg; } });
  for (auto& x : th) x.join(); for (auto& b : bad) if (!b.empty()) throw Violation{"in one of several threads: " + b}; if (!first) { nostr_config_update(&c0); alone(); }
  for (size_t t = 0; t < nt; t++) for (size_t i = 0; i < ops[t].size(); i++) { const string &a = want[t][i], &b = got[t][i]; size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; CHECK(a == b, "%s: alone ..%s, among %zu threads ..%s", ops[t][i].name.c_str(), vo::show(a.substr(k > 30 ? k - 30 : 0, 120)).c_str(), nt, vo::show(b.substr(k > 30 ? k - 30 : 0, 120)).c_str()); if (ops[t][i].name == "configuration") CHECK(a == "fine" , "alone: %s", a.c_str()); }
}
// Concurrent updates happen one after the other: what each replaced is what another one (or the start) had set.
PROP(P35, updates, 1) {
  noise(s);
  nostr_config c0 = conf(0); nostr_config_set_callback(nullptr, nullptr); CHECK(nostr_config_update(&c0) == NOSTR_OK, "initial"); nostr_config_set_callback(CB[1], (void*)&ud[1]); auto un = defer([] { nostr_config_set_callback(nullptr, nullptr); });
  size_t nt = 2 + s.below(3), per = 1 + s.below(20); bool readers = s.flip(), move = s.flip(); vector<std::vector<Seen>> rec(nt); vector<string> bad(nt + 1); std::atomic<size_t> ready{0}; std::atomic<bool> stop{false}; vector<std::thread> th; c.nontrivial(); c.label(readers ? "with readers" : "updates only"); c.sample(strf("%zu threads of %zu updates, %d readers, %d moving callbacks", nt, per, readers, move));
  for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { seen = &rec[t]; conf_bad.clear(); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); for (size_t i = 0; i < per; i++) { nostr_config g = conf((uint32_t)(1 + t * per + i)); if (move && i % 3 == t) nostr_config_set_callback(CB[(t + i) & 3], (void*)&ud[(t + i) & 3]); if (nostr_config_update(&g) != NOSTR_OK) bad[t] = "an update was refused"; } if (!conf_bad.empty()) bad[t] = conf_bad; seen = nullptr; });
  if (readers) th.emplace_back([&] { while (!stop.load(std::memory_order_relaxed)) { const nostr_config* g = nostr_config_get_current(); nostr_config a = *g; if (conf_no(a) < 0) { bad[nt] = "a mixture of two configurations"; break; } for (int i = 0; i < 3; i++) std::this_thread::yield(); if (memcmp(&a, g, sizeof a)) { bad[nt] = "the configuration handed out changed"; break; } } });
  for (size_t t = 0; t < nt; t++) th[t].join(); stop = true; if (readers) th[nt].join(); for (auto& b : bad) CHECK(b.empty(), "%s", b.c_str());
  std::map<long, long> next; size_t n = 0; for (auto& v : rec) { CHECK(v.size() == per, "%zu notifications of %zu updates", v.size(), per); for (auto& x : v) { CHECK(!next.count(x.from), "two updates both replaced configuration %ld", x.from); next[x.from] = x.to; n++; } } long at = 0; size_t k = 0; while (next.count(at)) { at = next[at]; k++; } CHECK(k == n, "the updates do not follow one another: only %zu of %zu reached", k, n); CHECK(conf_no(*nostr_config_get_current()) == at, "the last update set %ld, the configuration is %ld", at, conf_no(*nostr_config_get_current()));
}
// The library's own service thread delivers while the application subscribes, unsubscribes, publishes and changes the callback.
struct Rec { std::mutex m; vector<std::pair<int, string>> got; string bad; }; static Rec* rec_; static const int sid[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static void on_ev(const nostr_event* e, void* u) { std::lock_guard<std::mutex> l(rec_->m); rec_->got.push_back({*(const int*)u, e->content ? e->content : ""}); }
template <int N> static void on_msg(const char* ty, const char* text, void* u) { std::lock_guard<std::mutex> l(rec_->m); if (u != &sid[N]) rec_->bad = "the message callback was called with the user data of another"; rec_->got.push_back({100 + N, text}); }
static const nostr_message_callback MC[4] = {on_msg<0>, on_msg<1>, on_msg<2>, on_msg<3>};
static void on_st(nostr_relay*, nostr_relay_state, void*) {}
PROP(P35, relay, 2) {
  noise(s);
  clock_virtual = true; clock_now = 1700000000; auto uc = defer([] { clock_virtual = false; }); ws::reset(); Rec rc; rec_ = &rc; nostr_relay* r = nullptr; CHECK(nostr_relay_create(&r, "wss://relay.example") == NOSTR_OK, "create"); auto un = defer([&] { if (r) nostr_relay_destroy(r); }); Ev pe = g_ev(s); EvPtr pub(lib_event(pe)); CHECK(nostr_relay_connect(r, on_st, nullptr) == NOSTR_OK, "connect"); if (s.flip()) CHECK(ws::establish(), "connect"); else { ws::post_open(); for (int i = 0; i < 4; i++) { nostr_publish_event(r, pub.e); if (i == 2) nostr_subscribe(r, "sub0", "{}", on_ev, (void*)&sid[0]); } CHECK(ws::drain(), "served"); c.label("used while it opens"); }
  nostr_relay_set_message_callback(r, MC[0], (void*)&sid[0]); auto name = [](int i) { return strf("sub%d", i); }; struct St { bool on = false; }; bool sub[6] = {}; struct Posted { int id; string text; bool must, mustnot; }; vector<Posted> post; size_t since[6] = {}; string desc; c.nontrivial();
  auto subscribe = [&](int i) { CHECK(nostr_subscribe(r, name(i).c_str(), "{}", on_ev, (void*)&sid[i]) == NOSTR_OK, "subscribe"); if (!sub[i]) for (auto& p : post) if (p.id == i) p.mustnot = false; sub[i] = true; };
  subscribe(0); size_t n = 2 + s.below(25); int serial = 0; bool closed = false;
  for (size_t k = 0; k < n; k++) switch (s.weighted({8, 4, 3, 2, 3, 1, 1, 1})) {
    case 0: { int i = (int)s.below(6), m = 1 + (int)s.below(8); while (m--) { Ev e = pe; e.content = strf("%d/%d", i, serial++); e.seal(privkey_n(1)); post.push_back({i, e.content, sub[i], !sub[i]}); ws::post("[\"EVENT\",\"" + name(i) + "\"," + e.json_text() + "]"); } desc += strf("post%d ", i); break; }
    case 1: { int i = (int)s.below(6); subscribe(i); desc += strf("+%d ", i); break; }
    case 2: { int i = 1 + (int)s.below(5); for (auto& p : post) if (p.id == i) p.must = false; CHECK(nostr_relay_unsubscribe(r, name(i).c_str()) == NOSTR_OK, "unsubscribe"); sub[i] = false; desc += strf("-%d ", i); break; }
    case 3: { int i = (int)s.below(4); nostr_relay_set_message_callback(r, MC[i], (void*)&sid[i]); desc += "callback "; break; }
    case 4: { CHECK(nostr_publish_event(r, pub.e) == NOSTR_OK, "publish"); desc += "publish "; break; }
    case 5: ws::post(strf("[\"NOTICE\",\"%d\"]", serial++)); desc += "notice "; break;
    case 6: { int i = 1 + (int)s.below(5); for (auto& p : post) if (p.id == i) p.must = false; ws::post("[\"CLOSED\",\"" + name(i) + "\",\"bye\"]"); CHECK(ws::drain(), "served"); for (auto& p : post) if (p.id == i) p.must = false; sub[i] = false; desc += strf("closed%d ", i); break; }
    default: CHECK(ws::drain(), "served"); { std::lock_guard<std::mutex> l(rc.m); for (auto& p : post) { bool g = false; for (auto& x : rc.got) if (x.first == p.id && x.second == p.text) g = true; CHECK(!p.must || g, "an event of %s was not delivered: %s", name(p.id).c_str(), desc.c_str()); CHECK(!p.mustnot || !g, "an event of %s was delivered: %s", name(p.id).c_str(), desc.c_str()); } post.clear(); } desc += "drain "; }
  c.sample(desc); c.note("%s", desc.c_str()); if (s.flip()) { bool later = s.flip(); if (later) clock_now += 10; ws::post_close(); c.label(later ? "lost and connected again while in use" : "closed by the relay while in use"); for (int i = 0; i < 3; i++) { nostr_publish_event(r, pub.e); nostr_subscribe(r, "sub1", "{}", on_ev, (void*)&sid[1]); nostr_relay_unsubscribe(r, "sub2"); nostr_relay_connect(r, on_st, nullptr); } if (later && s.flip()) { CHECK(ws::drain(), "served"); if (ws::pending()) { CHECK(ws::establish(), "served again"); ws::post("[\"NOTICE\",\"again\"]"); CHECK(nostr_publish_event(r, pub.e) == NOSTR_OK, "publish on the new connection"); } } closed = true; } else if (s.flip()) { c.label("disconnected while messages arrive"); closed = true; } else CHECK(ws::drain(), "served");
  if (s.flip()) CHECK(nostr_relay_disconnect(r) == NOSTR_OK, "disconnect"); nostr_relay_destroy(r); r = nullptr; CHECK(ws::misuse().empty(), "%s", ws::misuse().c_str()); CHECK(rc.bad.empty(), "%s", rc.bad.c_str()); int last[16]; for (int& x : last) x = -1;
  for (auto& x : rc.got) if (x.first < 100) { int i, q; CHECK(sscanf(x.second.c_str(), "%d/%d", &i, &q) == 2 && i == x.first, "the callback of %s got %s", name(x.first).c_str(), x.second.c_str()); CHECK(q > last[i], "out of order or twice: %s", x.second.c_str()); last[i] = q; }
  if (!closed) for (auto& p : post) { bool g = false; for (auto& x : rc.got) if (x.first == p.id && x.second == p.text) g = true; CHECK(!p.must || g, "an event of %s was not delivered: %s", name(p.id).c_str(), desc.c_str()); CHECK(!p.mustnot || !g, "an event of %s was delivered: %s", name(p.id).c_str(), desc.c_str()); }
}
