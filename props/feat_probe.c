/* P50: what a build of the library says and does. Prints one line per answer: "<name>\t<answer>"; an answer depends only on the seed, never on the build. */
#include "nostr.h"
#include "nostr_features.h"
#include "nostr_relay_protocol.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t S, S0;
static uint64_t rnd(void) { uint64_t z = (S += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void fill(uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)rnd(); }
static void line(const char* k, const char* v) { printf("%s\t", k); for (; v && *v; v++) if (*v == '\n' || *v == '\\') printf("\\%02x", *v); else putchar(*v); putchar('\n'); }
static void num(const char* k, long long v) { printf("%s\t%lld\n", k, v); }
static void bytes(const char* k, const void* p, size_t n) { printf("%s\t", k); for (size_t i = 0; i < n; i++) printf("%02x", ((const uint8_t*)p)[i]); putchar('\n'); }
static void text(char* out, size_t max) { static const char A[] = "abc xyz,.-\"\\/\n\t0123456789<>&'#"; size_t n = rnd() % max; for (size_t i = 0; i < n; i++) out[i] = A[rnd() % (sizeof A - 1)]; out[n] = 0; }
static nostr_privkey SK[3]; static nostr_key PK[3]; static char PH[3][65];
static void show(const char* k, const nostr_event* e) {   /* everything but the signature, which is not reproducible */
  char h[65]; nostr_hex_encode(e->id, 32, h); h[64] = 0; printf("%s\t%s kind %u at %lld ", k, h, e->kind, (long long)e->created_at); nostr_hex_encode(e->pubkey.data, 32, h); h[64] = 0; printf("by %s:", h);
  for (size_t i = 0; i < e->tags_count; i++) { printf(" ["); for (size_t j = 0; j < e->tags[i].count; j++) { printf("%s", j ? "," : ""); for (const char* p = e->tags[i].values[j]; *p; p++) if (*p == '\n') printf("\\n"); else putchar(*p); } printf("]"); }
  printf(" \""); for (const char* p = e->content ? e->content : ""; *p; p++) if (*p == '\n') printf("\\n"); else putchar(*p); printf("\"\n");
}
static void tag(nostr_event* e, const char* a, const char* b, const char* c) { const char* v[] = {a, b, c}; nostr_event_add_tag(e, v, c ? 3 : b ? 2 : 1); }
static nostr_event* event(uint16_t kind, const char* content) { nostr_event* e = NULL; if (nostr_event_create(&e) != NOSTR_OK) { line("event", "none"); exit(1); } e->kind = kind; e->created_at = 1700000000 + (int64_t)(rnd() % 1000); e->pubkey = PK[0]; nostr_event_set_content(e, content); return e; }
#ifdef NOSTR_FEATURE_NIP05
static nostr_error_t http(const char* url, char** r, size_t* n, void* u) { (void)url; *n = strlen(u); *r = malloc(*n + 1); memcpy(*r, u, *n + 1); return NOSTR_OK; }
#endif
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  S = S0 = strtoull(argv[1], NULL, 10); char b[4000], c[4000], w[80], url[60], id[65];
  printf("says list\t%s\n", nostr_feature_list_enabled()); printf("says nips\t"); for (int i = -1; i < 100; i++) { int v = nostr_feature_nip_supported(i); if (v == 1) printf("%d ", i); else if (v) printf("%d:%d ", i, v); } putchar('\n');
  printf("says parts\t%d%d%d%d\n", nostr_feature_relay_available(), nostr_feature_hd_keys_available(), nostr_feature_json_enhanced_available(), nostr_feature_relay_protocol_available()); printf("says crypto\t%s\n", nostr_feature_crypto_backend_info());
  num("core init", nostr_init());
  for (int i = 0; i < 3; i++) { nostr_keypair kp; fill(SK[i].data, 32); SK[i].data[0] &= 0x7f; num("core keypair", nostr_keypair_from_private_key(&kp, &SK[i])); PK[i] = *nostr_keypair_public_key(&kp); nostr_key_to_hex(&PK[i], PH[i], 65); line("core key", PH[i]); num("core valid", nostr_keypair_validate(&kp)); nostr_keypair_destroy(&kp); }
  text(w, 40); sprintf(url, "wss://h%u.example/p", (unsigned)(rnd() % 1000)); { uint8_t t[32]; fill(t, 32); nostr_hex_encode(t, 32, id); id[64] = 0; }
  { S = S0 ^ (uint64_t)__LINE__ << 32; uint8_t x[32], y[32]; num("core ecdh", nostr_key_ecdh(&SK[0], &PK[1], x)); num("core ecdh", nostr_key_ecdh(&SK[1], &PK[0], y)); bytes("core shared", x, 32); num("core agree", memcmp(x, y, 32) == 0); nostr_privkey p; nostr_key k; num("core gen", nostr_key_generate(&p, &k)); nostr_keypair kp; nostr_keypair_from_private_key(&kp, &p); num("core gen matches", memcmp(nostr_keypair_public_key(&kp), &k, 32) == 0); nostr_privkey z; memset(&z, 0, sizeof z); num("core zero key", nostr_keypair_from_private_key(&kp, &z)); }
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_event* e = event((uint16_t)rnd(), w); tag(e, "t", w, NULL); tag(e, "e", id, url); num("core id", nostr_event_compute_id(e)); show("core event", e); num("core sign", nostr_event_sign(e, &SK[1])); show("core signed", e); num("core verify", nostr_event_verify(e)); e->sig[rnd() % 64] ^= 1; num("core tampered", nostr_event_verify(e)); e->created_at++; num("core altered", nostr_event_verify(e));
    char* j = NULL;
#ifdef NOSTR_FEATURE_JSON_ENHANCED
    e->created_at--; memset(e->sig, 0x11, 64); num("json write", nostr_event_to_json(e, &j)); line("json text", j); nostr_event* f = NULL; num("json read", nostr_event_from_json(j, &f)); if (f) { show("json event", f); bytes("json sig", f->sig, 64); nostr_event_destroy(f); } free(j); f = NULL; num("json bad", nostr_event_from_json("{\"id\":1}", &f));
#else
    nostr_event* f = NULL; num("off json write", nostr_event_to_json(e, &j) == NOSTR_ERR_NOT_SUPPORTED && !j); num("off json read", nostr_event_from_json("{}", &f) == NOSTR_ERR_NOT_SUPPORTED && !f);
#endif
    nostr_event_destroy(e); }
  { S = S0 ^ (uint64_t)__LINE__ << 32; num("enc npub", nostr_key_to_bech32(&PK[0], "npub", b, sizeof b)); line("enc npub", b); nostr_key k; num("enc npub back", nostr_key_from_bech32(b, &k)); bytes("enc npub", &k, 32); num("enc nsec", nostr_privkey_to_bech32(&SK[0], b, sizeof b)); line("enc nsec", b); nostr_privkey p; num("enc nsec back", nostr_privkey_from_bech32(b, &p)); bytes("enc nsec", &p, 32); b[9] ^= 1; num("enc damaged", nostr_privkey_from_bech32(b, &p));
    char* rl = url; nostr_nprofile q, q2; memset(&q, 0, sizeof q); q.pubkey = PK[1]; q.relays[0] = rl; q.relay_count = 1; num("enc nprofile", nostr_nprofile_encode(&q, b, sizeof b)); line("enc nprofile", b); if (nostr_nprofile_decode(b, &q2) == NOSTR_OK) { line("enc nprofile relay", q2.relay_count ? q2.relays[0] : ""); nostr_nprofile_free(&q2); }
    nostr_naddr a, a2; memset(&a, 0, sizeof a); strcpy(a.identifier, "slug"); a.pubkey = PK[2]; a.kind = 30000 + (uint32_t)(rnd() % 9000); num("enc naddr", nostr_naddr_encode(&a, b, sizeof b)); line("enc naddr", b); if (nostr_naddr_decode(b, &a2) == NOSTR_OK) { num("enc naddr kind", a2.kind); nostr_naddr_free(&a2); }
    nostr_uri u; sprintf(c, "nostr:%s", b); num("enc uri", nostr_uri_parse(c, &u)); num("enc uri type", u.type); num("enc uri text", nostr_uri_encode(&u, b, sizeof b)); line("enc uri text", b); nostr_uri_free(&u); }
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_config f, g; num("config", nostr_config_get_defaults(&f)); f.max_tags = 10 + (uint32_t)(rnd() % 50); num("config update", nostr_init_with_config(&f)); if (!nostr_config_get_current()) { line("config", "none"); return 1; } g = *nostr_config_get_current(); num("config kept", g.max_tags == f.max_tags); f.max_tags = 0; num("config bad", nostr_config_update(&f)); nostr_config_get_defaults(&f); num("config back", nostr_config_update(&f)); }
#ifdef NOSTR_FEATURE_NIP05
  { S = S0 ^ (uint64_t)__LINE__ << 32; char n[65], d[256]; num("nip05 parse", nostr_nip05_parse("Bob@example.com", n, sizeof n, d, sizeof d)); line("nip05 name", n); num("nip05 url", nostr_nip05_build_url("bob", "example.com", b, sizeof b)); line("nip05 url", b); sprintf(c, "{\"names\":{\"bob\":\"%s\"},\"relays\":{\"%s\":[\"%s\"]}}", PH[1], PH[1], url); char** rl = NULL; size_t k = 0; num("nip05 verify", nostr_nip05_verify("bob@example.com", PH[1], http, c, &rl, &k)); for (size_t i = 0; i < k; i++) line("nip05 relay", rl[i]); nostr_nip05_free_relays(rl, k); rl = NULL; num("nip05 other", nostr_nip05_verify("bob@example.com", PH[2], http, c, &rl, &k)); }
#endif
#ifdef NOSTR_FEATURE_NIP10
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_event* e = event(1, w); num("nip10 add", nostr_event_add_reply_tags(e, id, url, PH[1], PH[2], url, PH[2])); num("nip10 mention", nostr_event_add_mention_tag(e, PH[0], url)); show("nip10 event", e); char h[65], r[300]; num("nip10 root", nostr_event_get_root_id(e, h, sizeof h, r, sizeof r)); line("nip10 root", h); num("nip10 reply", nostr_event_get_reply_id(e, h, sizeof h, r, sizeof r)); line("nip10 reply", h); line("nip10 hint", r); int is = -1; num("nip10 is", nostr_event_is_reply(e, &is)); num("nip10 is", is); nostr_event_destroy(e); }
#endif
#ifdef NOSTR_FEATURE_NIP13
  { S = S0 ^ (uint64_t)__LINE__ << 32; uint8_t x[32]; fill(x, 32); x[0] = 0; x[1] &= 0x3f; num("nip13 bits", nostr_nip13_calculate_difficulty(x)); nostr_event* e = event(1, w); tag(e, "t", "x", NULL); num("nip13 nonce", nostr_nip13_add_nonce_tag(e, rnd(), 7)); show("nip13 nonce", e); num("nip13 mine", nostr_nip13_mine_event(e, 5, 100000)); num("nip13 mined", nostr_nip13_verify_pow(e, 5)); num("nip13 enough", nostr_nip13_calculate_difficulty(e->id) >= 5); num("nip13 threads", nostr_nip13_mine_event_threaded(e, 6, 2, 100000)); num("nip13 mined", nostr_nip13_verify_pow(e, 6)); num("nip13 hopeless", nostr_nip13_mine_event(e, 60, 20) == NOSTR_OK); nostr_event_destroy(e); }
#endif
#ifdef NOSTR_FEATURE_NIP18
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_event* e = NULL; num("nip18 repost", nostr_repost_create(&e, id, PH[1], url, 1, NULL, NULL)); e->created_at = 1700000000; show("nip18 repost", e); char h[65], p[65], r[300]; uint16_t k = 0; num("nip18 parse", nostr_repost_parse(e, h, sizeof h, p, sizeof p, r, sizeof r, &k)); line("nip18 id", h); line("nip18 by", p); num("nip18 kind", k); nostr_event_destroy(e); nostr_key_to_bech32(&PK[2], "npub", b, sizeof b); nostr_event_id_to_bech32(PK[1].data, c, sizeof c); char t[400]; sprintf(t, "x nostr:%s y nostr:%s.", b, c); e = event(1, t); num("nip18 quotes", nostr_quote_tags_from_content(e)); show("nip18 quotes", e); nostr_event_destroy(e); }
#endif
#ifdef NOSTR_FEATURE_NIP25
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_event* e = NULL; num("nip25 react", nostr_reaction_create(&e, "+", id, PH[1], url, 1)); e->created_at = 1700000000; show("nip25 react", e); int l = -1; nostr_reaction_is_like(e, &l); num("nip25 like", l); char h[65], p[65]; uint16_t k = 0; num("nip25 parse", nostr_reaction_parse(e, b, sizeof b, h, sizeof h, p, sizeof p, &k)); line("nip25 id", h); line("nip25 by", p); nostr_event_destroy(e); }
#endif
#ifdef NOSTR_FEATURE_NIP26
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_delegation d; memset(&d, 0, sizeof d); num("nip26 create", nostr_delegation_create(&SK[1], &PK[0], "kind=1&created_at<1800000000", &d)); num("nip26 verify", nostr_delegation_verify(&d, &PK[0])); num("nip26 other", nostr_delegation_verify(&d, &PK[2])); num("nip26 kind", nostr_delegation_check_conditions(&d, 7, 1700000000)); nostr_event* e = event(1, w); num("nip26 add", nostr_event_add_delegation(e, &d)); nostr_event_sign(e, &SK[0]); num("nip26 event", nostr_event_verify_delegation(e)); e->kind = 2; num("nip26 beyond", nostr_event_verify_delegation(e)); nostr_event_destroy(e); nostr_delegation_free(&d); }
#endif
#if defined(NOSTR_FEATURE_NIP04) && defined(HAVE_MBEDTLS)   /* AES-CBC is only done by OpenSSL */
  { S = S0 ^ (uint64_t)__LINE__ << 32; char *t = NULL, *o = NULL; num("off nip04 seal", nostr_nip04_encrypt(&SK[0], &PK[1], "hello", &t) == NOSTR_ERR_NOT_SUPPORTED && !t); num("off nip04 open", nostr_nip04_decrypt(&SK[1], &PK[0], "AA?iv=AA", &o) == NOSTR_ERR_NOT_SUPPORTED && !o); }
#elif defined(NOSTR_FEATURE_NIP04)
  { S = S0 ^ (uint64_t)__LINE__ << 32; char *t = NULL, *o = NULL; num("nip04 seal", nostr_nip04_encrypt(&SK[0], &PK[1], "hello", &t)); num("nip04 open", nostr_nip04_decrypt(&SK[1], &PK[0], t, &o)); line("nip04 text", o); free(o); o = NULL; free(t); }
#endif
#ifdef NOSTR_FEATURE_NIP44
  { S = S0 ^ (uint64_t)__LINE__ << 32; char *t = NULL, *o = NULL; size_t n = 0; num("nip44 seal", nostr_nip44_encrypt(&SK[0], &PK[1], "hello", 5, &t)); num("nip44 open", nostr_nip44_decrypt(&SK[1], &PK[0], t, &o, &n)); line("nip44 text", o); free(o); o = NULL; num("nip44 stranger", nostr_nip44_decrypt(&SK[2], &PK[0], t, &o, &n) == NOSTR_OK); free(t); }
#endif
#if defined(NOSTR_FEATURE_NIP59) && !defined(NOSTR_FEATURE_JSON_ENHANCED)
  { nostr_event *r = NULL, *g = NULL; num("off nip59 rumor", nostr_nip59_create_rumor(&r, 14, &PK[0], "x") == NOSTR_OK); num("off nip59 wrap", nostr_nip59_wrap_event(&g, r, &SK[0], &PK[1]) == NOSTR_ERR_NOT_SUPPORTED && !g); nostr_event_destroy(r); }
#elif defined(NOSTR_FEATURE_NIP59)
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_event *r = NULL, *g = NULL, *o = NULL; nostr_key by; num("nip59 rumor", nostr_nip59_create_rumor(&r, 14, &PK[0], w)); num("nip59 wrap", nostr_nip59_wrap_event(&g, r, &SK[0], &PK[1])); num("nip59 valid", g ? (int)nostr_event_verify(g) : -1); num("nip59 unwrap", nostr_nip59_unwrap_event(g, &SK[1], &o, &by)); if (o) { line("nip59 text", o->content); bytes("nip59 by", &by, 32); nostr_event_destroy(o); } o = NULL; num("nip59 stranger", nostr_nip59_unwrap_event(g, &SK[2], &o, &by) == NOSTR_OK); nostr_event_destroy(r); nostr_event_destroy(g); }
#endif
#if defined(NOSTR_FEATURE_NIP17) && !defined(NOSTR_FEATURE_JSON_ENHANCED)
  { nostr_event* g = NULL; num("off nip17 send", nostr_nip17_send_dm(&g, "hi", &SK[0], &PK[1], "s", NULL, 1700000000) == NOSTR_ERR_NOT_SUPPORTED && !g); }
#elif defined(NOSTR_FEATURE_NIP17)
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_event *g = NULL, *o = NULL; nostr_key by; num("nip17 send", nostr_nip17_send_dm(&g, "hi", &SK[0], &PK[1], "s", NULL, 1700000000)); num("nip17 open", nostr_nip17_unwrap_dm(g, &SK[1], &o, &by)); if (o) { line("nip17 text", o->content); bytes("nip17 by", &by, 32); nostr_event_destroy(o); } nostr_event_destroy(g); }
#endif
#ifdef NOSTR_FEATURE_NIP49
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_privkey k; num("nip49 seal", nostr_ncryptsec_encrypt(&SK[0], "pass", 10, b, sizeof b)); num("nip49 valid", nostr_ncryptsec_validate(b)); num("nip49 open", nostr_ncryptsec_decrypt(b, "pass", &k)); bytes("nip49 key", &k, 32); num("nip49 wrong", nostr_ncryptsec_decrypt(b, "past", &k) == NOSTR_OK); }
#endif
#ifdef NOSTR_FEATURE_NIP51
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_list *l = NULL, *m = NULL; nostr_event* e = NULL; nostr_keypair kp; nostr_keypair_from_private_key(&kp, &SK[0]); num("nip51 create", nostr_list_create(&l, 30003)); num("nip51 d", nostr_list_set_d_tag(l, "d1")); num("nip51 add", nostr_list_add_hashtag(l, "tag", false)); num("nip51 add", nostr_list_add_pubkey(l, PH[1], url, "pet", false)); num("nip51 event", nostr_list_to_event(l, &kp, &e)); if (e) { e->created_at = 1700000000; nostr_event_compute_id(e); show("nip51 event", e); num("nip51 read", nostr_list_from_event(e, &kp, &m)); num("nip51 count", m ? (long long)nostr_list_count(m) : -1); if (m) nostr_list_free(m); nostr_event_destroy(e); } m = NULL; e = NULL;
    nostr_error_t r = nostr_list_add_hashtag(l, "secret", true); nostr_error_t t = r == NOSTR_OK ? nostr_list_to_event(l, &kp, &e) : r;
#ifdef NOSTR_FEATURE_NIP44
    num("nip51 private", t); if (e) { num("nip51 hidden", !strstr(e->content ? e->content : "", "secret")); num("nip51 private read", nostr_list_from_event(e, &kp, &m)); num("nip51 private count", m ? (long long)nostr_list_count(m) : -1); if (m) nostr_list_free(m); }
#else
    int leak = 0; if (e) { leak = e->content && strstr(e->content, "secret"); for (size_t i = 0; i < e->tags_count; i++) for (size_t j = 0; j < e->tags[i].count; j++) leak |= strcmp(e->tags[i].values[j], "secret") == 0; } num("off nip51 private", t == NOSTR_ERR_NOT_SUPPORTED && !leak);
#endif
    if (e) nostr_event_destroy(e); nostr_list_free(l); nostr_keypair_destroy(&kp); }
#endif
#ifdef NOSTR_FEATURE_NIP57
  { S = S0 ^ (uint64_t)__LINE__ << 32; const char* rl[] = {url}; nostr_event* e = NULL; num("nip57 request", nostr_zap_create_request(&e, 21000, &PK[1], "lnurl1dp68gurn8ghj7", w, rl, 1)); if (e) { e->created_at = 1700000000; e->pubkey = PK[0]; nostr_event_compute_id(e); show("nip57 request", e); nostr_event_destroy(e); } e = event(9735, ""); tag(e, "p", PH[1], NULL); tag(e, "bolt11", "lnbc10u1pvjluez", NULL); tag(e, "description", "{}", NULL); uint64_t amt = 0; char* bolt = NULL; char pre[65]; nostr_error_t r = nostr_zap_parse_receipt(e, &amt, &bolt, pre, NULL); num("nip57 receipt", r); line("nip57 invoice", bolt); num("nip57 amount", (long long)amt); free(bolt); nostr_event_destroy(e); }
#endif
#ifdef NOSTR_FEATURE_NIP65
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_relay_list *l = NULL, *m = NULL; nostr_event* e = NULL; nostr_relay_list_create(&l); num("nip65 add", nostr_relay_list_add(l, url, true, false)); num("nip65 add", nostr_relay_list_add(l, "wss://both.example", true, true)); num("nip65 bad", nostr_relay_list_add(l, "http://x", true, true)); num("nip65 event", nostr_relay_list_to_event(l, &e)); if (e) { e->created_at = 1700000000; e->pubkey = PK[0]; nostr_event_compute_id(e); show("nip65 event", e); num("nip65 read", nostr_relay_list_from_event(e, &m)); num("nip65 count", (long long)nostr_relay_list_count(m)); char** u = NULL; size_t n = 0; num("nip65 write", nostr_relay_list_get_write_relays(m, &u, &n)); for (size_t i = 0; i < n; i++) line("nip65 write", u[i]); nostr_relay_list_free_urls(u, n); nostr_relay_list_free(m); nostr_event_destroy(e); } nostr_relay_list_free(l); }
#endif
#ifdef NOSTR_FEATURE_HD_KEYS
  { S = S0 ^ (uint64_t)__LINE__ << 32; uint8_t sd[64]; fill(sd, 64); nostr_hd_key m, k; num("hd master", nostr_hd_key_from_seed(sd, 64, &m)); num("hd path", nostr_hd_key_derive_path(&m, "m/44'/1237'/0'/0/5", &k)); nostr_keypair kp; num("hd pair", nostr_hd_key_to_keypair(&k, &kp)); bytes("hd key", nostr_keypair_public_key(&kp), 32); num("hd words", nostr_mnemonic_generate(12, b, sizeof b)); num("hd words good", nostr_mnemonic_validate(b)); num("hd seed", nostr_mnemonic_to_seed("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "TREZOR", sd)); bytes("hd seed", sd, 64); num("hd bad words", nostr_mnemonic_validate("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon")); }
#endif
#ifdef NOSTR_FEATURE_NIP47
  { S = S0 ^ (uint64_t)__LINE__ << 32; char h[65]; nostr_privkey_to_hex(&SK[1], h, 65); sprintf(b, "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s", PH[0], h); struct nwc_connection* k = NULL; num("nip47 uri", nostr_nip47_parse_connection_uri(b, &k)); nostr_event* e = NULL;
    char* p = NULL; uint64_t am = 7 + rnd() % 1000, u = 0; uint32_t lim = 9; const char *rec[] = {"7629169", "aa", "5", "bb"}, *inv[] = {"lnbc1a", "lnbc1b"}, *ids[] = {"i1", NULL};
     num("nip47 params", nostr_nip47_create_pay_invoice_params(&p, "lnbc1x", &am)); line("nip47 params", p); num("nip47 request", nostr_nip47_create_request_event(&e, k, "pay_invoice", p, 1)); free(p); if (e) { num("nip47 kind", e->kind); num("nip47 valid", nostr_event_verify(e)); char* o = NULL; size_t n = 0; num("nip47 open", nostr_nip44_decrypt(&SK[0], &PK[1], e->content, &o, &n)); line("nip47 text", o); free(o); nostr_event_destroy(e); }
    p = NULL; num("nip47 keysend", nostr_nip47_create_pay_keysend_params(&p, am, PH[2], id, rec, 4)); line("nip47 keysend params", p); free(p); p = NULL; num("nip47 multi", nostr_nip47_create_multi_pay_invoice_params(&p, ids, inv, &am, 1)); line("nip47 multi params", p); free(p); p = NULL; num("nip47 list", nostr_nip47_create_list_transactions_params(&p, NULL, NULL, &lim, NULL, NULL, "incoming")); line("nip47 list params", p); free(p); p = NULL; num("nip47 lookup", nostr_nip47_create_lookup_invoice_params(&p, id, NULL)); line("nip47 lookup params", p); free(p); p = NULL; num("nip47 invoice", nostr_nip47_create_make_invoice_params(&p, am, "a, b", id, &lim)); line("nip47 invoice params", p); free(p); sprintf(c, "{\"x\":{\"balance\":1},\"balance\":%u}", (unsigned)(rnd() % 100000)); num("nip47 balance", nostr_nip47_parse_balance_response(c, &u)); num("nip47 balance value", (long long)u); sprintf(c, "{\"preimage\":\"%s\",\"fees_paid\":12}", id); p = NULL; num("nip47 paid", nostr_nip47_parse_pay_invoice_response(c, &p, &u)); line("nip47 preimage", p); num("nip47 fees", (long long)u); free(p);
    (void)e; if (k) nostr_nip47_free_connection(k); num("nip47 bad uri", nostr_nip47_parse_connection_uri("nostr+walletconnect://zz", &k)); num("nip47 sessions", nostr_nip47_session_init()); char* sid = NULL; num("nip47 session", nostr_nip47_session_create(b, &sid)); if (sid) { num("nip47 permit", nostr_nip47_session_add_permission(sid, "pay_invoice", 1000, 0)); num("nip47 spend", nostr_nip47_session_check_permission(sid, "pay_invoice", 600)); num("nip47 overspend", nostr_nip47_session_check_permission(sid, "pay_invoice", 600)); num("nip47 end", nostr_nip47_session_destroy(sid)); free(sid); } }
#endif
#if defined(NOSTR_FEATURE_NIP46) && defined(NOSTR_FEATURE_NIP44)
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_nip46_request_t q; memset(&q, 0, sizeof q); char* t = NULL; const char* j = "{\"id\":\"7\",\"method\":\"sign_event\",\"params\":[\"x\"]}"; nostr_nip44_encrypt(&SK[0], &PK[1], j, strlen(j), &t); nostr_event* e = event(24133, t); tag(e, "p", PH[1], NULL); nostr_event_sign(e, &SK[0]); nostr_error_t r = nostr_nip46_parse_request(e, &SK[1], &q); free(t); nostr_event_destroy(e);
#ifdef NOSTR_FEATURE_JSON_ENHANCED
    num("nip46 request", r); line("nip46 id", r == NOSTR_OK ? q.id : "none"); line("nip46 param", r == NOSTR_OK && q.params_len ? q.params : "none");
#else
    num("off nip46 request", r != NOSTR_OK);
#endif
    if (r == NOSTR_OK) nostr_nip46_request_free(&q);
    nostr_nip46_response_t a; memset(&a, 0, sizeof a); strcpy(a.id, "77"); a.result = w; e = NULL; r = nostr_nip46_create_response(&a, &SK[1], &PK[0], &e);
#ifdef NOSTR_FEATURE_JSON_ENHANCED
    num("nip46 response", r); if (e) { num("nip46 response kind", e->kind); num("nip46 response valid", nostr_event_verify(e)); char* o = NULL; size_t n = 0; num("nip46 response open", nostr_nip44_decrypt(&SK[0], &PK[1], e->content, &o, &n)); line("nip46 response text", o); free(o); }
#else
    num("off nip46 response", r == NOSTR_ERR_NOT_SUPPORTED && !e);
#endif
    nostr_event_destroy(e); }
#endif
#ifdef NOSTR_FEATURE_RELAY
  { S = S0 ^ (uint64_t)__LINE__ << 32; nostr_relay* r = NULL; num("relay create", nostr_relay_create(&r, url)); num("relay idle", r ? (int)r->state : -1); nostr_event* e = event(1, w); num("relay unconnected", r ? nostr_publish_event(r, e) == NOSTR_OK : -1); nostr_event_destroy(e); if (r) nostr_relay_destroy(r); r = NULL; num("relay bad", nostr_relay_create(&r, "http://x")); }
#endif
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
  { S = S0 ^ (uint64_t)__LINE__ << 32; line("proto version", nostr_version()); nostr_event* e = event(5, w); tag(e, "e", id, NULL); tag(e, "expiration", "1700000100", NULL); tag(e, "d", "x", NULL); nostr_event_compute_id(e); memset(e->sig, 7, 64); size_t n = 0; num("proto kind", nostr_kind_get_type(e->kind)); num("proto expires", nostr_event_get_expiration(e)); num("proto expired", nostr_event_is_expired(e, 1700000101)); line("proto d", nostr_event_get_d_tag(e)); num("proto deletes", nostr_event_is_deletion(e)); nostr_deletion_request_t q; if (nostr_deletion_parse(e, &q) == NOSTR_RELAY_OK) { num("proto deletes ids", (long long)q.event_ids_count); nostr_deletion_free(&q); } num("proto hex", nostr_validate_hex64(id)); num("proto sub", nostr_validate_subscription_id(w)); num("proto tagged", (long long)nostr_event_get_tag_count(e));
    nostr_event* z = event(1, w); nostr_event_sign(z, &SK[0]); nostr_validation_result_t v; memset(&v, 0, sizeof v); num("proto valid", nostr_event_validate_full(z, 900, &v)); z->created_at += 1; num("proto invalid", nostr_event_validate_full(z, 900, &v)); nostr_event_destroy(z);
    nostr_relay_msg_t m; nostr_filter_t f; memset(&f, 0, sizeof f); nostr_client_msg_t g; memset(&g, 0, sizeof g); sprintf(c, "{\"kinds\":[5,1],\"#e\":[\"%s\"],\"limit\":3}", id); sprintf(b, "[\"REQ\",\"s1\",%s]", c);
#ifdef NOSTR_FEATURE_JSON_ENHANCED
    num("protojson canon", nostr_event_serialize_canonical(e, b, sizeof b, &n)); b[n] = 0; line("protojson canon", b); sprintf(b, "[\"REQ\",\"s1\",%s]", c); num("protojson filter", nostr_filter_parse(c, strlen(c), &f)); num("protojson match", nostr_filter_matches(&f, e)); e->kind = 6; num("protojson match", nostr_filter_matches(&f, e)); nostr_filter_free(&f); num("protojson message", nostr_client_msg_parse(b, strlen(b), &g)); line("protojson sub", nostr_client_msg_get_subscription_id(&g)); nostr_client_msg_free(&g); nostr_relay_msg_ok(&m, id, true, w); num("protojson ok", nostr_relay_msg_serialize(&m, b, sizeof b, &n)); b[n] = 0; line("protojson ok", b); nostr_relay_msg_event(&m, "s1", e); num("protojson event", nostr_relay_msg_serialize(&m, b, sizeof b, &n)); b[n] = 0; line("protojson event", b); nostr_relay_info_t i; nostr_relay_info_init(&i); i.name = "n"; nostr_relay_info_add_nip(&i, 11); num("protojson info", nostr_relay_info_serialize(&i, b, sizeof b, &n)); b[n] = 0; line("protojson info", b); nostr_relay_info_free(&i);
#else
    num("off proto canon", nostr_event_serialize_canonical(e, id, sizeof id, &n) != NOSTR_RELAY_OK); num("off proto filter", nostr_filter_parse(c, strlen(c), &f) != NOSTR_RELAY_OK); num("off proto message", nostr_client_msg_parse(b, strlen(b), &g) != NOSTR_RELAY_OK); (void)m;
#endif
    nostr_event_destroy(e); }
#endif
  nostr_cleanup(); printf("end\t1\n"); return 0;
}
