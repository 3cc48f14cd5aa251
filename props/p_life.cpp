// P47 starting and stopping the library
#include "enc.h"
#include <thread>
#include <atomic>
#include <pthread.h>
static int inited = (after_case = [] { rand_mode = 0; ctx_fail = ctx_slow = false; }, 0);
#ifdef VF_NOSCRYPT
static const bool SELF_RANDOM = true;    // starting draws random bytes
#else
static const bool SELF_RANDOM = false;
#endif
static string B(const void* p, size_t n) { return string((const char*)p, n); }
// One use of the library: "" when every answer is right, otherwise what is wrong. *err: it was refused.
struct Use { const char* name; bool self; std::function<string(Src&, bool*)> run; };
#define TRY(e) do { if ((e) != NOSTR_OK) { *err = true; return ""; } } while (0)
static const vector<Use>& uses() {
  static const vector<Use> u = {
    {"sign", true, [](Src& s, bool* err) -> string { Ev e = g_ev(s); if (e.tags.size() > 5) e.tags.resize(5); Key k = g_key(s); EvPtr x(lib_event(e)); nostr_privkey p = lpriv(k.priv); TRY(nostr_event_sign(x.e, &p)); Ev f = from_lib(x.e); return f.pubkey == k.pub && f.id == sha256(f.serial()) && schnorr_verify(f.pubkey, f.id, f.sig) ? "" : "a wrong signature"; }},
    {"verify", true, [](Src& s, bool* err) -> string { Ev e = g_ev(s); if (e.tags.size() > 5) e.tags.resize(5); Key k = g_key(s); e.seal(k.priv); bool bad = s.flip(); if (bad) e.sig[s.below(64)] ^= (char)(1 << s.below(8)); EvPtr x(lib_event(e)); nostr_error_t r = nostr_event_verify(x.e); if (r == NOSTR_OK) return bad ? "accepted a forged event" : ""; *err = !bad; return ""; }},
    {"generate", true, [](Src&, bool* err) -> string { nostr_privkey p; nostr_key q; TRY(nostr_key_generate(&p, &q)); string w; return pub_of(B(p.data, 32), &w) && w == B(q.data, 32) ? "" : "keys that do not belong together"; }},
    {"import", true, [](Src& s, bool* err) -> string { Key k = g_key(s); nostr_privkey p = lpriv(k.priv); nostr_keypair kp; TRY(nostr_keypair_from_private_key(&kp, &p)); if (B(kp.pubkey.data, 32) != k.pub) return "a wrong public key"; bool bad = s.flip(); if (bad) kp.pubkey.data[s.below(32)] ^= 1; nostr_error_t r = nostr_keypair_validate(&kp); return (r == NOSTR_OK) == !bad ? "" : "a wrong verdict on a key pair"; }},
    {"ecdh", true, [](Src& s, bool* err) -> string { Key a = g_key(s), b = g_key(s); nostr_privkey p = lpriv(a.priv); nostr_key q = lpub(b.pub); uint8_t o[32]; TRY(nostr_key_ecdh(&p, &q, o)); string x; ecdh_x(a.priv, b.pub, &x); return B(o, 32) == x ? "" : "a wrong shared secret"; }},
    {"delegate", true, [](Src& s, bool* err) -> string { Key a = g_key(s), b = g_key(s); nostr_privkey p = lpriv(a.priv); nostr_key q = lpub(b.pub); nostr_delegation g; memset(&g, 0, sizeof g); TRY(nostr_delegation_create(&p, &q, "kind=1", &g)); nostr_error_t r = nostr_delegation_verify(&g, &q); string t = "nostr:delegation:" + hex(b.pub) + ":kind=1"; bool ok = schnorr_verify(a.pub, sha256(t), B(g.token, 64)); nostr_delegation_free(&g); return r == NOSTR_OK && ok ? "" : "a wrong delegation token"; }},
#ifdef VF_NOSCRYPT
    {"seal", true, [](Src& s, bool* err) -> string { Key a = g_key(s), b = g_key(s); nostr_privkey p = lpriv(a.priv), q = lpriv(b.priv); nostr_key pa = lpub(a.pub), pb = lpub(b.pub); char *t = nullptr, *o = nullptr; size_t n = 0; TRY(nostr_nip44_encrypt(&p, &pb, "hello", 5, &t)); string x, got; ecdh_x(a.priv, b.pub, &x); bool ok = open44(x, t, &got) && got == "hello" && nostr_nip44_decrypt(&q, &pa, t, &o, &n) == NOSTR_OK && n == 5 && !memcmp(o, "hello", 5); vf_free(t); vf_free(o); return ok ? "" : "a wrong payload"; }},
    {"open", true, [](Src& s, bool* err) -> string { Key a = g_key(s), b = g_key(s); nostr_privkey p = lpriv(a.priv); nostr_key q = lpub(b.pub); string x; ecdh_x(a.priv, b.pub, &x); CStr t(enc44(x, s.bulk(32), "hello")); char* o = nullptr; size_t n = 0; TRY(nostr_nip44_decrypt(&p, &q, t, &o, &n)); bool ok = n == 5 && !memcmp(o, "hello", 5); vf_free(o); return ok ? "" : "a wrong message"; }},
    {"wrap", false, [](Src& s, bool* err) -> string { Key a = g_key(s), b = g_key(s); nostr_privkey p = lpriv(a.priv), q = lpriv(b.priv); nostr_key pb = lpub(b.pub), au; nostr_event *w = nullptr, *m = nullptr; TRY(nostr_nip17_send_dm(&w, "hi", &p, &pb, nullptr, nullptr, 1700000000)); EvPtr ew(w); TRY(nostr_nip17_unwrap_dm(w, &q, &m, &au)); EvPtr em(m); return m->content && !strcmp(m->content, "hi") && B(au.data, 32) == a.pub ? "" : "a wrong message"; }},
#endif
    {"derive", false, [](Src& s, bool* err) -> string { string seed = s.bulk(32), h = hmac("SHA512", "Bitcoin seed", seed), pub; nostr_hd_key m, c; TRY(nostr_hd_key_from_seed((const uint8_t*)seed.data(), 32, &m)); pub_of(h.substr(0, 32), &pub); if (B(m.privkey.data, 32) != h.substr(0, 32) || B(m.pubkey.data, 32) != pub) return "a wrong master key"; TRY(nostr_hd_key_derive(&m, 0x80000001u, &c)); string d = hmac("SHA512", h.substr(32), string(1, 0) + h.substr(0, 32) + string("\x80\0\0\1", 4)), w = h.substr(0, 32); if (!secp256k1_ec_seckey_tweak_add(secp(), (uint8_t*)&w[0], (const uint8_t*)d.data())) return ""; return B(c.privkey.data, 32) == w ? "" : "a wrong child key"; }},
  };
  return u;
}
struct Step { int k; size_t u = 0; bool fault = false; int how = 0; string bytes; };
PROP(P47, history, 4) {
  noise(s);
  vector<Step> h; string tr; size_t n = 2 + s.below(8); bool faults = false, again = false; int stops = 0;
  while (n--) { Step t; t.k = (int)s.weighted({3, 3, 6, 1, 1}); t.u = s.below(uses().size()); t.fault = s.chance(1, 4); t.how = (int)s.below(3); h.push_back(t); faults |= t.fault; stops += t.k == 1; }
  string data = s.bulk(64);
  forked([&] {
    bool on = false, conf = false; string hist; nostr_cleanup(); CHECK(ctx_live == 0, "contexts before the start: %ld", ctx_live.load()); CHECK(nostr_init() == NOSTR_OK, "no start"); long base = ctx_live; nostr_cleanup(); CHECK(ctx_live == 0, "after a start and a stop: %ld contexts are kept", ctx_live.load());
    Rng r(1); uint8_t rec[4096]; volatile size_t rl = 0; size_t used = 0;
    auto use = [&](const Use& u) { Src q((const uint8_t*)data.data() + used % 32, data.size() - used % 32, &r, rec, &rl, sizeof rec); used += 7; bool err = false; string w = u.run(q, &err); hist += strf("%s%s; ", u.name, err ? " refused" : ""); CHECK(w.empty(), "after %s: %s", hist.c_str(), w.c_str()); return !err; };
    for (auto& t : h) {
      auto arm = [&] { if (!t.fault) return; if (t.how != 1) ctx_fail = true; if (t.how != 0) { rand_mode = 2; rand_fail_after = 0; } }; auto calm = [&] { ctx_fail = false; rand_mode = 0; };
      bool must_fail = t.fault && (t.how != 1 || SELF_RANDOM);
      switch (t.k) {
        case 0: { arm(); nostr_error_t e = nostr_init(); calm(); hist += strf("init%s%s; ", t.fault ? " with a failure" : "", e ? " refused" : ""); CHECK((e == NOSTR_OK) == (on || !must_fail), "after %s: init -> %d", hist.c_str(), e); on |= e == NOSTR_OK; break; }
        case 1: nostr_cleanup(); hist += "cleanup; "; on = false; CHECK(ctx_live == 0, "after %s: %ld contexts are kept", hist.c_str(), ctx_live.load()); break;
        case 2: { const Use& u = uses()[t.u]; if (!on && !u.self) break; if (on) { CHECK(use(u), "after %s", hist.c_str()); break; }   // self-starting uses: right or refused, and refused only for a reason
          if (t.fault) { arm(); use(u); calm(); on = ctx_live == base; break; }   // it may have started the library and then be refused
          if (use(u)) on = true; else CHECK(false, "%s refused while the library is stopped, though it starts the library itself", hist.c_str()); break; }
        case 3: { nostr_config c; nostr_config_get_defaults(&c); bool bad = t.u % 3 == 0; if (bad) c.max_tags = 0; arm(); nostr_error_t e = nostr_init_with_config(t.u % 3 == 2 ? nullptr : &c); calm(); hist += strf("init with %s configuration%s%s; ", bad ? "a bad" : "a", t.fault ? " and a failure" : "", e ? " refused" : ""); bool refused = bad && !conf, ok = !refused && (on || !must_fail); CHECK((e == NOSTR_OK) == ok, "after %s: -> %d", hist.c_str(), e); if (!refused) conf = true; if (e == NOSTR_OK) on = true; break; }
        case 4: {   // everyone starts the library at once, and uses it
          size_t m = 2 + t.u % 3; pthread_barrier_t b; pthread_barrier_init(&b, nullptr, (unsigned)m); std::atomic<int> bad{0}; vector<std::thread> th; ctx_slow = true; for (size_t i = 0; i < m; i++) th.emplace_back([&] { pthread_barrier_wait(&b); if (nostr_init() != NOSTR_OK) bad++; nostr_privkey p; nostr_key q; string w; if (nostr_key_generate(&p, &q) != NOSTR_OK || !pub_of(B(p.data, 32), &w) || w != B(q.data, 32)) bad++; }); for (auto& x : th) x.join(); ctx_slow = false; pthread_barrier_destroy(&b); hist += strf("%zu threads init; ", m); on = true; CHECK(bad == 0, "after %s: %d failures", hist.c_str(), bad.load()); break; }
      }
      CHECK(!on || ctx_live == base, "after %s: %ld contexts instead of %ld", hist.c_str(), ctx_live.load(), base);
    }
    nostr_cleanup(); CHECK(ctx_live == 0, "after %s and the end: %ld contexts are kept", hist.c_str(), ctx_live.load()); CHECK(nostr_init() == NOSTR_OK, "after %s: no start", hist.c_str()); for (auto& u : uses()) CHECK(use(u), "after %s and a restart", hist.c_str());
  });
  for (auto& t : h) { static const char* nm[] = {"init", "cleanup", "use", "init_with_config", "threads"}; tr += string(nm[t.k]) + (t.k == 2 ? string(" ") + uses()[t.u].name : "") + (t.fault ? "!" : "") + " "; }
  c.nontrivial(faults ? "with failures" : stops ? "with restarts" : "plain"); c.sample(tr);
}
