#include "p_event.cpp"
#include "plain.h"
extern "C" void vf_free(void*);
ALSO(P01, id_depends_on_every_field, 3); ALSO(P02, sign_then_verify, 4); ALSO(P02, tamper, 6); ALSO(P02, bad_secret, 1);
#ifndef VF_MBEDTLS
ALSO(P02, rng_failure, 1);
#endif
ALSO(P05, tag_history, 2);
// The id of any event, odd ones included, is the hash of its canonical form.
static Ev g_shaped(Src& s, Ctx& c) {   // many tags of few bytes, few tags of many bytes, bytes that grow when escaped
  Ev e = g_event(s, c);
  switch (s.below(6)) {
    case 0: { size_t n = s.size(s.chance(1, 10) ? 5000 : 900); string v = s.flip() ? "" : string(s.below(3), s.pick({'a', '"', '\x01'})); bool two = s.chance(1, 4); e.tags.clear(); while (n--) { e.tags.push_back({v}); if (two) e.tags.back().push_back(""); } c.label("many short tags"); break; }
    case 1: { size_t n = s.size(3000); e.content = string(n, s.pick({'\x01', '\x1f', '"', '\\', '\n', '\x7f', 'a'})); c.label("growing content"); break; }
    case 2: { size_t n = 1 + s.size(1500); e.tags.push_back({"t", string(n, s.pick({'\x01', '\x1f', '"', '\\', '\b', '\x7f'}))}); c.label("growing value"); break; }
    case 3: e.created_at = (int64_t)s.u64(8); break;
    default:;
  }
  return e;
}
PROP(P48, id, 10) {
  Ev e = g_shaped(s, c); EvPtr x(lib_event(e)); if (e.content.empty() && s.flip()) { vf_free(x->content); x->content = nullptr; } string want = e.serial(); c.note("canonical %s", want.c_str()); c.sample(show(e)); if (!e.tags.empty() || e.content.size()) c.nontrivial();
  nostr_error_t r = nostr_event_compute_id(x.e); CHECK(r == NOSTR_OK, "compute_id -> %d", r); CHECK(string((char*)x->id, 32) == sha256(want), "id %s of %s", hex(x->id, 32).c_str(), show(want, 400).c_str());
  string why; Ev after = from_lib(x.e); after.id = e.id; CHECK(same(after, e, &why), "compute_id altered the event: %s", why.c_str());
}
// With any allocation failing, an id, a signature or a verdict is right or refused, and nothing is lost.
PROP(P48, memory_runs_out, 2) {
  Ev e = g_shaped(s, c); if (e.tags.size() > 60) e.tags.resize(60); Key k = g_key(s); int op = (int)s.below(3); if (op == 2) e.seal(k.priv); nostr_privkey pk = PK(k.priv); heap_reset();
  { EvPtr x(lib_event(e)); long before = heap_count(); bool all = s.flip(); long n = (long)s.below(2 * std::min<size_t>(e.tags.size(), 10) + 4); if (all) heap_fail_from(n); else heap_fail_at(n);
    nostr_error_t r = op == 0 ? nostr_event_compute_id(x.e) : op == 1 ? nostr_event_sign(x.e, &pk) : nostr_event_verify(x.e); bool fired = heap_fault_fired(); heap_fail_at(-1); c.nontrivial(fired ? "ran out" : "enough"); c.sample(strf("op %d, allocation %ld", op, n));
    CHECK(r == NOSTR_OK || fired, "op %d -> %d with enough memory", op, r); Ev g = from_lib(x.e); CHECK(g.tags == e.tags && g.content == e.content && g.kind == e.kind && g.created_at == e.created_at, "op %d changed the event", op);
    if (r == NOSTR_OK && op < 2) CHECK(g.id == sha256(g.serial()), "op %d: id %s of %s", op, hex(g.id).c_str(), show(g.serial(), 300).c_str()); if (r == NOSTR_OK && op == 1) CHECK(g.pubkey == k.pub && schnorr_verify(k.pub, g.id, g.sig), "a wrong signature"); if (op == 2) CHECK(g.id == e.id && g.sig == e.sig && g.pubkey == e.pubkey, "verify changed the event"); }
  CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
// What needs JSON says so and writes nothing.
PROP(P48, json_is_refused, 2) {
  Ev e = g_ev(s); e.seal(g_key(s).priv); string t = s.chance(1, 4) ? g_text(s, 60) : s.pick({e.json_text(), json_compact(jarr({jstr("EVENT"), e.json()})), json_compact(jarr({jstr("REQ"), jstr("a"), jobj({})})), string("{\"kinds\":[1]}"), string("{}"), string("")}); Raw raw(t); CStr ct(t); c.nontrivial(); c.sample(show(t)); heap_reset();
  { EvPtr x(lib_event(e)); nostr_event* o = (nostr_event*)1; char* j = (char*)1; nostr_error_t r = nostr_event_from_json(ct, &o); CHECK(r == NOSTR_ERR_NOT_SUPPORTED, "from_json -> %d", r); r = nostr_event_to_json(x.e, &j); CHECK(r == NOSTR_ERR_NOT_SUPPORTED && (j == (char*)1 || !j), "to_json -> %d", r);
    CHECK(nostr_event_parse(raw.p, raw.n, &o) != NOSTR_RELAY_OK && (o == (nostr_event*)1 || !o), "event_parse"); size_t n = s.below(300); CBuf b(n + 1); size_t len = 0; CHECK(nostr_event_serialize(x.e, b.p, n + 1, &len) != NOSTR_RELAY_OK && nostr_event_serialize_canonical(x.e, b.p, n + 1, &len) != NOSTR_RELAY_OK, "event_serialize");
    nostr_client_msg_t m; memset(&m, 0x5a, sizeof m); nostr_relay_error_t e2 = nostr_client_msg_parse(raw.p, raw.n, &m); CHECK(e2 != NOSTR_RELAY_OK, "client_msg_parse"); nostr_filter_t f; memset(&f, 0x5a, sizeof f); e2 = nostr_filter_parse(raw.p, raw.n, &f); CHECK(e2 != NOSTR_RELAY_OK, "filter_parse");
    nostr_relay_msg_t q; switch (s.below(3)) { case 0: nostr_relay_msg_notice(&q, "hi"); break; case 1: nostr_relay_msg_eose(&q, "sub"); break; default: nostr_relay_msg_event(&q, "sub", x.e); } e2 = nostr_relay_msg_serialize(&q, b.p, n + 1, &len); CHECK(e2 != NOSTR_RELAY_OK, "relay_msg_serialize");
    nostr_relay_limitation_t l; memset(&l, 0, sizeof l); nostr_relay_info_t i; memset(&i, 0, sizeof i); CHECK(nostr_relay_limitation_serialize(&l, b.p, n + 1, &len) != NOSTR_RELAY_OK && nostr_relay_info_serialize(&i, b.p, n + 1, &len) != NOSTR_RELAY_OK, "nip11"); CHECK(len == 0, "a length of %zu reported", len); }
  CHECK(heap_live() == 0, "leak: %s", heap_live_desc().c_str());
}
