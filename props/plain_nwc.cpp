// P51: Wallet Connect on the library built without cJSON: checks of P41-P43, and what the build can and cannot read
#include "p_nwc.cpp"
#include "plain51.h"
ALSO51(P41, uri, 3); ALSO51(P41, info, 2); ALSO51(P41, memory, 1); ALSO51(P42, params, 8); ALSO51(P42, no_number, 1); ALSO51(P43, history, 2); ALSO51(P43, memory, 1);

PROP(P51, params_memory, 2) { JV w; string n; c.nontrivial("allocation failures"); std::function<void(const std::function<Made()>&)> f = [&](const std::function<Made()>& g) { with_faults(s, n.c_str(), [&] { Made m = g(); return std::make_pair(m.ok, m.t); }); }; g_params(s, &w, &n, &f); c.sample(n); }
PROP(P51, request, 3) {
  Nwc w = g_nwc(s); Key sv = g_key(s), cl = g_key(s); w.service = sv.pub; w.secret = cl.priv; Conn k(uri_of(s, w, false)); CHECK(k.c, "connection"); string method = s.flip() ? g_words(s, 1)[0] : g_text(s, s.chance(1, 4) ? 600 : 30); JV v = jobj({{"a", g_json(s)}, {"b", s.chance(1, 3) ? jstr(string(s.size(20000), 'p')) : jint(5)}}); string ps = json_variant(v, s, false); bool refuse = s.chance(1, 6); if (refuse) ps = s.pick(vector<string>{"", "x", "5", "\"a\"", "pay", ",{}"});
  CStr m(method), p(ps); nostr_event* e = nullptr; nostr_error_t r = nostr_nip47_create_request_event(&e, k.c, m, p, 1); c.nontrivial(refuse ? "no parameters" : "request"); c.sample(vo::show(method, 40) + " " + vo::show(ps, 80)); CHECK((r == NOSTR_OK) == !refuse && !refuse == (e != nullptr), "create_request_event -> %d with %p for %s", r, (void*)e, vo::show(ps, 100).c_str()); if (refuse) return; Ev g = grab(e); string x, t; JV j; CHECK(g.kind == 23194 && g.pubkey == cl.pub && g.created_at == NOW && proper(g) && g.tags == vector<vector<string>>({{"p", hex(sv.pub)}, {"encryption", "nip44_v2"}}), "request %s", vo::show(g.json_text(), 300).c_str());
  CHECK(ecdh_x(sv.priv, cl.pub, &x) && open44(x, g.content, &t), "the wallet cannot open the request"); CHECK(json_parse(t, &j) && json_compact(j) == json_compact(jobj({{"method", jstr(method)}, {"params", v}})), "the request became %s", vo::show(t, 300).c_str());
}
// whatever a reply says, nothing is read from it that it does not say
PROP(P51, reply, 4) {
  Key sv = g_key(s), cl = g_key(s); bool note = s.chance(1, 3), bad = s.chance(1, 4); string type = g_words(s, 1)[0]; JV body = jobj({{"x", g_json(s)}}); bool err = !note && s.chance(1, 3); vector<std::pair<string, JV>> m = {{note ? "notification_type" : "result_type", jstr(type)}}; if (err) m.push_back({"error", jobj({{"code", jstr("QUOTA_EXCEEDED")}, {"message", jstr("no")}})}); else m.push_back({note ? "notification" : "result", body});
  string t = bad ? g_text(s, 60) + "." : json_variant(shuffled(s, m, {"other"}), s); Ev e = msg_of(s, sv, cl, note ? 23197 : 23195, t); e.seal(sv.priv); c.nontrivial(bad ? "no reply" : note ? "notification" : "response"); c.sample(vo::show(t, 100)); EvPtr x(lib_event(e)); heap_reset(); nostr_privkey k = lpriv(cl.priv); char* o[4] = {(char*)1, (char*)1, (char*)1, (char*)1}; nostr_error_t r = note ? nostr_nip47_parse_notification_event(x.e, &k, &o[0], &o[1]) : nostr_nip47_parse_response_event(x.e, &k, &o[0], &o[1], &o[2], &o[3]); int n = note ? 2 : 4;
  if (r != NOSTR_OK) { for (int i = 0; i < n; i++) CHECK(!o[i], "a refused reply left output %d", i); CHECK(heap_live() == 0, "a refused reply left memory"); return; }
  CHECK(!bad, "%s was read as a reply", vo::show(t, 300).c_str()); CHECK(o[0] && type == o[0], "type %s of %s", o[0] ? o[0] : "(none)", vo::show(t, 300).c_str()); if (err) CHECK(!o[1] && o[2] && !strcmp(o[2], "QUOTA_EXCEEDED") && o[3] && !strcmp(o[3], "no"), "the error of %s was read as %s, %s, %s", vo::show(t, 300).c_str(), o[1] ? o[1] : "-", o[2] ? o[2] : "-", o[3] ? o[3] : "-"); else CHECK(o[1] && same_json(o[1], body), "body %s of %s", o[1] ? o[1] : "(none)", vo::show(t, 300).c_str()); for (int i = 0; i < n; i++) vf_free(o[i]);
}
PROP(P51, results, 5) {
  int what = (int)s.below(3); uint64_t big = s.chance(1, 3) ? (1ull << 53) - s.below(3) : s.below(1ull << (1 + s.below(53))); static const char* odd[] = {"-1", "-5e3", "1e20", "18446744073709551616", "1e400", "\"5\"", "null", "true", "[5]", "{\"balance\":5}"}; bool escapes = s.chance(1, 4);
  auto around = [&](vector<std::pair<string, JV>> m) { if (s.chance(1, 2)) m.push_back({"note", jstr(s.pick(vector<string>{"\"balance\":77", "\"preimage\":\"aa\"", ",\"fees_paid\":9,", "balance", "\\", "{", "}"}))}); if (s.chance(1, 2)) m.push_back({"inner", jobj({{"balance", jint(78)}, {"preimage", jstr("bb")}, {"fees_paid", jint(8)}})}); if (s.chance(1, 4)) m.push_back({"list", jarr({jstr("balance"), jstr("preimage"), jobj({{"balance", jint(79)}})})}); JV o = shuffled(s, m, {"Balance", "PREIMAGE", "fees", "my balance"}); return escapes ? json_variant(o, s) : json_variant(o, s, true); };
  if (what == 0) { int mode = (int)s.below(3); string num = mode == 1 ? string(s.pick(odd)) : std::to_string(big); JV v; json_parse(num, &v); string t = around(mode == 2 ? vector<std::pair<string, JV>>{} : vector<std::pair<string, JV>>{{"balance", v}}); CStr ct(t); uint64_t b = 42; nostr_error_t e = nostr_nip47_parse_balance_response(ct, &b); c.nontrivial("balance"); c.sample(vo::show(t, 80)); if (e == NOSTR_OK) CHECK(mode == 0 && b == big, "balance %llu of %s", (unsigned long long)b, vo::show(t).c_str()); else if (mode == 0 && t.find("\"balance\"") != string::npos && t.find('\\') == string::npos) CHECK(false, "the balance of %s is refused: %d", vo::show(t).c_str(), e); return; }
  if (what == 1) { string pre = g_hexid(s); vector<std::pair<string, JV>> m; bool hp = s.chance(4, 5), hf = s.flip(); string of = s.chance(1, 4) ? string(s.pick(odd)) : ""; if (hp) m.push_back({"preimage", jstr(pre)}); JV v; if (hf) { json_parse(of.empty() ? std::to_string(big) : of, &v); m.push_back({"fees_paid", v}); } string t = around(m); bool plain = t.find('\\') == string::npos; CStr ct(t); heap_reset(); char* p = (char*)1; uint64_t f = 99; int mk = (int)s.below(4); nostr_error_t e = nostr_nip47_parse_pay_invoice_response(ct, mk & 1 ? nullptr : &p, mk & 2 ? nullptr : &f); c.nontrivial("payment"); c.sample(vo::show(t, 80));
    if (e != NOSTR_OK) { CHECK(!plain, "payment %s -> %d", vo::show(t).c_str(), e); if (!(mk & 1)) CHECK(!p, "a refused payment left a preimage"); CHECK(heap_live() == 0, "a refused payment left memory"); return; }
    if (!(mk & 1)) { if (p) CHECK(hp && pre == p, "preimage %s of %s", p, vo::show(t).c_str()); else CHECK(!hp || !plain, "no preimage in %s", vo::show(t).c_str()); vf_free(p); } if (!(mk & 2)) { uint64_t want = hf && of.empty() ? big : 0; CHECK(f == want || (!plain && f == 0), "fees %llu of %s", (unsigned long long)f, vo::show(t).c_str()); } return; }
  string al = g_text(s, 20), t = around({{"alias", jstr(al)}, {"block_height", jint(7)}, {"methods", jarr({jstr("pay_invoice")})}}); CStr ct(t); heap_reset(); char* o[4] = {(char*)1, (char*)1, (char*)1, (char*)1}; uint32_t bh = 7; char** me = (char**)1; size_t mc = 9; nostr_error_t e = nostr_nip47_parse_info_response(ct, &o[0], &o[1], &o[2], &o[3], &bh, &me, &mc); c.nontrivial("info"); c.sample(vo::show(t, 80));
  if (e != NOSTR_OK) { for (auto p : o) CHECK(!p, "refused information left a text"); CHECK(!me && !mc && heap_live() == 0, "refused information left memory"); return; }
  CHECK(o[0] && al == o[0] && !o[1] && !o[2] && !o[3] && bh == 7 && mc == 1 && !strcmp(me[0], "pay_invoice"), "%s was read as alias %s, color %s, pubkey %s, network %s, height %u, %zu methods", vo::show(t, 300).c_str(), o[0] ? o[0] : "-", o[1] ? o[1] : "-", o[2] ? o[2] : "-", o[3] ? o[3] : "-", bh, mc); vf_free(me[0]); vf_free(me); for (auto p : o) vf_free(p);
}
// remote signing needs JSON: it is refused, without output
PROP(P51, remote_signing, 1) {
  Key a = g_key(s), b = g_key(s); string t = json_compact(jobj({{"id", jstr("7")}, {"method", jstr("ping")}, {"params", jarr({})}})); Ev e = msg_of(s, a, b, 24133, t); EvPtr x(lib_event(e)); nostr_privkey k = lpriv(b.priv); nostr_key pk; memcpy(pk.data, a.pub.data(), 32); heap_reset(); c.nontrivial("remote signing"); c.sample("remote signing"); nostr_nip46_request_t q; memset(&q, 0, sizeof q); CHECK(nostr_nip46_parse_request(x.e, &k, &q) != NOSTR_OK && !q.params, "a request was read"); nostr_nip46_response_t r; memset(&r, 0, sizeof r); strcpy(r.id, "7"); char ack[] = "ack"; r.result = ack; nostr_event* o = nullptr; CHECK(nostr_nip46_create_response(&r, &k, &pk, &o) != NOSTR_OK && !o, "a response was made"); CHECK(heap_live() == 0, "a refusal left memory");
}
