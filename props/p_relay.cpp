// P33 relay client: what is written and delivered; P34: life of the connection.
#include "oracle.h"
#include "vf_ws.h"
#include <algorithm>
#include <mutex>
using namespace vf; using namespace vo;

// ------------------------------------------------------------ what the library calls back
struct Call { char what; int tag; string text; Ev ev; nostr_relay_state st; };      // 'E'vent, 'M'essage, 'S'tate
static std::mutex lm; static vector<Call> calls_; static vector<string> cberr;
struct Tag { int n; std::function<void()>* act; int skip; };   // act is run inside a callback, after `skip` others
static Tag tags[64]; static nostr_relay* cur;
static void run_act(Tag* t) { if (t->act && t->skip-- <= 0) { auto f = t->act; t->act = nullptr; (*f)(); } }
static void on_event(const nostr_event* e, void* u) { { std::lock_guard<std::mutex> l(lm); Call c; c.what = 'E'; c.tag = ((Tag*)u)->n; c.ev = from_lib(e); calls_.push_back(c); } run_act((Tag*)u); }
static void on_msg(const char* type, const char* data, void* u) { { std::lock_guard<std::mutex> l(lm); Call c; c.what = 'M'; c.tag = ((Tag*)u)->n; c.text = data; c.ev.content = type; calls_.push_back(c); } run_act((Tag*)u); }
static void on_state(nostr_relay* r, nostr_relay_state s, void* u) { { std::lock_guard<std::mutex> l(lm); Call c; c.what = 'S'; c.tag = ((Tag*)u)->n; c.st = s; calls_.push_back(c); if (r != cur) cberr.push_back("state callback for another relay"); if (r->state != s) cberr.push_back(strf("relay->state is %d while %d is announced", r->state, s)); } run_act((Tag*)u); }
static vector<Call> take() { std::lock_guard<std::mutex> l(lm); auto r = calls_; calls_.clear(); return r; }
static void fresh() { ws::reset(); heap_reset(); take(); cberr.clear(); cur = nullptr; clock_virtual = true; clock_now = 1700000000; for (int i = 0; i < 64; i++) tags[i] = {i, nullptr, 0}; }
static void sane() { CHECK(ws::misuse().empty(), "%s", ws::misuse().c_str()); CHECK(cberr.empty(), "%s", cberr[0].c_str()); }
static string show(const Call& c) { return c.what == 'E' ? strf("event to callback %d: ", c.tag) + show(c.ev) : c.what == 'M' ? strf("message to callback %d: %s %s", c.tag, c.ev.content.c_str(), c.text.c_str()) : strf("state %d", c.st); }
static string show(const vector<Call>& v) { string o; for (auto& c : v) o += show(c).substr(0, 300) + "; "; return o; }

// ------------------------------------------------------------ generators
static const char* SUBS[] = {"s", "sub1", "a b", "\xc3\xa9t\xc3\xa9", "0123456789"};
static bool long_subs = false;   // most of the ids of this history are long and nearly the same
static string g_sub(Src& s) { if (long_subs && s.chance(3, 4)) { static const size_t ln[] = {63, 64, 64, 65, 128, 254, 255, 256, 32}; string o(s.pick(ln), 'x'); if (s.chance(1, 3)) o[s.flip() ? 0 : s.flip() ? o.size() - 1 : 62 % o.size()] = 'y'; return o; } return s.chance(1, 8) ? string(s.flip() ? s.range(60, 256) : s.pick({63, 64, 65, 255, 256}), 'x') : s.pick(SUBS); }
static Ev g_small(Src& s) { Ev e = g_ev(s); if (e.tags.size() > 20) e.tags.resize(20); if (e.created_at < 0) e.created_at = -e.created_at; e.created_at %= 1000000000000000ll; e.kind &= 0xffff; for (auto& t : e.tags) for (auto& v : t) if (v.size() > 2000) v.resize(0); if (e.content.size() > 5000) e.content = "x"; return e; }
static string g_filter(Src& s, bool* ok) {
  *ok = true; static const char* f[] = {"{}", "{\"kinds\":[1]}", "{\"ids\":[\"ab\"],\"limit\":5}", " {\"search\":\"]}\\\"[\"} ", "{\"#e\":[\"x\"],\"since\":1}", "{\"kinds\":[1]},{\"kinds\":[2]}", "{}\n,\n{}"};
  static const char* b[] = {"", "x", "{", "[]", "[{}]", "1", "null", "\"a\"", "{},1", "{},", "{}]", "{}],[\"EVENT\",{}", "{},\"x\",{}", "{\"kinds\":[1]", "}{", "true"};
  if (s.chance(3, 4)) return s.pick(f);
  *ok = false; return s.pick(b);
}
static JV g_plain(Src& s, int d = 0) { switch (s.weighted({4, 2, 1, 1, d < 2 ? 2u : 0u})) { case 0: return jstr(s.chance(1, 3) ? string("]\",[{\\\"}") : g_text(s, 20)); case 1: return jint(s.range(-1000, 1000)); case 2: return jbool(s.flip()); case 3: return jnull(); default: { vector<JV> a; size_t n = s.below(3); while (n--) a.push_back(g_plain(s, d + 1)); if (s.flip()) return jarr(a); vector<std::pair<string, JV>> o; for (size_t i = 0; i < a.size(); i++) o.push_back({strf("k%zu", i), a[i]}); return jobj(o); } } }

// ------------------------------------------------------------ P33
struct World {
  nostr_relay* r = nullptr; vector<std::pair<string, int>> subs; int msgcb = -1; bool up = false, hold = false; vector<string> wire; vector<Call> want; vector<std::function<void()>*> acts;
  ~World() { for (auto a : acts) delete a; }
  std::pair<string, int>* sub(const string& id) { for (auto& p : subs) if (p.first == id) return &p; return nullptr; }
  void drop(const string& id) { subs.erase(std::remove_if(subs.begin(), subs.end(), [&](auto& p) { return p.first == id; }), subs.end()); }
};
static int next_tag;
// the message could not be written: refused, or the connection ends with it
static void lose(World& w) { CHECK(ws::drain(), "served"); auto got = take(); CHECK(got.size() == 1 && got[0].what == 'S' && got[0].st == NOSTR_RELAY_DISCONNECTED && !ws::open(), "a message that was accepted could not be written; callbacks: %s", show(got).c_str()); w.up = false; w.wire.clear(); }
static bool valid_sub_id(const string& id) { if (id.empty() || id.size() > 256) return false; for (char ch : id) if (ch == '"' || ch == '\\' || (unsigned char)ch < 0x20) return false; return true; }
// one call of the client interface and its model; also used from inside callbacks
static void do_subscribe(World& w, const string& id, const string& filters, bool fok, int tag, bool null_cb, Src* s, Ctx* c) {
  CStr ci(id), cf(filters); bool oom = s && s->chance(1, 12); if (oom) heap_fail_at(s->below(12));
  nostr_error_t e = nostr_subscribe(w.r, ci, cf, null_cb ? nullptr : on_event, &tags[tag]); bool fired = oom && heap_fault_fired(); if (oom) heap_fail_at(-1);
  bool ok = w.up && valid_sub_id(id) && fok; if (ok && ws::fail_write && e == NOSTR_OK) { lose(w); return; } if (ws::fail_write) ok = false;
  if (fired) { if (e != NOSTR_OK) { CHECK(e == NOSTR_ERR_MEMORY || !ok || e == NOSTR_ERR_INVALID_PARAM, "error %d", e); if (c) c->label("subscribe without memory"); return; } }
  CHECK((e == NOSTR_OK) == ok, "nostr_subscribe(\"%s\", %s) gives %d; connected %d, writable %d", vo::show(id).c_str(), filters.c_str(), e, w.up, !ws::fail_write);
  if (ok) { w.drop(id); w.subs.push_back({id, null_cb ? -1 : tag}); w.wire.push_back("[\"REQ\",\"" + id + "\"," + filters + "]"); if (c) c->label("subscribed"); }
}
static void do_unsubscribe(World& w, const string& id, Src* s, Ctx* c) {
  CStr ci(id); bool oom = s && s->chance(1, 12); if (oom) heap_fail_at(s->below(4)); nostr_error_t e = nostr_relay_unsubscribe(w.r, ci); bool fired = oom && heap_fault_fired(); if (oom) heap_fail_at(-1);
  if (fired && e == NOSTR_ERR_MEMORY) { if (c) c->label("unsubscribe without memory"); return; }   // still subscribed, checked by later events
  bool valid = w.up && valid_sub_id(id); if (valid) w.drop(id); if (valid && ws::fail_write && e == NOSTR_OK) { lose(w); return; }
  CHECK((e == NOSTR_OK) == (valid && !ws::fail_write), "nostr_relay_unsubscribe(\"%s\") gives %d; connected %d", vo::show(id).c_str(), e, w.up);
  if (e == NOSTR_OK) { w.wire.push_back("[\"CLOSE\",\"" + id + "\"]"); if (c) c->label("unsubscribed"); }
}
static void do_publish(World& w, const Ev& ev, Src* s, Ctx* c, bool alias) {
  EvPtr e(lib_event(ev)); bool oom = s && s->chance(1, 15); if (oom) heap_fail_at(s->below(20));
  nostr_error_t r = alias ? nostr_publish_event(w.r, e.e) : nostr_relay_send_event(w.r, e.e); bool fired = oom && heap_fault_fired(); if (oom) heap_fail_at(-1);
  if (fired && r != NOSTR_OK) return; if (w.up && ws::fail_write && r == NOSTR_OK) { lose(w); return; }
  CHECK((r == NOSTR_OK) == (w.up && !ws::fail_write), "publishing gives %d; connected %d writable %d", r, w.up, !ws::fail_write); if (r == NOSTR_OK) { w.wire.push_back("[\"EVENT\"," + ev.json_text() + "]"); if (c) c->label("published"); }
}
static bool same_json(const string& a, const string& b) {
  JV x, y; if (!json_parse(a, &x) || !json_parse(b, &y)) return false;
  std::function<bool(const JV&, const JV&)> eq = [&](const JV& p, const JV& q) -> bool { if (p.t != q.t || p.s != q.s || p.a.size() != q.a.size() || p.o.size() != q.o.size()) return false; for (size_t i = 0; i < p.a.size(); i++) if (!eq(p.a[i], q.a[i])) return false; for (auto& m : p.o) { auto z = q.get(m.first); if (!z || !eq(m.second, *z)) return false; } return true; };
  return eq(x, y);
}
static void check_wire(World& w) {
  auto got = ws::take_written(); CHECK(got.size() == w.wire.size(), "%zu messages written, %zu expected; last written: %s", got.size(), w.wire.size(), got.empty() ? "" : got.back().substr(0, 200).c_str());
  for (size_t i = 0; i < got.size(); i++) CHECK(same_json(got[i], w.wire[i]), "written: %s\nexpected: %s", got[i].substr(0, 400).c_str(), w.wire[i].substr(0, 400).c_str());
  w.wire.clear();
}
// cut data into the pieces in which libwebsockets hands a message over
static bool send(Src& s, const string& data, bool whole = false) {
  size_t pos = 0, frames = whole ? 1 : 1 + s.weighted({4, 2, 1, 1}); vector<size_t> cut{0, data.size()}; while (frames-- > 1) cut.push_back(s.below(data.size() + 1)); std::sort(cut.begin(), cut.end());
  for (size_t i = 0; i + 1 < cut.size(); i++) {
    bool fin = i + 2 == cut.size(); size_t n = cut[i + 1] - cut[i], p = cut[i], end = cut[i + 1];
    while (n && !whole && s.chance(1, 3)) { size_t k = 1 + s.below(n); if (s.chance(1, 4)) k = 1; if (k >= n) break; if (!ws::receive(data.substr(p, k), fin, end - p - k)) return false; p += k; n -= k; }
    if (!ws::receive(data.substr(p, n), fin, 0)) return false;
  }
  return true;
}
static void up(World& w, Src& s, Ctx& c) {
  fresh(); next_tag = 1; CStr url(s.flip() ? "wss://relay.example" : "ws://localhost:7777/x"); CHECK(nostr_relay_create(&w.r, url) == NOSTR_OK, "create"); cur = w.r;
  if (s.flip()) { w.msgcb = next_tag++; CHECK(nostr_relay_set_message_callback(w.r, on_msg, &tags[w.msgcb]) == NOSTR_OK, "set"); }
  CHECK(nostr_relay_connect(w.r, on_state, &tags[0]) == NOSTR_OK, "connect"); if (s.chance(1, 6)) { do_subscribe(w, "early", "{}", true, 1, false, nullptr, nullptr); }
  CHECK(ws::establish(), "nobody served the connection"); w.up = true; take(); sane();
}
PROP(P33, history, 400) {
  long_subs = s.chance(1, 4); if (long_subs) c.label("long ids"); World w; up(w, s, c); auto fin = defer([&] { long_subs = false; if (w.r) nostr_relay_destroy(w.r); clock_virtual = false; });
  size_t n = s.range(1, 14); c.nontrivial(); int k_ev = 0;
  while (n--) {
    bool refuse = s.chance(1, 15); ws::fail_write = false; if (w.hold && (refuse || s.chance(1, 3))) { c.note("writable again"); w.hold = ws::congested = false; check_wire(w); } ws::fail_write = refuse; if (refuse) c.note("a write will be refused"); if (!w.hold && !refuse && s.chance(1, 8)) { w.hold = ws::congested = true; c.note("congested"); c.label("congested"); }
    switch (s.weighted({6, 3, 2, 2, 12, 1})) {
      case 0: { string id = g_sub(s); if (s.chance(1, 10)) { static const char* bad[] = {"", "a\"b", "a\\", "x\n", "a\x1f", "\x01", "a\\n", "a\\\\", "\\u0041", "a\\\"b", "\x1f"}; id = s.flip() ? s.pick(bad) : string(257 + s.below(3), 'y'); } bool fok; string f = g_filter(s, &fok); c.note("subscribe \"%s\" %s", id.substr(0, 40).c_str(), f.c_str()); if (next_tag < 60) do_subscribe(w, id, f, fok, next_tag++, s.chance(1, 10), &s, &c); break; }
      case 1: { string id = w.subs.empty() || s.chance(1, 5) ? g_sub(s) : s.pick(w.subs).first; c.note("unsubscribe \"%s\"", id.substr(0, 40).c_str()); do_unsubscribe(w, id, &s, &c); break; }
      case 2: { bool on = s.chance(3, 4) && next_tag < 60; c.note("message callback %d", on); w.msgcb = on ? next_tag++ : -1; nostr_relay_set_message_callback(w.r, on ? on_msg : nullptr, &tags[on ? w.msgcb : 0]); break; }
      case 3: { Ev e = g_small(s); c.note("publish"); do_publish(w, e, &s, &c, s.flip()); break; }
      case 5: { if (!w.up) break; c.note("peer closes"); ws::close(); w.up = false; if (w.hold) w.wire.clear(); c.label("closed by the relay"); auto got = take(); CHECK(got.size() >= 1 && got[0].what == 'S' && got[0].st == NOSTR_RELAY_DISCONNECTED, "closed by the relay; callbacks: %s", show(got).c_str()); break; }
      default: {
        if (!w.up) break;
        // a websocket message: one or more arrays, or rubbish
        string text; vector<Call> want; string whole_or_not; bool act_planned = false; size_t parts = s.chance(1, 8) ? 2 : 1; ws::fail_write = false;
        std::function<void()> after; bool has_closed = false;
        for (size_t i = 0; i < parts; i++) {
          static const char* ty[] = {"EVENT", "OK", "EOSE", "CLOSED", "NOTICE", "AUTH", "COUNT", "x"}; size_t k = s.weighted({10, 2, 3, 2, 2, 1, 1, 1, i ? 0u : 5u, i ? 0u : 2u}); vector<JV> a; string sid = w.subs.empty() || s.chance(1, 4) ? g_sub(s) : s.pick(w.subs).first;
          if (k == 8) {
            static const char* rub[] = {"hello", "{}", "[", "]", "[\"NOTICE\"", "[\"NOTICE\",\"unfinished]", "{\"a\":[\"NOTICE\",\"x\"]}", "null", "[[\"NOTICE\",\"x\"]", "\"[\\\"NOTICE\\\",1]\"", "[}", "[1,2]", "[\"NOTICE\"]", "[]", "[\"EVENT\",\"s\",]", "[null,\"x\"]", "PING", "0[\"NOTICE\",\"x\"]"};
            text = s.pick(rub); want.clear(); parts = 1; c.label("not a relay message"); break;
          }
          if (k == 9) { // a text with U+0000 fits no C string: nobody gets a part of it, and it names no subscription
            size_t q = s.below(4); JV m = q < 2 ? jarr({jstr("EVENT"), jstr(sid), g_small(s).json()}) : q == 2 ? jarr({jstr("CLOSED"), jstr(sid), jstr("x")}) : jarr({jstr("NOTICE"), jstr(g_text(s, 20))}); JV& at = q == 0 || q == 2 ? m.a[1] : q == 1 ? m.a[2] : m.a[s.below(2)]; put_nul(at, s); text = json_variant(m, s, true); text = text.substr(text.find('[')); want.clear(); parts = 1; c.label("U+0000 in a message");
            if (q >= 2 && m.a[0].s.find('\0') == string::npos) whole_or_not = json_compact(m); break;
          }
          a.push_back(jstr(ty[k])); Call cc; bool deliver = false;
          if (k == 0) {
            Ev e = g_small(s); if (s.chance(1, 25)) e.content = s.bulk(1) + string(s.range(3000, 200000), 'q'), e.content = e.content.substr(1); bool bad = s.chance(1, 8); a.push_back(jstr(sid));
            if (bad) a.push_back(s.flip() ? jstr("event") : jarr({jint(1)})); else a.push_back(e.json());
            if (s.chance(1, 10)) a.push_back(jint(1));
            auto p = w.sub(sid); if (p && p->second >= 0 && !bad) { deliver = true; cc.what = 'E'; cc.tag = p->second; cc.ev = e; c.label("event for a subscription"); k_ev++; } else c.label(p ? "event not delivered" : "event for no subscription");
          } else {
            if (k == 1) a = {a[0], jstr(g_hexid(s)), jbool(s.flip()), jstr(g_text(s, 20))};
            else if (k == 2) a.push_back(jstr(sid));
            else if (k == 3) { a.push_back(jstr(sid)); a.push_back(jstr("error: x")); }
            else { a.push_back(s.chance(2, 5) ? jstr(sid) : g_plain(s)); while (a.size() < 5 && s.flip()) a.push_back(g_plain(s)); }
            if (w.msgcb >= 0) { deliver = true; cc.what = 'M'; cc.tag = w.msgcb; cc.ev.content = ty[k]; cc.text = json_compact(jarr(a)); }
            if (k == 3) { w.drop(sid); has_closed = true; } c.label(string("message ") + ty[k]);
          }
          // from inside the last callback, use the client
          if (deliver && parts == 1 && s.chance(1, 6) && next_tag < 60) {
            act_planned = true; std::function<void()>* f = new std::function<void()>(); w.acts.push_back(f); int t = next_tag++; string id = s.flip() ? sid : g_sub(s); int what = s.below(4); Ev e = g_small(s);
            *f = [&w, t, id, what, e] { try { if (what == 0) do_subscribe(w, id, "{}", true, t, false, nullptr, nullptr); else if (what == 1) do_unsubscribe(w, id, nullptr, nullptr); else if (what == 3) CHECK(nostr_relay_disconnect(w.r) != NOSTR_OK && nostr_relay_connect(w.r, on_state, &tags[0]) != NOSTR_OK, "the connection was ended by the callback it waits for"); else do_publish(w, e, nullptr, nullptr, false); } catch (Violation& v) { std::lock_guard<std::mutex> l(lm); cberr.push_back("inside a callback: " + v.msg); } };
            tags[cc.tag].act = f; c.label("client used from inside a callback");
          }
          if (deliver) want.push_back(cc);
          string one = json_variant(jarr(a), s, true); size_t q = one.find_first_not_of(" \t\r\n"); one = one.substr(q == string::npos ? 0 : q); size_t z = one.find_last_not_of(" \t\r\n"); one = one.substr(0, z + 1);
          static const char* sep[] = {"", "\n", " ", "\r\n"}; text += string(s.pick(sep)) + one; if (s.chance(1, 6)) text += s.pick(sep);
        }
        c.note("relay sends %s", vo::show(text, 3000).c_str());
        bool oom = !act_planned && !has_closed && s.chance(1, 12); if (oom) { if (s.flip()) heap_fail_at(s.below(40)); else heap_fail_from(s.below(40)); }
        bool served = send(s, text); bool fired = oom && heap_fault_fired(); if (oom) heap_fail_at(-1); CHECK(served, "the connection is no longer served");
        auto got = take();
        for (auto& t : tags) t.act = nullptr;
        if (!whole_or_not.empty() && got.size() == 1 && got[0].what == 'M' && got[0].tag == w.msgcb && same_json(got[0].text, whole_or_not)) got.clear();
        auto eqcall = [&](const Call& g, const Call& x, string* why) { if (g.what != x.what || g.tag != x.tag) { *why = "another callback"; return false; } if (g.what == 'E') return same(g.ev, x.ev, why); if (g.ev.content != x.ev.content) { *why = "type"; return false; } *why = "text"; return same_json(g.text, x.text); };
        if (fired) { c.label("memory ran out while receiving"); size_t i = 0; string why; for (auto& g : got) { while (i < want.size() && !eqcall(g, want[i], &why)) i++; CHECK(i < want.size(), "memory ran out; garbled delivery: %s", show(g).c_str()); i++; } }
        else { CHECK(got.size() == want.size(), "sent %s\ncallbacks: %s\nexpected: %s", text.substr(0, 500).c_str(), show(got).c_str(), show(want).c_str()); string why; for (size_t i = 0; i < got.size(); i++) CHECK(eqcall(got[i], want[i], &why), "callback %zu differs (%s): %s\nexpected: %s", i, why.c_str(), show(got[i]).c_str(), show(want[i]).c_str()); }
      }
    }
    sane(); if (!w.hold) check_wire(w); CHECK((w.r->state == NOSTR_RELAY_CONNECTED) == w.up, "state %d, connected %d", w.r->state, w.up);
    for (auto& g : take()) CHECK(false, "unexpected callback: %s", show(g).c_str());
  }
  ws::fail_write = false; if (w.hold && w.wire.size()) c.label("accepted, not yet written, at the end"); nostr_relay_destroy(w.r); w.r = nullptr; sane(); check_wire(w); CHECK(ws::contexts() == 0 && heap_live() == 0, "after destroying: %d contexts, %zu blocks left (%s)", ws::contexts(), heap_live(), heap_live_desc().c_str());
  c.sample(strf("%d events for subscriptions", k_ev));
}
// messages beyond any buffer: delivered whole or not at all, and the next one is not affected
PROP(P33, oversized, 5) {
  World w; up(w, s, c); auto fin = defer([&] { nostr_relay_destroy(w.r); clock_virtual = false; }); c.nontrivial("huge message");
  int t = 50; nostr_relay_set_message_callback(w.r, on_msg, &tags[t]); w.msgcb = t; size_t total = (size_t)s.range(1, 14) << 20, chunk = (size_t)s.range(1, 3) << 20; string inner = "[\"NOTICE\",\"smuggled\"]", text = "[\"NOTICE\",\"";
  while (text.size() < total) { text += string(s.range(1, 400000), 'z'); if (text.size() / chunk != (text.size() + 30) / chunk || s.flip()) { string pad((chunk - text.size() % chunk) % chunk, 'y'); text += pad + "[1]"; } } text += "\"]";
  for (size_t p = 0; p < text.size(); p += chunk) { string piece = text.substr(p, chunk); CHECK(ws::receive(piece, true, text.size() - p - piece.size()), "served"); }
  auto got = take(); CHECK(got.size() <= 1, "%zu callbacks for one huge message", got.size()); CHECK(got.size() == 1 || total > 4 << 20, "a message of %zu bytes was not delivered", text.size()); if (got.size()) CHECK(got[0].text.size() > total, "a part of a huge message was delivered as a message: %s", got[0].text.substr(0, 100).c_str());
  CHECK(ws::receive(inner, true, 0), "served"); got = take(); CHECK(got.size() == 1 && same_json(got[0].text, inner), "the message after a huge one: %zu callbacks", got.size()); sane();
}

// memory that runs out in the middle of a message, cut where a message might begin: delivered whole or not at all, and the next ones are not affected
PROP(P33, torn, 12) {
  World w; up(w, s, c); auto fin = defer([&] { heap_fail_at(-1); nostr_relay_destroy(w.r); clock_virtual = false; }); c.nontrivial("torn message"); int t = 50; nostr_relay_set_message_callback(w.r, on_msg, &tags[t]); w.msgcb = t;
  for (size_t rounds = 1 + s.below(3); rounds--;) {
    static const char* ty[] = {"NOTICE", "AUTH", "x", "OK", "EOSE"}; string text = strf("[\"%s\"", s.pick(ty)); vector<size_t> cut{0}; for (size_t i = 1 + s.below(4); i--;) { text += ","; if (s.chance(1, 3)) text += "\"" + string(s.below(s.flip() ? 40 : 3000), 'p') + "\","; cut.push_back(text.size()); text += strf("[\"NOTICE\",\"smuggled%zu\"]", i); if (s.chance(1, 3)) cut.push_back(text.size()); } text += "]"; if (text.compare(2, 2, "OK") == 0) text.insert(text.size() - 1, ",1,2"); cut.push_back(text.size());
    bool oom = s.chance(3, 4), one = s.chance(2, 3); if (oom) { if (one) heap_fail_at(s.below(3)); else heap_fail_from(s.below(3)); }
    bool frames = s.flip(), fired = false; for (size_t i = 0; i + 1 < cut.size(); i++) { size_t n = cut[i + 1] - cut[i]; bool last = i + 2 == cut.size(); CHECK(ws::receive(text.substr(cut[i], n), !frames || last, frames ? 0 : text.size() - cut[i + 1]), "served"); if (oom && !one && s.chance(1, 4)) { fired |= heap_fault_fired(); heap_fail_at(-1); } }
    fired |= oom && heap_fault_fired(); heap_fail_at(-1); auto got = take(); c.note("%s in %zu pieces, memory failed %d", text.substr(0, 300).c_str(), cut.size() - 1, fired); if (fired) c.label("memory ran out"); CHECK(got.size() <= 1 && (fired || got.size() == 1), "%zu callbacks for one message: %s", got.size(), show(got).c_str()); if (got.size()) CHECK(same_json(got[0].text, text), "a part of a message was delivered: %s", got[0].text.c_str());
    string next = "[\"NOTICE\",\"next\"]"; CHECK(ws::receive(next, true, 0), "served"); got = take(); CHECK(got.size() == 1 && same_json(got[0].text, next), "the next message: %zu callbacks", got.size()); sane();
  }
}
// ------------------------------------------------------------ P34
struct Url { string text, host, path; int port = 0; bool ssl = false, ok = true; };
static Url g_relay_url(Src& s) {
  Url u; u.ssl = s.flip(); static const char* h[] = {"relay.example", "127.0.0.1", "a", "localhost", "xn--caf-dma.example", "10.0.0.1"}; static const char* pa[] = {"", "/", "/nostr", "/a/b/c?x=1&y=:8", "/x:99", "/wss://y"};
  u.host = s.pick(h); bool v6 = s.chance(1, 6); if (v6) { static const char* h6[] = {"::1", "2001:db8::1", "fe80::1:2"}; u.host = s.pick(h6); }
  u.path = s.pick(pa); u.port = u.ssl ? 443 : 80; string port; if (s.flip()) { static const int ps[] = {1, 80, 443, 7777, 8080, 65535}; u.port = s.chance(1, 3) ? (int)s.range(1, 65535) : s.pick(ps); port = strf(":%d", u.port); }
  if (v6 && s.chance(1, 5)) { u.ok = false; static const char* aft[] = {"x", "1", "x:80", ".example", "[", "]", " "}; port = s.pick(aft); } else if (s.chance(1, 8)) { static const char* bp[] = {":0", ":65536", ":99999999999", ":8o", ":-1", ":80:80", ": 80"}; port = s.pick(bp); u.ok = false; }
  string scheme = u.ssl ? "wss://" : "ws://"; if (s.chance(1, 10)) { static const char* bs[] = {"http://", "https://", "", "wss:/", "ws:", "ftp://", "wsss://", "//"}; scheme = s.pick(bs); u.ok = false; }
  if (s.chance(1, 25)) { u.host = ""; if (v6) port = ""; v6 = false; u.ok = false; scheme = "ws://"; }
  u.text = scheme + (v6 ? "[" + u.host + "]" : u.host) + port + u.path; return u;
}
static void check_attempt(const ws::Attempt& a, const Url& u) {
  auto strip = [](string p) { return !p.empty() && p[0] == '/' ? p.substr(1) : p; };
  CHECK(a.address == u.host && a.port == u.port && (a.ssl != 0) == u.ssl && strip(a.path) == strip(u.path) && (a.host == u.host || a.host == u.host + strf(":%d", u.port) || a.host == "[" + u.host + "]" || a.host == "[" + u.host + strf("]:%d", u.port)), "%s connects to host %s port %d TLS %d path %s, as host %s", u.text.c_str(), a.address.c_str(), a.port, a.ssl, a.path.c_str(), a.host.c_str());
}
PROP(P34, life, 10) {
  vector<std::unique_ptr<std::function<void()>>> acts;
  fresh(); auto fin0 = defer([] { clock_virtual = false; fail_thread = false; }); c.nontrivial(); bool plain = s.chance(2, 3); Url u = g_relay_url(s); if (plain) while (!u.ok) { u.ok = true; u = Url{"ws://relay.example:8080/n", "relay.example", "/n", 8080, false, true}; }
  CStr url(u.text); nostr_relay* r = (nostr_relay*)0x1; c.note("url %s", u.text.c_str());
  if (s.chance(1, 15)) { heap_fail_at(s.below(2)); nostr_error_t e = nostr_relay_create(&r, url); CHECK(!heap_fault_fired() || (e == NOSTR_ERR_MEMORY && r == nullptr), "create without memory gives %d, relay %p", e, (void*)r); heap_fail_at(-1); if (e != NOSTR_OK) { CHECK(heap_live() == 0, "leak"); return; } }
  else CHECK(nostr_relay_create(&r, url) == NOSTR_OK, "create");
  cur = r; auto fin = defer([&] { if (r) { heap_fail_at(-1); nostr_relay_destroy(r); } });
  CHECK(r->state == NOSTR_RELAY_DISCONNECTED && u.text == r->url, "a new relay: state %d url %s", r->state, r->url);
  enum { Idle, Pending, Open } m = Idle; int64_t last = 0; size_t n = s.range(1, 12); int ncb = 0; bool tried = false, half = false; string story;
  auto inside = [&](int tag) {   // from inside a callback of the connection it cannot be ended or made anew; nothing happens
    tags[tag].act = nullptr; if (!s.chance(1, 3)) return; bool dis = s.flip(); std::function<void()>* f = new std::function<void()>(); acts.emplace_back(f); *f = [dis, r] { nostr_error_t e = dis ? nostr_relay_disconnect(r) : nostr_relay_connect(r, on_state, &tags[0]); if (e == NOSTR_OK) { std::lock_guard<std::mutex> l(lm); cberr.push_back(strf("nostr_relay_%s inside a callback succeeds", dis ? "disconnect" : "connect")); } }; tags[tag].skip = (int)s.below(2); tags[tag].act = f; c.note("inside callback %d: %s", tags[tag].skip, dis ? "disconnect" : "connect"); c.label(dis ? "disconnect inside a callback" : "connect inside a callback"); };
  auto noact = defer([] { for (auto& t : tags) t.act = nullptr; });
  while (n--) {
    if (s.chance(1, 3)) clock_now += s.pick((const int[]){1, 4, 5, 6, 60}); size_t before = ws::attempts.size(); ws::fail_connect = 0; bool lost = false; take();
    size_t step = s.weighted({6, m == Pending ? 6u : 1u, m == Pending ? 2u : 0u, m == Open ? 4u : 0u, 2, 3, 1}); static const char* steps[] = {"connect ", "establish ", "fail ", "lose ", "disconnect ", "use ", "half-message "}; story += steps[step];
    switch (step) {
      case 0: {   // connect
        int fc = 0; bool fctx = false, oom = false, thr = false, eager = false; switch (s.weighted({8, 2, 1, 3, 1, 3})) { case 1: fc = 1 + s.below(2); break; case 2: fctx = true; break; case 3: oom = true; break; case 4: thr = true; break; case 5: eager = true; break; default: break; }
        ws::fail_connect = fc; ws::fail_context = fctx; fail_thread = thr; ws::eager_open = eager; int tcb = 1 + s.below(39); inside(tcb); if (oom) heap_fail_at(s.below(5));
        nostr_error_t e = nostr_relay_connect(r, on_state, &tags[tcb]); bool fired = oom && heap_fault_fired(); if (oom) heap_fail_at(-1); ws::fail_context = fail_thread = ws::eager_open = false; ws::fail_connect = 0;
        c.note("connect: %d (fail %d %d %d, oom %d)", e, fc, fctx, thr, fired); auto got = take(); sane();
        if (m != Idle) { CHECK(e != NOSTR_OK && ws::attempts.size() == before && got.empty(), "connecting again while %s gives %d", m == Open ? "connected" : "connecting", e); c.label("refused: already connected"); break; }
        bool ok = u.ok && !fc && !fctx && !thr; if (fired) { CHECK(ok || e != NOSTR_OK, "connect %d", e); ok = e == NOSTR_OK; }
        if (ok) ncb = tcb; CHECK((e == NOSTR_OK) == ok, "nostr_relay_connect to %s gives %d", u.text.c_str(), e); if (!u.ok) { CHECK(ws::attempts.size() == before, "connected to %s", ws::attempts.back().address.c_str()); c.label("malformed URL"); }
        if (u.ok && ws::attempts.size() > before) { CHECK(ws::attempts.size() == before + 1, "%zu attempts", ws::attempts.size() - before); check_attempt(ws::attempts.back(), u); }
        if (ok) { CHECK(ws::attempts.size() == before + 1, "no attempt"); last = clock_now; m = eager ? Open : Pending; CHECK(got.size() == (eager ? 2u : 1u) && got[0].st == NOSTR_RELAY_CONNECTING && got[0].tag == ncb && (!eager || got[1].st == NOSTR_RELAY_CONNECTED), "callbacks while connecting: %s", show(got).c_str()); if (eager) c.label("open before connect returns"); }
        else { CHECK(r->state == NOSTR_RELAY_ERROR || r->state == NOSTR_RELAY_DISCONNECTED, "state %d after a failed connect", r->state); CHECK(ws::contexts() == 0 && !ws::serving(), "a failed connect leaves %d contexts", ws::contexts()); c.label("connect failed"); }
        break; }
      case 1: { if (m != Pending) break; inside(ncb); c.note("established"); CHECK(ws::establish(), "not served"); auto got = take(); CHECK(got.size() == 1 && got[0].st == NOSTR_RELAY_CONNECTED && got[0].tag == ncb, "callbacks when established: %s", show(got).c_str()); m = Open; c.label("established"); break; }
      case 2: case 3: {
        if (m == Idle) break; inside(ncb); bool again_fails = s.chance(1, 3); ws::fail_connect = again_fails ? 1 + s.below(2) : 0; c.note("%s after %lld s", m == Open ? "peer closes" : "connection error", (long long)(clock_now - last)); bool waspending = m == Pending;
        if (m == Open && s.flip()) { ws::congested = true; Ev ev = g_small(s); EvPtr e(lib_event(ev)); CHECK(nostr_publish_event(r, e.e) == NOSTR_OK, "publish while the connection is congested"); ws::take_written(); c.label("lost with a message to be written"); }
        CHECK(m == Open ? ws::close() : ws::error(), "not served"); half = false; ws::fail_connect = 0; auto got = take(); sane(); int64_t el = clock_now - last;
        CHECK(got.size() >= 1 && got[0].st == NOSTR_RELAY_DISCONNECTED && got[0].tag == ncb, "connection lost; callbacks: %s", show(got).c_str()); CHECK(ws::take_written().empty(), "written after the connection was lost"); ws::congested = false; bool att = ws::attempts.size() > before; CHECK(ws::attempts.size() <= before + 1, "attempts %zu", ws::attempts.size() - before);
        if (el <= 4) CHECK(!att, "reconnects %lld s after the last attempt", (long long)el); if (el >= 6) CHECK(att, "does not reconnect %lld s after the last attempt", (long long)el);
        if (!att) { CHECK(got.size() == 1, "callbacks: %s", show(got).c_str()); m = Idle; } else { last = clock_now; check_attempt(ws::attempts.back(), u); CHECK(got.size() == (again_fails ? 3u : 2u) && got[1].st == NOSTR_RELAY_CONNECTING && (!again_fails || got[2].st == NOSTR_RELAY_DISCONNECTED), "reconnecting; callbacks: %s", show(got).c_str()); m = again_fails ? Idle : Pending; c.label("reconnecting"); }
        c.label(waspending ? "connection error" : "closed by the relay"); tried = true; break; }
      case 4: { inside(ncb); bool had = r->ws_handle != nullptr; nostr_error_t e = nostr_relay_disconnect(r); c.note("disconnect: %d", e); if (m != Idle) CHECK(e == NOSTR_OK, "disconnect gives %d", e); CHECK(ws::contexts() == 0 && !ws::open() && !ws::pending() && ws::attempts.size() == before, "after disconnect: %d contexts", ws::contexts()); for (auto& g : take()) CHECK(g.st == NOSTR_RELAY_DISCONNECTED && m != Idle, "callbacks while disconnecting: %s", show(g).c_str()); if (m != Idle) { CHECK(r->state == NOSTR_RELAY_DISCONNECTED, "state %d", r->state); c.label("disconnected"); } m = Idle; half = false; break; }
      case 5: {   // use
        Ev ev = g_small(s); EvPtr e(lib_event(ev)); nostr_error_t a = nostr_publish_event(r, e.e), b = nostr_subscribe(r, "q", "{}", on_event, &tags[1]), d = nostr_relay_unsubscribe(r, "q"); auto wr = ws::take_written(); c.note("use: %d %d %d", a, b, d);
        if (m == Open) CHECK(a == NOSTR_OK && b == NOSTR_OK && d == NOSTR_OK && wr.size() == 3, "connected: %d %d %d, %zu written", a, b, d, wr.size()); else CHECK(a != NOSTR_OK && b != NOSTR_OK && d != NOSTR_OK && wr.empty(), "not connected: %d %d %d, %zu written", a, b, d, wr.size()); c.label(m == Open ? "used while connected" : "refused: not connected"); break; }
      case 6: { if (m != Open) break; nostr_subscribe(r, "left", "{}", on_event, &tags[2]); CHECK(ws::receive("[\"NOTICE\",\"half", false, 0), "served"); half = true; take(); ws::take_written(); c.label("message cut off"); break; }
    }
    sane();
    if (tried || m != Idle) { nostr_relay_state st = r->state; CHECK(m == Open ? st == NOSTR_RELAY_CONNECTED : m == Pending ? st == NOSTR_RELAY_CONNECTING : st == NOSTR_RELAY_DISCONNECTED || st == NOSTR_RELAY_ERROR, "state %d; in truth %s", st, m == Open ? "connected" : m == Pending ? "connecting" : "not connected"); }
    CHECK(ws::open() == (m == Open) && ws::pending() == (m == Pending), "connection open %d pending %d", ws::open(), ws::pending());
    if (m == Open && s.chance(1, 4)) {   // the first message of a connection is its own
      nostr_relay_set_message_callback(r, on_msg, &tags[40]); for (int k = half ? 2 : 1; k--;) { CHECK(ws::receive("[\"NOTICE\",\"hi\"]", true, 0), "served"); auto got = take(); if (!k) CHECK(got.size() == 1 && got[0].what == 'M', "callbacks for a notice%s: %s", half ? " after the rest of another" : "", show(got).c_str()); } half = false;
    }
  }
  c.sample(strf("%s: %s", u.text.c_str(), story.c_str()));
  inside(ncb); int64_t t0 = clock_now; nostr_relay_destroy(r); r = nullptr; sane(); CHECK(ws::contexts() == 0 && !ws::serving() && heap_live() == 0, "after destroying: %d contexts, %zu blocks left (%s)", ws::contexts(), heap_live(), heap_live_desc().c_str());
}
