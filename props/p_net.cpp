// P49: the relay client over real connections. libwebsockets itself, and a relay of the harness on the loopback
// whose every byte the case decides: how messages are cut into frames and segments, pings between the frames, how
// fast it reads, how the connection ends.
#include "oracle.h"
#include <libwebsockets.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
using namespace vf; using namespace vo;

static std::mutex gm; static std::condition_variable gcv;     // one lock for everything a case observes
template <class F> static bool until(F f, int secs = 20) { std::unique_lock<std::mutex> l(gm); return gcv.wait_for(l, std::chrono::seconds(secs), f); }

struct Relay {      // one listening socket, one connection
  int ls = -1, port = 0, wake[2] = {-1, -1}; std::thread th;
  enum How { Accept, Refuse, Hangup, Wrong } how = Accept;
  // under gm
  string request, bad; vector<string> got; std::deque<string> out; bool paused = false, stop = false, up = false, ended = false, drop = false, got_close = false; size_t pongs = 0;
  bool start() {
    ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (ls < 0) return false; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; int small = 4096; setsockopt(ls, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
    if (bind(ls, (sockaddr*)&a, sizeof a) || listen(ls, 1) || getsockname(ls, (sockaddr*)&a, &n) || pipe2(wake, O_CLOEXEC | O_NONBLOCK)) return false; port = ntohs(a.sin_port); th = std::thread([this] { serve(); }); return true;
  }
  void poke() { char z = 0; if (write(wake[1], &z, 1) < 0) {} }
  ~Relay() { { std::lock_guard<std::mutex> l(gm); stop = true; } if (th.joinable()) { poke(); th.join(); } for (int f : {ls, wake[0], wake[1]}) if (f >= 0) ::close(f); }
  void note(const string& b) { std::lock_guard<std::mutex> l(gm); if (bad.empty()) bad = b; gcv.notify_all(); }
  bool wait(int fd, short ev) { for (;;) { { std::lock_guard<std::mutex> l(gm); if (stop) return false; } pollfd p[2] = {{fd, ev, 0}, {wake[0], POLLIN, 0}}; if (poll(p, 2, 1000) < 0) return false; if (p[1].revents) { char z[64]; if (read(wake[0], z, sizeof z) < 0) {} } if (p[0].revents) return true; if (p[1].revents && ev != POLLIN) return true; } }
  void serve() {
    if (!wait(ls, POLLIN)) return; int c = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK); if (c < 0) return;
    talk(c); ::close(c); std::lock_guard<std::mutex> l(gm); ended = true; up = false; gcv.notify_all();
  }
  void talk(int c) {
    int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); string in; char buf[16384];
    while (in.find("\r\n\r\n") == string::npos) { if (!wait(c, POLLIN)) return; ssize_t n = read(c, buf, sizeof buf); if (n == 0) return; if (n > 0) in.append(buf, (size_t)n); if (in.size() > 20000) { note("a handshake without end"); return; } }
    string head = in.substr(0, in.find("\r\n\r\n") + 2); in.erase(0, head.size() + 2); { std::lock_guard<std::mutex> l(gm); request = head; gcv.notify_all(); }
    if (how == Hangup) return;
    auto field = [&](const char* name) { string low; for (char ch : head) low += (char)tolower((unsigned char)ch); size_t p = low.find(string("\r\n") + name + ":"); if (p == string::npos) return string(); p += strlen(name) + 3; size_t e = head.find("\r\n", p); string v = head.substr(p, e - p); while (!v.empty() && v[0] == ' ') v.erase(0, 1); return v; };
    string key = field("sec-websocket-key"); if (key.empty()) { note("no Sec-WebSocket-Key in the handshake: " + head); return; }
    unsigned char h[20], b64[40]; string k = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; SHA1((const unsigned char*)k.data(), k.size(), h); EVP_EncodeBlock(b64, h, 20);
    string resp = how == Accept ? "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + string((char*)b64) + "\r\n\r\n" : how == Refuse ? (string)("HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n") : "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + string((char*)b64 + 1) + "=\r\n\r\n";
    std::deque<string> mine{resp}; { std::lock_guard<std::mutex> l(gm); up = how == Accept; gcv.notify_all(); }
    string cur; bool inmsg = false;
    for (;;) {
      bool rd; { std::lock_guard<std::mutex> l(gm); if (stop || drop) return; rd = !paused; while (!out.empty()) { mine.push_back(out.front()); out.pop_front(); } }
      // frames of the client
      for (;;) {
        if (in.size() < 2) break; unsigned char a = (unsigned char)in[0], b = (unsigned char)in[1]; uint64_t len = b & 127; size_t p = 2; if (len == 126) { if (in.size() < 4) break; len = (uint64_t)(unsigned char)in[2] << 8 | (unsigned char)in[3]; p = 4; } else if (len == 127) { if (in.size() < 10) break; len = 0; for (int i = 2; i < 10; i++) len = len << 8 | (unsigned char)in[i]; p = 10; }
        if (a & 0x70 || !(b & 0x80) || len > (64u << 20)) { note(strf("not a frame of a client: %02x %02x", a, b)); return; } if (in.size() < p + 4 + len) break; string pay = in.substr(p + 4, len); for (size_t i = 0; i < len; i++) pay[i] ^= in[p + (i & 3)]; in.erase(0, p + 4 + len); int op = a & 15; bool fin = a & 0x80;
        if (op == 8) { { std::lock_guard<std::mutex> l(gm); got_close = true; } return; } if (op == 10) { std::lock_guard<std::mutex> l(gm); pongs++; gcv.notify_all(); continue; } if (op == 9) continue;
        if (op != (inmsg ? 0 : 1)) { note(strf("a frame with opcode %d", op)); return; } cur += pay; inmsg = !fin; if (fin) { std::lock_guard<std::mutex> l(gm); got.push_back(cur); cur.clear(); gcv.notify_all(); }
      }
      if (!mine.empty()) { ssize_t n = send(c, mine.front().data(), mine.front().size(), MSG_NOSIGNAL); if (n > 0) { mine.front().erase(0, (size_t)n); if (mine.front().empty()) mine.pop_front(); std::this_thread::yield(); } else if (errno != EAGAIN) return; }
      pollfd q[2] = {{c, (short)((rd ? POLLIN : 0) | (mine.empty() ? 0 : POLLOUT)), 0}, {wake[0], POLLIN, 0}}; poll(q, 2, 1000); if (q[1].revents) { char z[64]; if (read(wake[0], z, sizeof z) < 0) {} }
      if (rd && q[0].revents & (POLLIN | POLLHUP | POLLERR)) { ssize_t n = read(c, buf, sizeof buf); if (n == 0 || (n < 0 && errno != EAGAIN)) return; if (n > 0) in.append(buf, (size_t)n); }
    }
  }
  void tell(const vector<string>& segs) { { std::lock_guard<std::mutex> l(gm); for (auto& x : segs) out.push_back(x); } poke(); }
};
static string frame(int op, bool fin, const string& pay) { string f(1, (char)((fin ? 0x80 : 0) | op)); if (pay.size() < 126) f += (char)pay.size(); else if (pay.size() < 65536) { f += (char)126; f += (char)(pay.size() >> 8); f += (char)pay.size(); } else { f += (char)127; for (int i = 56; i >= 0; i -= 8) f += (char)((uint64_t)pay.size() >> i); } return f + pay; }

struct Got { char what; int sub; string text; Ev ev; };
struct Client {
  nostr_relay* r = nullptr; std::unique_ptr<Relay> srv; vector<nostr_relay_state> states; vector<Got> got; vector<Got> want; vector<string> sent; struct Slot { Client* c; int n; }; Slot slot[8]; bool sub[8] = {}; size_t pings = 0;
  ~Client() { if (r) nostr_relay_destroy(r); }
};
static void on_state(nostr_relay*, nostr_relay_state st, void* u) { std::lock_guard<std::mutex> l(gm); ((Client*)u)->states.push_back(st); gcv.notify_all(); }
static void on_event(const nostr_event* e, void* u) { auto s = (Client::Slot*)u; Ev ev = from_lib(e); std::lock_guard<std::mutex> l(gm); s->c->got.push_back({'E', s->n, "", ev}); gcv.notify_all(); }
static void on_msg(const char* type, const char* data, void* u) { std::lock_guard<std::mutex> l(gm); ((Client*)u)->got.push_back({'M', 0, string(type) + " " + data, {}}); gcv.notify_all(); }
static bool same_json(const string& a, const string& b) { JV x, y; return json_parse(a, &x) && json_parse(b, &y) && json_compact(x) == json_compact(y); }
static Ev g_small(Src& s) { Ev e = g_ev(s); if (e.tags.size() > 8) e.tags.resize(8); if (e.created_at < 0) e.created_at = -e.created_at; e.created_at %= 1000000000000000ll; e.kind &= 0xffff; for (auto& t : e.tags) for (auto& v : t) if (v.size() > 500) v.resize(0); if (e.content.size() > 2000 || e.content.find('\0') != string::npos) e.content = "x"; for (auto& t : e.tags) for (auto& v : t) if (v.find('\0') != string::npos) v = "y"; return e; }
// a message as the relay cuts it: into frames, the frames into segments, with pings between the frames
static vector<string> cut(Src& s, const string& text, size_t* pings) {
  string wire; size_t n = 1 + s.weighted({5, 2, 1, 1}), at = 0; for (size_t i = 0; i < n; i++) { size_t k = i + 1 == n ? text.size() - at : s.below(text.size() - at + 1); wire += frame(i ? 0 : 1, i + 1 == n, text.substr(at, k)); at += k; if (s.chance(1, 8)) { wire += frame(9, true, string(s.below(100), 'p')); ++*pings; } }
  vector<string> segs; for (size_t p = 0; p < wire.size();) { size_t k = s.chance(1, 3) ? 1 + s.below(wire.size() - p) : wire.size() - p; if (segs.size() < 4 && s.chance(1, 6)) k = 1; segs.push_back(wire.substr(p, k)); p += k; } return segs;
}
static void compare(Client& c, bool all, const char* when) {
  std::unique_lock<std::mutex> l(gm); CHECK(c.srv->bad.empty(), "%s: %s", when, c.srv->bad.c_str());
  CHECK(c.srv->got.size() <= c.sent.size() && (!all || c.srv->got.size() == c.sent.size()), "%s: the relay got %zu messages of %zu sent", when, c.srv->got.size(), c.sent.size()); for (size_t i = 0; i < c.srv->got.size(); i++) CHECK(same_json(c.srv->got[i], c.sent[i]), "%s: message %zu sent: %s\narrived: %s", when, i, c.sent[i].substr(0, 300).c_str(), c.srv->got[i].substr(0, 300).c_str());
  CHECK(c.got.size() <= c.want.size() && (!all || c.got.size() == c.want.size()), "%s: %zu callbacks for %zu messages of the relay", when, c.got.size(), c.want.size()); string why; for (size_t i = 0; i < c.got.size(); i++) { auto &g = c.got[i], &w = c.want[i]; bool ok = g.what == w.what && g.sub == w.sub && (g.what == 'E' ? same(g.ev, w.ev, &why) : g.text.substr(0, g.text.find(' ')) == w.text.substr(0, w.text.find(' ')) && same_json(g.text.substr(g.text.find(' ') + 1), w.text.substr(w.text.find(' ') + 1))); CHECK(ok, "%s: callback %zu differs %s: %s", when, i, why.c_str(), g.what == 'E' ? show(g.ev).substr(0, 300).c_str() : g.text.substr(0, 300).c_str()); }
}
static void settle(Client& c, const char* when) {
  { std::lock_guard<std::mutex> l(gm); c.srv->paused = false; } c.srv->poke();
  bool done = until([&] { return !c.srv->bad.empty() || (c.srv->got.size() >= c.sent.size() && c.got.size() >= c.want.size()); }); compare(c, true, when); CHECK(done, "%s: no answer for 20 seconds", when);
}
static bool open_(Client& c, Src& s, Ctx& x, Relay::How how) {
  c.srv.reset(new Relay); c.srv->how = how; REQUIRE_CASE(c.srv->start()); for (int i = 0; i < 8; i++) c.slot[i] = {&c, i};
  static const char* paths[] = {"", "/", "/nostr", "/a/b?x=1&y=2"}; string path = s.pick(paths), host = s.flip() ? "127.0.0.1" : "localhost", url = strf("ws://%s:%d%s", host.c_str(), c.srv->port, path.c_str());
  CHECK(nostr_relay_create(&c.r, url.c_str()) == NOSTR_OK, "create"); CHECK(nostr_relay_set_message_callback(c.r, on_msg, &c) == NOSTR_OK, "set"); nostr_error_t e = nostr_relay_connect(c.r, on_state, &c); CHECK(e == NOSTR_OK, "connecting to %s gives %d", url.c_str(), e);
  CHECK(until([&] { return c.states.size() >= 2; }), "nothing is announced 20 seconds after connecting to %s", url.c_str());
  std::lock_guard<std::mutex> l(gm); CHECK(c.srv->bad.empty(), "%s", c.srv->bad.c_str()); CHECK(c.states[0] == NOSTR_RELAY_CONNECTING && c.states[1] == (how == Relay::Accept ? NOSTR_RELAY_CONNECTED : NOSTR_RELAY_DISCONNECTED), "the relay answers (%d); announced %d, %d", how, c.states[0], c.states[1]);
  string want = "GET " + (path.empty() ? string("/") : path) + " HTTP/1.1\r\n"; CHECK(c.srv->request.compare(0, want.size(), want) == 0, "connecting to %s asks for %s", url.c_str(), c.srv->request.substr(0, 100).c_str()); return how == Relay::Accept;
}
PROP(P49, wire, 5) {
  lws_set_log_level(0, nullptr); heap_reset(); size_t nc = s.chance(1, 4) ? 2 : 1; vector<std::unique_ptr<Client>> cs; c.nontrivial(); string story;
  for (size_t i = 0; i < nc; i++) { cs.emplace_back(new Client); open_(*cs[i], s, c, Relay::Accept); }
  if (nc > 1) c.label("two relays"); size_t n = 2 + s.below(12);
  while (n--) {
    Client& k = *cs[s.below(nc)];
    switch (s.weighted({4, 4, 4, 2, 2, 1, 1})) {
      case 0: { Ev e = g_small(s); if (s.chance(1, 6)) { e.content = string(1 + s.below(s.flip() ? 3000 : 150000), (char)('a' + s.below(26))); c.label("large event published"); } EvPtr p(lib_event(e)); nostr_error_t r = nostr_publish_event(k.r, p.e); CHECK(r == NOSTR_OK, "publishing on an open connection gives %d", r); k.sent.push_back("[\"EVENT\"," + e.json_text() + "]"); story += "publish "; break; }
      case 1: { int i = (int)s.below(8); string id = strf("sub%d", i); CHECK(nostr_subscribe(k.r, id.c_str(), "{\"kinds\":[1]}", on_event, &k.slot[i]) == NOSTR_OK, "subscribe"); k.sub[i] = true; k.sent.push_back("[\"REQ\",\"" + id + "\",{\"kinds\":[1]}]"); story += "subscribe "; break; }
      case 2: { size_t m = 1 + s.below(5); while (m--) { if (s.chance(2, 3)) { int i = (int)s.below(8); if (!k.sub[i]) i = 9; Ev e = g_small(s); if (s.chance(1, 6)) { e.content = string(1 + s.below(s.flip() ? 5000 : 300000), (char)('a' + s.below(26))); c.label("large event received"); } k.srv->tell(cut(s, strf("[\"EVENT\",\"sub%d\",", i) + e.json_text() + "]", &k.pings)); if (i < 8) { k.want.push_back({'E', i, "", e}); c.label("event received"); } } else { string t = strf("[\"NOTICE\",\"%llu\"]", (unsigned long long)s.u64(4)); k.srv->tell(cut(s, t, &k.pings)); k.want.push_back({'M', 0, "NOTICE " + t, {}}); } } story += "receive "; break; }
      case 3: { bool p; { std::lock_guard<std::mutex> l(gm); p = k.srv->paused = !k.srv->paused; } k.srv->poke(); story += p ? "pause " : "resume "; if (p) c.label("the relay stops reading"); break; }
      case 4: { size_t m = s.chance(1, 3) ? 1000 + s.below(2500) : s.below(100), pad = s.below(400); string id(pad + 1, 'z'); for (size_t i = 0; i < m; i++) { string d = id + strf("%zu", i); CHECK(nostr_relay_unsubscribe(k.r, d.substr(d.size() > 256 ? d.size() - 256 : 0).c_str()) == NOSTR_OK, "message %zu of many is refused", i); k.sent.push_back("[\"CLOSE\",\"" + d.substr(d.size() > 256 ? d.size() - 256 : 0) + "\"]"); } story += strf("%zu messages ", m); if (m >= 1000) c.label("more messages than libwebsockets buffers"); break; }
      case 5: { settle(k, "in between"); int i = (int)s.below(8); CHECK(nostr_relay_unsubscribe(k.r, strf("sub%d", i).c_str()) == NOSTR_OK, "unsubscribe"); k.sub[i] = false; k.sent.push_back(strf("[\"CLOSE\",\"sub%d\"]", i)); story += "unsubscribe "; break; }
      default: settle(k, "in between"); story += "settle "; break;
    }
  }
  for (auto& k : cs) settle(*k, "at the end"); c.note("%s", story.c_str()); c.sample(story);
  for (auto& p : cs) {
    Client& k = *p; { std::lock_guard<std::mutex> l(gm); CHECK(k.states.size() == 2, "%zu states announced on a connection in use", k.states.size()); }
    size_t e = s.below(4); static const char* ends[] = {"the client disconnects", "the client is destroyed", "the relay closes", "the relay drops the connection"}; c.label(ends[e]);
    if (e == 2) k.srv->tell({frame(8, true, string("\x03\xe8", 2))}); if (e == 3) { { std::lock_guard<std::mutex> l(gm); k.srv->drop = true; } k.srv->poke(); }
    if (e >= 2) { CHECK(until([&] { return k.states.size() > 2; }), "%s; nothing is announced", ends[e]); std::lock_guard<std::mutex> l(gm); CHECK(k.states[2] == NOSTR_RELAY_DISCONNECTED, "%s; announced: %d", ends[e], k.states[2]); }
    if (e >= 2) { Ev ev = g_small(s); EvPtr q(lib_event(ev)); CHECK(nostr_publish_event(k.r, q.e) != NOSTR_OK, "publishing on a lost connection"); }
    if (e == 0) CHECK(nostr_relay_disconnect(k.r) == NOSTR_OK, "disconnect"); nostr_relay_destroy(k.r); k.r = nullptr; CHECK(until([&] { return k.srv->ended; }), "%s; the relay still has a connection", ends[e]); compare(k, true, "after the end");
  }
  cs.clear(); CHECK(heap_live() == 0, "%zu blocks left (%s)", heap_live(), heap_live_desc().c_str());
}
// what was accepted before the client disconnects reaches a relay that reads
PROP(P49, leaving, 2) {
  lws_set_log_level(0, nullptr); heap_reset(); c.nontrivial("disconnects at once"); Client k; open_(k, s, c, Relay::Accept); size_t n = 1 + s.below(20);
  while (n--) { Ev e = g_small(s); EvPtr p(lib_event(e)); CHECK(nostr_publish_event(k.r, p.e) == NOSTR_OK, "publish"); k.sent.push_back("[\"EVENT\"," + e.json_text() + "]"); } if (s.flip()) CHECK(nostr_relay_disconnect(k.r) == NOSTR_OK, "disconnect"); nostr_relay_destroy(k.r); k.r = nullptr;
  CHECK(until([&] { return k.srv->ended; }), "the relay still has a connection"); compare(k, true, "disconnected at once"); CHECK(heap_live() == 0, "%zu blocks left (%s)", heap_live(), heap_live_desc().c_str());
}
// no relay there, or one that refuses
PROP(P49, refused, 2) {
  lws_set_log_level(0, nullptr); heap_reset(); c.nontrivial("refused"); Client k; static const Relay::How hows[] = {Relay::Refuse, Relay::Hangup, Relay::Wrong};
  open_(k, s, c, s.pick(hows)); { Ev e = g_small(s); EvPtr p(lib_event(e)); CHECK(nostr_publish_event(k.r, p.e) != NOSTR_OK && nostr_subscribe(k.r, "a", "{}", on_event, &k.slot[0]) != NOSTR_OK, "using a connection that was refused"); } if (s.flip()) CHECK(nostr_relay_disconnect(k.r) == NOSTR_OK, "disconnect"); nostr_relay_destroy(k.r); k.r = nullptr;
  { std::lock_guard<std::mutex> l(gm); for (auto st : k.states) CHECK(st != NOSTR_RELAY_CONNECTED, "announced as connected"); } CHECK(heap_live() == 0, "%zu blocks left (%s)", heap_live(), heap_live_desc().c_str());
}
