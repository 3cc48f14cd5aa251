#include "vf_ws.h"
#include <libwebsockets.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>
#include <set>
#include <thread>
using std::string;
struct lws { struct lws_context* ctx; const struct lws_protocols* proto; void* opaque = nullptr; bool established = false; bool fin = true, first = true; size_t rem = 0; bool want = false, broken = false; };
struct lws_context { const struct lws_protocols* protos; std::deque<std::function<void()>> q; bool cancel = false, running = false; int in_service = 0; void* user = nullptr; struct lws* fake = nullptr; std::thread::id server; std::set<struct lws*> wsis; };
namespace vf { namespace ws {
bool fail_context, fail_write, eager_open, congested, concurrent; int fail_connect; std::vector<Attempt> attempts;
static std::mutex m; static std::condition_variable cv;
static std::set<struct lws_context*> ctxs; static std::set<struct lws*> wsis; static std::vector<string> written; static string bad; static std::set<std::thread::id> service_ids;
static void mis(const string& s) { if (bad.empty()) bad = s; }
static struct lws* writable(struct lws_context* c) { if (!congested) for (auto w : c->wsis) if (w->want && w->established) return w; return nullptr; }
static bool idle() { for (auto c : ctxs) if (!c->q.empty() || c->running || (c->server != std::thread::id() && (c->cancel || writable(c)))) return false; return true; }
static void started() { if (eager_open) { std::unique_lock<std::mutex> l(m); cv.wait_for(l, std::chrono::milliseconds(300), [] { for (auto c : ctxs) if (!c->q.empty() || c->running) return false; return true; }); } std::this_thread::yield(); }
void reset() { thread_started = started; std::lock_guard<std::mutex> l(m); fail_context = fail_write = eager_open = congested = concurrent = false; fail_thread = false; fail_connect = None; attempts.clear(); written.clear(); bad.clear(); ctxs.clear(); wsis.clear(); service_ids.clear(); }
std::vector<string> take_written() { drain(); std::lock_guard<std::mutex> l(m); auto r = written; written.clear(); return r; }
bool pending() { std::lock_guard<std::mutex> l(m); for (auto w : wsis) if (!w->established) return true; return false; }
bool open() { std::lock_guard<std::mutex> l(m); for (auto w : wsis) if (w->established) return true; return false; }
int contexts() { std::lock_guard<std::mutex> l(m); return (int)ctxs.size(); }
int serving() { std::lock_guard<std::mutex> l(m); int n = 0; for (auto c : ctxs) n += c->in_service; return n; }
string misuse() { std::lock_guard<std::mutex> l(m); return bad; }
static int call(struct lws* w, enum lws_callback_reasons r, const void* in = nullptr, size_t n = 0) { return w->proto->callback(w, r, nullptr, (void*)in, n); }
static void gone(struct lws* w) { { std::lock_guard<std::mutex> l(m); wsis.erase(w); w->ctx->wsis.erase(w); } delete w; }
static bool on_service(std::function<void(struct lws*)> f) {
  struct lws* w = nullptr; struct lws_context* c = nullptr; auto done = std::make_shared<std::atomic<bool>>(false);
  { std::lock_guard<std::mutex> l(m); for (auto x : wsis) w = x; if (!w) return false; c = w->ctx; c->q.push_back([=] { f(w); *done = true; }); }
  cv.notify_all(); std::unique_lock<std::mutex> l(m);
  return cv.wait_for(l, std::chrono::seconds(6), [&] { return done->load(); });
}
bool establish() { return on_service([](struct lws* w) { { std::lock_guard<std::mutex> l(m); w->established = true; } call(w, LWS_CALLBACK_CLIENT_ESTABLISHED); }); }
bool error() { return on_service([](struct lws* w) { static const char t[] = "refused"; call(w, LWS_CALLBACK_CLIENT_CONNECTION_ERROR, t, sizeof t - 1); gone(w); }); }
bool close() { return on_service([](struct lws* w) { call(w, LWS_CALLBACK_CLIENT_CLOSED); call(w, LWS_CALLBACK_WSI_DESTROY); gone(w); }); }
static void got(struct lws* w, const string& data) { w->first = w->fin = true; w->rem = 0; char* b = (char*)malloc(LWS_PRE + data.size() + 1); memcpy(b + LWS_PRE, data.data(), data.size()); b[LWS_PRE + data.size()] = 0; call(w, LWS_CALLBACK_CLIENT_RECEIVE, b + LWS_PRE, data.size()); free(b); }
static void queue(std::function<void(struct lws*)> f) { { std::lock_guard<std::mutex> l(m); struct lws* w = nullptr; for (auto x : wsis) w = x; if (!w) return; w->ctx->q.push_back([=] { { std::lock_guard<std::mutex> l2(m); if (!wsis.count(w)) return; } f(w); }); } cv.notify_all(); }
void post(const string& data) { queue([=](struct lws* w) { got(w, data); }); }
void post_open() { queue([](struct lws* w) { { std::lock_guard<std::mutex> l(m); w->established = true; } call(w, LWS_CALLBACK_CLIENT_ESTABLISHED); }); }
void post_close() { queue([](struct lws* w) { call(w, LWS_CALLBACK_CLIENT_CLOSED); call(w, LWS_CALLBACK_WSI_DESTROY); gone(w); }); }
bool drain() { cv.notify_all(); std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::seconds(10), idle); }
bool receive(const string& data, bool final_, size_t remaining) {
  return on_service([=](struct lws* w) {
    w->first = w->fin && !w->rem; w->fin = final_; w->rem = remaining; char* b = (char*)malloc(LWS_PRE + data.size() + 1); memcpy(b + LWS_PRE, data.data(), data.size()); b[LWS_PRE + data.size()] = 0;   // lws terminates the buffer
    call(w, LWS_CALLBACK_CLIENT_RECEIVE, b + LWS_PRE, data.size()); free(b); });
}
} }
using namespace vf; using namespace vf::ws;
static bool alive(struct lws* w, const char* f) { std::lock_guard<std::mutex> l(m); if (wsis.count(w)) return true; for (auto c : ctxs) if (c->fake == w) return true; mis(strf("%s on a connection that no longer exists", f)); return false; }
static bool alive(struct lws_context* c, const char* f) { std::lock_guard<std::mutex> l(m); if (ctxs.count(c)) return true; mis(strf("%s on a context that no longer exists", f)); return false; }
static void own(struct lws_context* c, const char* f) { std::lock_guard<std::mutex> l(m); if (c->in_service && c->server != std::this_thread::get_id()) mis(strf("%s while another thread serves the context", f)); }
extern "C" {
struct lws_context* vf_lws_create_context(const struct lws_context_creation_info* i) { if (fail_context) return nullptr; auto c = new lws_context; c->protos = i->protocols; c->user = i->user; c->fake = new lws; c->fake->ctx = c; c->fake->proto = i->protocols; std::lock_guard<std::mutex> l(m); ctxs.insert(c); return c; }
struct lws* vf_lws_client_connect_via_info(const struct lws_client_connect_info* i) {
  if (!alive(i->context, "lws_client_connect_via_info")) return nullptr;
  Attempt a; a.address = i->address ? i->address : "(null)"; a.host = i->host ? i->host : "(null)"; a.path = i->path ? i->path : "(null)"; a.port = i->port; a.ssl = i->ssl_connection & LCCSCF_USE_SSL;
  { std::lock_guard<std::mutex> l(m); a.from_service = service_ids.count(std::this_thread::get_id()); attempts.push_back(a); if (!i->context->wsis.empty() && 0) mis("second connection"); }
  auto w = new lws; w->ctx = i->context; w->proto = i->context->protos; w->opaque = i->opaque_user_data;
  if (fail_connect) {
    int k = fail_connect; { std::lock_guard<std::mutex> l(m); wsis.insert(w); } if (k == Notified) call(w, LWS_CALLBACK_CLIENT_CONNECTION_ERROR); { std::lock_guard<std::mutex> l(m); wsis.erase(w); } delete w; return nullptr; }
  { std::lock_guard<std::mutex> l(m); wsis.insert(w); i->context->wsis.insert(w);
    if (eager_open) i->context->q.push_back([w] { { std::lock_guard<std::mutex> l2(m); w->established = true; } call(w, LWS_CALLBACK_CLIENT_ESTABLISHED); }); }
  if (i->pwsi) *i->pwsi = w;
  return w;
}
int vf_lws_service(struct lws_context* c, int) {
  std::function<void()> f; struct lws* out = nullptr; bool wake = false;
  { std::unique_lock<std::mutex> l(m); if (!ctxs.count(c)) { mis("lws_service on a context that no longer exists"); return -1; }
    service_ids.insert(std::this_thread::get_id()); c->in_service++; cv.wait_for(l, std::chrono::milliseconds(250), [&] { return !ctxs.count(c) || c->cancel || !c->q.empty() || writable(c); });
    if (!ctxs.count(c)) { mis("context destroyed while it was being served"); return -1; }
    c->server = std::this_thread::get_id(); wake = c->cancel; c->cancel = false; if (!wake) { if (!c->q.empty()) { f = c->q.front(); c->q.pop_front(); } else if ((out = writable(c))) out->want = false; } c->running = wake || f || out; }
  if (wake) call(c->fake, LWS_CALLBACK_EVENT_WAIT_CANCELLED);
  if (f) f();
  if (out && call(out, LWS_CALLBACK_CLIENT_WRITEABLE)) { call(out, LWS_CALLBACK_CLIENT_CLOSED); call(out, LWS_CALLBACK_WSI_DESTROY); gone(out); }
  { std::lock_guard<std::mutex> l(m); if (ctxs.count(c)) { c->in_service--; c->running = false; } else mis("context destroyed while it was being served"); }
  cv.notify_all(); return 0;
}
void vf_lws_cancel_service(struct lws_context* c) { if (!alive(c, "lws_cancel_service")) return; { std::lock_guard<std::mutex> l(m); c->cancel = true; } cv.notify_all(); }
int vf_lws_write(struct lws* w, unsigned char* b, size_t n, enum lws_write_protocol p) {
  if (!w) { std::lock_guard<std::mutex> l(m); mis("lws_write on NULL"); return -1; }
  if (!alive(w, "lws_write")) return -1;
  { std::lock_guard<std::mutex> l(m); if (!w->established) mis("lws_write before the connection is established"); if (p != LWS_WRITE_TEXT) mis("not written as text"); if (!fail_write) written.push_back(string((char*)b, n)); }
  own(w->ctx, "lws_write"); if (w->broken) { std::lock_guard<std::mutex> l(m); mis("lws_write on a connection that has refused a write"); } if (fail_write) w->broken = true;
  memset(b - LWS_PRE, 0x5a, LWS_PRE); for (size_t k = 0; k < n; k++) b[k] ^= 0x55;   // header and masking happen in place
  return fail_write ? -1 : (int)n;
}
void vf_lws_close_reason(struct lws* w, enum lws_close_status, unsigned char*, size_t) { alive(w, "lws_close_reason"); }
void vf_lws_context_destroy(struct lws_context* c) {
  if (!c || !alive(c, "lws_context_destroy")) return;
  std::vector<struct lws*> ws_; { std::lock_guard<std::mutex> l(m); if (c->in_service) mis("lws_context_destroy while the context is being served"); ws_.assign(c->wsis.begin(), c->wsis.end()); }
  for (auto w : ws_) { call(w, w->established ? LWS_CALLBACK_CLIENT_CLOSED : LWS_CALLBACK_CLIENT_CONNECTION_ERROR); gone(w); }
  { std::lock_guard<std::mutex> l(m); ctxs.erase(c); } cv.notify_all(); delete c->fake; delete c;
}
void vf_lws_set_opaque_user_data(struct lws* w, void* p) { if (alive(w, "lws_set_opaque_user_data")) w->opaque = p; }
void* vf_lws_get_opaque_user_data(const struct lws* w) { return alive((struct lws*)w, "lws_get_opaque_user_data") ? w->opaque : nullptr; }
int vf_lws_is_final_fragment(struct lws* w) { return alive(w, "lws_is_final_fragment") ? w->fin && !w->rem : 0; }
int vf_lws_is_first_fragment(struct lws* w) { return alive(w, "lws_is_first_fragment") ? w->first : 0; }
size_t vf_lws_remaining_packet_payload(struct lws* w) { return alive(w, "lws_remaining_packet_payload") ? w->rem : 0; }
int vf_lws_callback_on_writable(struct lws* w) { if (!alive(w, "lws_callback_on_writable")) return -1; own(w->ctx, "lws_callback_on_writable"); { std::lock_guard<std::mutex> l(m); w->want = true; } cv.notify_all(); return 1; }
int vf_lws_partial_buffered(struct lws* w) { alive(w, "lws_partial_buffered"); return 0; }
int vf_lws_send_pipe_choked(struct lws* w) { return alive(w, "lws_send_pipe_choked") ? congested : 1; }
void* vf_lws_context_user(struct lws_context* c) { return alive(c, "lws_context_user") ? c->user : nullptr; }
struct lws_context* vf_lws_get_context(const struct lws* w) { return alive((struct lws*)w, "lws_get_context") ? w->ctx : nullptr; }
void vf_lws_set_timeout(struct lws* w, enum pending_timeout, int) { alive(w, "lws_set_timeout"); }
void vf_lws_set_log_level(int, void (*)(int, const char*)) {}
}
