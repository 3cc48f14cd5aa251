// Stand-in for libwebsockets: a client connection whose every callback the harness decides. The
// library's own service thread runs the callbacks (in lws_service), one at a time, while the harness
// waits, so that every history is deterministic. As with the real library, everything but
// lws_cancel_service belongs to the thread that serves the context, and a connection that refused a
// write is of no more use.
#pragma once
#include "vf.h"
namespace vf { namespace ws {
struct Attempt { std::string address, host, path; int port = 0, ssl = 0; bool from_service = false; };
enum Fail { None = 0, Quiet = 1, Notified = 2 };          // connection attempt: fine, NULL, NULL after CONNECTION_ERROR
void reset();
extern bool fail_context, fail_write, eager_open, congested; extern int fail_connect; extern bool concurrent;   // congested: nothing is writable
extern std::vector<Attempt> attempts;                     // every lws_client_connect_via_info
std::vector<std::string> take_written();                  // texts given to lws_write since the last call, once the service thread is idle
bool pending(); bool open();                              // there is a wsi: connecting / established
int contexts(); int serving();                            // live contexts; threads inside lws_service
std::string misuse();                                     // first wrong use of the API ("" if none)
bool establish(); bool error(); bool close();             // run one callback on the service thread; false: nobody served it
bool receive(const std::string& data, bool final_, size_t remaining);
void post(const std::string& data); void post_close(), post_open();     // queue a whole message / the end, without waiting
bool drain();                                             // wait until everything queued (and writable) has been served
}
}
