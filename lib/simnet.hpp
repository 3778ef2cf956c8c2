// Simulated sockets: the library's socket calls on descriptors made here are answered by this model, and every answer
// (segment boundaries, partial sends, errors) is under the harness's control.
#pragma once
#include "sched.hpp"
#include <string>
#include <vector>
#include <deque>
#include <functional>

namespace net {

struct Faults {                 // which deviations from the default answer the explorer may take
	bool short_recv = false, partial_send = false, send_error = false, recv_error = false, recv_timeout = false;
	bool accept_error = false, timeout_send = false, interrupt = false, recv_interrupt = false, sockopt_error = false;
	int max = 1000;
};
struct Options {
	Faults faults;
	size_t send_capacity = 1u << 30;     // bytes the peer's receive window holds until it reads
	int fail_socket = 0, fail_bind = 0, fail_listen = 0, fail_listener_option = 0;   // errno of the calls which make a listener
	bool time_wait = false;              // a port with connections that are open or that the server closed first is only bound again with SO_REUSEADDR
	uint32_t peer_ip = 0x7f000001; int peer_port = -1;   // address of the next client to connect (port -1: counted up)
};
extern Options opt;

struct FaultRecord { std::string what; int conn; };

// ---- state per execution ----
void reset();                                  // call at the start of an execution (before sched::run)
void check_closed();                           // every descriptor made must be closed exactly once by now
int  accepted();                               // connections handed to the server so far
int  open_server_fds();
bool listening(int port);
bool bindable(int port, bool reuse);           // what bind() will say
std::string describe();
const std::vector<FaultRecord>& injected();

// ---- client side (called from harness threads) ----
int  connect(int port);                        // -1: refused
void send(int c, const std::string& segment);  // one TCP segment
void fin(int c);                               // half close
void rst(int c);                               // abort
void close(int c);                             // full close (server writes are answered with a reset)
std::string recv(int c, int64_t timeout_ms = -1, bool* timedout = nullptr);  // some bytes; "" at end of stream
bool recv_until(int c, std::string& acc, const std::function<bool(const std::string&)>& done, int64_t timeout_ms = -1); // false: stream ended or timeout
std::string peek(int c);                       // what has arrived and not been read
bool server_closed(int c);                     // server shut down its sending side or closed
bool server_fully_closed(int c);               // server closed the descriptor
bool was_reset(int c);
size_t unread_by_server(int c);
bool was_accepted(int c);
bool idle(int c);                              // server side blocked or done: nothing unread
bool wait_closed(int c, int64_t timeout_ms = -1);  // until the server has closed its descriptor
std::vector<std::string> writes(int c);        // each successful send() call of the server, in order
int rcvtimeo_ms(int c), sndtimeo_ms(int c);
std::string sent(int c);                       // everything the server has put on the wire so far

// make a connected descriptor directly (for the Connection class): returns server fd, client id through c
int  make_pair_fd(int* c);
}
