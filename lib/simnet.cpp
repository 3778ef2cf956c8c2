#include "simnet.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

namespace race { void range(const void*, size_t, bool) __attribute__((weak)); void acquire(int, const void*) __attribute__((weak)); void release(int, const void*) __attribute__((weak)); }
using sched::Rt;

namespace net {
Options opt;
static const int BASE = 5000;

struct Conn {
	int id; int fd = -1; int port = 0; bool accepted = false; uint32_t ip = 0x7f000001; int pport = 40000;
	std::deque<std::string> in;           // client -> server segments
	bool in_fin = false, reset = false, client_closed = false, err_told = false;
	std::string out; size_t outread = 0; // server -> client
	bool out_fin = false;                // server's sending side shut
	bool rd_shut = false, fd_closed = false; int64_t wait_until = 0;
	int64_t rcvto = -1, sndto = -1;      // ns
	int rcvms = -1, sndms = -1;
	bool nonblock = false, write_failed = false;
	int in_recv = 0, in_send = 0;
	std::vector<std::string> writes;
};
struct Listener { int port = 0; bool bound = false, listening = false, shut = false, closed = false; std::deque<int> backlog; int64_t rcvto = -1; bool nonblock = false; bool reuse = false; };
struct Fd { enum K { L, C } k; int idx; bool closed = false; };

static std::vector<std::unique_ptr<Conn>> conns; static std::vector<std::unique_ptr<Listener>> lst; static std::vector<Fd> fds;
static std::vector<FaultRecord> faults_; static int nfault, naccepted;

void reset() { Rt g; conns.clear(); lst.clear(); fds.clear(); faults_.clear(); nfault = 0; naccepted = 0; opt = Options(); }
const std::vector<FaultRecord>& injected() { return faults_; }
int accepted() { return naccepted; }
static bool mine(int fd) { return fd >= BASE; }
static Fd* get(int fd) { size_t i = fd - BASE; return i < fds.size() ? &fds[i] : nullptr; }
static int newfd(Fd::K k, int idx) { fds.push_back({k, idx, false}); return BASE + fds.size() - 1; }
static Fd* use(int fd, const char* op) {
	Fd* f = get(fd);
	if (!f) { errno = EBADF; return nullptr; }
	if (f->closed) mc::violate("use-after-close", std::string(op) + " on a descriptor that was already closed (could hit another connection)");
	return f;
}
static uint64_t oid(const Conn& c, int dir) { return 0xC0000000ull + c.id * 4 + dir; }
static int64_t dl(int64_t to) { return to < 0 ? -1 : sched::now_ns() + to; }
static bool fault(bool on, const char* what, int conn) {
	if (!on || nfault >= opt.faults.max) return false;
	if (!mc::deviate(2)) return false;
	sched::local(7); nfault++; faults_.push_back({what, conn}); mc::nontrivial();
	if (mc::tracing()) mc::note(std::string("  fault: ") + what + " on connection " + std::to_string(conn));
	return true;
}
static Conn& C(int c) { return *conns.at(c); }

bool listening(int port) { for (auto& l : lst) if (l->listening && !l->shut && !l->closed && l->port == port) return true; return false; }
bool bindable(int port, bool reuse) {
	for (auto& o : lst) if (o->bound && !o->closed && o->port == port) return false;
	if (opt.time_wait && !reuse) for (auto& c : conns) if (c->accepted && c->port == port && (!c->fd_closed || c->wait_until > sched::now_ns())) return false;
	return true;
}
int open_server_fds() { int n = 0; for (auto& f : fds) if (!f.closed) n++; return n; }
std::string describe() { Rt g; std::string s; for (auto& c : conns) s += " conn" + std::to_string(c->id) + (c->fd < 0 ? "(not accepted)" : c->fd_closed ? "(closed)" : "(open)") + " in=" + std::to_string(c->in.size()) + " out=" + std::to_string(c->out.size()); return s; }
void check_closed() { Rt g; for (size_t i = 0; i < fds.size(); i++) if (!fds[i].closed) mc::violate("descriptor-leak", std::string(fds[i].k == Fd::L ? "the listening socket" : "the socket of connection " + std::to_string(C(fds[i].idx).id)) + " was never closed;" + describe()); }

// ------------------------------------------------------------------ client side
int connect(int port) {
	Rt g; sched::point("client connect", (void*)0xB0000000);
	for (auto& l : lst) if (l->listening && !l->shut && !l->closed && l->port == port) {
		auto c = std::make_unique<Conn>(); c->id = conns.size(); c->port = port; int id = c->id; c->ip = opt.peer_ip; c->pport = opt.peer_port < 0 ? 40000 + id : opt.peer_port; conns.push_back(std::move(c)); l->backlog.push_back(id);
		if (mc::tracing()) mc::note("client " + std::to_string(id) + " connects");
		sched::event("connect", 0xB0000000, true, id); return id;
	}
	sched::event("connect", 0xB0000000, true, 999); return -1;
}
int make_pair_fd(int* ci) { Rt g; auto c = std::make_unique<Conn>(); c->id = conns.size(); *ci = c->id; c->accepted = true; int idx = c->id; conns.push_back(std::move(c)); int fd = newfd(Fd::C, idx); C(idx).fd = fd; naccepted++; return fd; }
void send(int c, const std::string& s) { Rt g; if (s.empty()) return; sched::point("client send", (void*)oid(C(c), 0)); if (!C(c).reset) C(c).in.push_back(s); if (mc::tracing()) mc::note("client " + std::to_string(c) + " sends " + mc::show(s)); }
void fin(int c) { Rt g; sched::point("client fin", (void*)oid(C(c), 0)); C(c).in_fin = true; if (mc::tracing()) mc::note("client " + std::to_string(c) + " ends its side"); }
void rst(int c) { Rt g; sched::point("client rst", (void*)oid(C(c), 0)); sched::event("rst", oid(C(c), 1), true, 0); C(c).reset = true; C(c).in.clear(); if (mc::tracing()) mc::note("client " + std::to_string(c) + " resets"); }
void close(int c) { Rt g; sched::point("client close", (void*)oid(C(c), 0)); sched::event("close", oid(C(c), 1), true, 0); C(c).in_fin = true; C(c).client_closed = true; if (mc::tracing()) mc::note("client " + std::to_string(c) + " closes"); }
std::string recv(int c, int64_t to, bool* timedout) {
	Rt g; Conn& k = C(c); if (timedout) *timedout = false;
	bool ok = sched::block("client recv", oid(k, 1), [&k] { return k.out.size() > k.outread || k.out_fin || k.reset; }, to < 0 ? -1 : sched::now_ns() + to * 1000000);
	sched::event("crecv", oid(k, 1), true, ok);
	if (!ok) { if (timedout) *timedout = true; return ""; }
	std::string s = k.out.substr(k.outread); k.outread = k.out.size();
	if (mc::tracing()) mc::note("client " + std::to_string(c) + " receives " + (s.empty() ? "end of stream" : mc::show(s, 200)));
	return s;
}
bool recv_until(int c, std::string& acc, const std::function<bool(const std::string&)>& done, int64_t to) {
	Rt g; while (!done(acc)) { bool t; std::string s = recv(c, to, &t); if (s.empty()) return false; acc += s; } return true;
}
std::string peek(int c) { Rt g; return C(c).out.substr(C(c).outread); }
bool server_closed(int c) { return C(c).out_fin; }
bool server_fully_closed(int c) { return C(c).fd_closed; }
bool was_reset(int c) { return C(c).reset; }
size_t unread_by_server(int c) { size_t n = 0; for (auto& s : C(c).in) n += s.size(); return n; }
bool was_accepted(int c) { return C(c).accepted; }
bool idle(int c) { return unread_by_server(c) == 0 && C(c).in_recv > 0; }
bool wait_closed(int c, int64_t to) { Rt g; Conn& k = C(c); bool ok = sched::block("client waits for close", oid(k, 1), [&k] { return k.fd_closed; }, to < 0 ? -1 : sched::now_ns() + to * 1000000); sched::event("cclosed", oid(k, 1), true, ok); return ok; }
std::vector<std::string> writes(int c) { Rt g; return C(c).writes; }
int rcvtimeo_ms(int c) { return C(c).rcvms; }
int sndtimeo_ms(int c) { return C(c).sndms; }
std::string sent(int c) { Rt g; return C(c).out; }

// what errno holds after a call which succeeded is anything: handlers and libraries leave it behind
static void stale() { errno = ECONNRESET; }
static ssize_t do_recv(int fd, void* buf, size_t n, int flags) {
	Rt g; sched::local(n); Fd* f = use(fd, "recv"); if (!f) return -1;
	if (f->k != Fd::C) { errno = ENOTCONN; return -1; }
	Conn& k = C(f->idx); size_t fi = fd - BASE;
	auto rdy = [&k] { return !k.in.empty() || k.in_fin || k.reset || k.rd_shut; };
	if (n == 0) return 0;
	if (fault(opt.faults.recv_interrupt, "receive interrupted", k.id)) { sched::point("recv", (void*)oid(k, 0)); errno = EINTR; return -1; }
	if (fault(opt.faults.recv_timeout && !(flags & MSG_DONTWAIT) && k.rcvto >= 0, "receive timeout", k.id)) { sched::point("recv", (void*)oid(k, 0)); errno = EAGAIN; return -1; }
	if (fault(opt.faults.recv_error, "receive reset", k.id)) { sched::point("recv", (void*)oid(k, 0)); static const int E[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH}; int e = E[mc::choose(3)]; sched::local(e); k.reset = k.err_told = true; k.in.clear(); errno = e; return -1; }
	k.in_recv++;
	bool ok;
	if ((flags & MSG_DONTWAIT) || k.nonblock) { sched::point("recv", (void*)oid(k, 0)); ok = rdy(); } else ok = sched::block("recv", oid(k, 0), rdy, dl(k.rcvto));
	k.in_recv--;
	// another thread may have closed the descriptor while this call was blocked: the kernel keeps the call alive, but the number may be reused
	if (fds[fi].closed && !(k.rd_shut)) mc::violate("closed-while-blocked", "a descriptor was closed while another thread was blocked in recv on it");
	sched::event("recv", oid(k, 0), true, ok);
	if (!ok) { errno = EAGAIN; return -1; }
	if (k.rd_shut) return 0;
	if (k.reset) { if (k.err_told) return 0; k.err_told = true; errno = ECONNRESET; return -1; } // like Linux: the error is reported once
	if (k.in.empty()) return 0;
	std::string& s = k.in.front(); size_t m = std::min(n, s.size());
	if (m > 1 && fault(opt.faults.short_recv, "short receive", k.id)) m = 1;
	memcpy(buf, s.data(), m); if (race::range) race::range(buf, m, true);
	if (!(flags & MSG_PEEK)) { if (m == s.size()) k.in.pop_front(); else s.erase(0, m); }
	stale(); sched::local(m); if (mc::tracing()) mc::note("server reads " + std::to_string(m) + " bytes of connection " + std::to_string(k.id));
	return m;
}
static ssize_t do_send(int fd, const void* buf, size_t n, int flags, bool iswrite) {
	Rt g; Fd* f = use(fd, "send"); if (!f) return -1;
	if (f->k != Fd::C) { errno = ENOTCONN; return -1; }
	Conn& k = C(f->idx); size_t fi = fd - BASE;
	auto sigpipe = [&]() { struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); if (!(flags & MSG_NOSIGNAL) && sa.sa_handler == SIG_DFL) mc::violate("sigpipe", "writing to a connection whose peer is gone would kill the process with SIGPIPE"); };
	if (k.write_failed && n && !k.out_fin) mc::violate("write-after-error", "data was sent on connection " + std::to_string(k.id) + " after a send on it had failed");
	size_t cap = opt.send_capacity;
	auto rdy = [&k, cap] { return k.out.size() - k.outread < cap || k.reset || k.out_fin || k.client_closed; };
	if (fault(opt.faults.send_error, "send reset", k.id)) { sched::point("send", (void*)oid(k, 1)); static const int E[] = {ECONNRESET, EPIPE, EHOSTUNREACH}; int e = E[mc::choose(3)]; sched::local(e); k.reset = true; k.write_failed = true; errno = e; return -1; }
	if (fault(opt.faults.timeout_send && k.sndto >= 0, "send timeout", k.id)) { sched::point("send", (void*)oid(k, 1)); k.write_failed = true; errno = EAGAIN; return -1; }
	if (fault(opt.faults.interrupt, "send interrupted", k.id)) { sched::point("send", (void*)oid(k, 1)); errno = EINTR; return -1; }
	k.in_send++;
	bool ok = ((flags & MSG_DONTWAIT) || k.nonblock) ? (sched::point("send", (void*)oid(k, 1)), rdy()) : sched::block("send", oid(k, 1), rdy, dl(k.sndto));
	k.in_send--;
	if (fds[fi].closed && !k.out_fin) mc::violate("closed-while-blocked", "a descriptor was closed while another thread was blocked in send on it");
	sched::event("send", oid(k, 1), true, mc::hash_bytes(buf, 0, ok));
	if (!ok) { k.write_failed = true; errno = EAGAIN; return -1; }
	if (k.out_fin) { sigpipe(); errno = EPIPE; return -1; }
	if (k.reset) { sigpipe(); k.write_failed = true; errno = ECONNRESET; return -1; }
	if (k.client_closed) { // the peer answers with a reset: this send still succeeds, later ones fail
		k.reset = true; k.in.clear(); k.writes.push_back(std::string((const char*)buf, n)); stale(); return n;
	}
	size_t m = std::min(n, cap - (k.out.size() - k.outread));
	if (race::range) race::range(buf, m, false);
	if (m > 1 && fault(opt.faults.partial_send, "partial send", k.id)) { m = mc::choose(2) ? m / 2 : 1; sched::local(m); if (!m) m = 1; }
	k.out.append((const char*)buf, m); k.writes.push_back(std::string((const char*)buf, m));
	if (mc::tracing()) mc::note("server writes " + std::to_string(m) + " of " + std::to_string(n) + " bytes to connection " + std::to_string(k.id) + ": " + mc::show(std::string((const char*)buf, m), 60));
	stale(); return m;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l) {
	Rt g; Fd* f = use(fd, "accept"); if (!f) return -1;
	if (f->k != Fd::L) { errno = EINVAL; return -1; }
	Listener& L = *lst[f->idx]; size_t fi = fd - BASE;
	if (!L.listening) { errno = EINVAL; return -1; }
	if (fault(opt.faults.accept_error, "accept failure", -1)) { sched::point("accept", (void*)0xB0000000); static const int E[] = {ECONNABORTED, EMFILE, EINTR, ENOBUFS}; int e = E[mc::choose(4)]; sched::local(e); if (e == ECONNABORTED) sched::block("accept", 0, [&L] { return !L.backlog.empty() || L.shut; }); if (L.shut) { errno = EINVAL; return -1; } if (e == ECONNABORTED && !L.backlog.empty()) { Conn& k = C(L.backlog.front()); L.backlog.pop_front(); k.reset = true; k.out_fin = true; } errno = e; return -1; }
	auto rdy = [&L] { return !L.backlog.empty() || L.shut; };
	bool ok = L.nonblock ? (sched::point("accept", (void*)0xB0000000), rdy()) : sched::block("accept", 0, rdy, dl(L.rcvto));
	if (fds[fi].closed && !L.shut) mc::violate("closed-while-blocked", "the listening descriptor was closed without a shutdown while accept was blocked on it");
	sched::event("accept", 0xB0000000, true, ok);
	if (!ok) { errno = EAGAIN; return -1; }
	if (L.shut) { errno = EINVAL; return -1; }
	int ci = L.backlog.front(); L.backlog.pop_front(); Conn& k = C(ci); k.accepted = true; naccepted++;
	int nfd = newfd(Fd::C, ci); k.fd = nfd;
	if (a) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(k.pport); s.sin_addr.s_addr = htonl(k.ip); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
	if (mc::tracing()) mc::note("server accepts connection " + std::to_string(ci));
	stale(); return nfd;
}
} // namespace net
using net::Conn; using net::Fd; using net::Listener; using net::C; using net::mine; using net::get; using net::newfd; using net::use; using net::lst; using net::oid; using net::do_recv; using net::do_send; using net::do_accept;

template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define RL(name) static auto r = real<decltype(&::name)>(#name)

extern "C" {
int socket(int d, int t, int p) noexcept {
	if (!sched::managed()) { RL(socket); return r(d, t, p); }
	Rt g; sched::point("socket", (void*)0xB0000000); if (net::opt.fail_socket) { errno = net::opt.fail_socket; return -1; } auto l = std::make_unique<Listener>(); l->nonblock = t & SOCK_NONBLOCK; lst.push_back(std::move(l)); return newfd(Fd::L, lst.size() - 1);
}
int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept {
	if (!mine(fd)) { RL(bind); return r(fd, a, l); }
	Rt g; Fd* f = use(fd, "bind"); if (!f) return -1; sched::point("bind", (void*)0xB0000000); Listener& L = *lst[f->idx]; int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
	if (net::opt.fail_bind) { errno = net::opt.fail_bind; return -1; }
	if (L.bound) { errno = EINVAL; return -1; }
	if (!net::bindable(port, L.reuse)) { errno = EADDRINUSE; return -1; }
	L.bound = true; L.port = port; return 0;
}
int listen(int fd, int n) noexcept { if (!mine(fd)) { RL(listen); return r(fd, n); } Rt g; Fd* f = use(fd, "listen"); if (!f) return -1; sched::point("listen", (void*)0xB0000000); if (net::opt.fail_listen) { errno = net::opt.fail_listen; return -1; } lst[f->idx]->listening = true; return 0; }
int accept(int fd, struct sockaddr* a, socklen_t* l) { if (!mine(fd)) { if (sched::managed()) { errno = EBADF; return -1; } RL(accept); return r(fd, a, l); } return do_accept(fd, a, l); }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { if (!mine(fd)) { RL(accept4); return r(fd, a, l, fl); } return do_accept(fd, a, l); }
int setsockopt(int fd, int lev, int o, const void* v, socklen_t l) noexcept {
	if (!mine(fd)) { if (sched::managed()) { errno = EBADF; return -1; } RL(setsockopt); return r(fd, lev, o, v, l); }
	Rt g; Fd* f = use(fd, "setsockopt"); if (!f) return -1;
	if (f->k == Fd::C && net::fault(net::opt.faults.sockopt_error, "setsockopt failure", C(f->idx).id)) { errno = ENOBUFS; return -1; }
	if (f->k == Fd::L && net::opt.fail_listener_option) { errno = net::opt.fail_listener_option; return -1; }
	if (f->k == Fd::L && lev == SOL_SOCKET && o == SO_REUSEADDR) lst[f->idx]->reuse = l >= sizeof(int) && *(const int*)v;
	if (lev == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) {
		if (l < sizeof(struct timeval)) { errno = EINVAL; return -1; }
		const struct timeval* tv = (const struct timeval*)v; if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EDOM; return -1; }
		int64_t ns = tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll; int ms = ns / 1000000; if (ns == 0) ns = -1;
		if (f->k == Fd::C) { Conn& k = C(f->idx); if (o == SO_RCVTIMEO) { k.rcvto = ns; k.rcvms = ms; } else { k.sndto = ns; k.sndms = ms; } }
		else if (o == SO_RCVTIMEO) lst[f->idx]->rcvto = ns;
	}
	return 0;
}
int getsockopt(int fd, int lev, int o, void* v, socklen_t* l) noexcept { if (!mine(fd)) { RL(getsockopt); return r(fd, lev, o, v, l); } Rt g; if (!use(fd, "getsockopt")) return -1; memset(v, 0, *l); return 0; }
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept { if (!mine(fd)) { RL(getsockname); return r(fd, a, l); } Rt g; if (!use(fd, "getsockname")) return -1; struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; memcpy(a, &s, std::min<size_t>(*l, sizeof s)); return 0; }
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept { if (!mine(fd)) { RL(getpeername); return r(fd, a, l); } return getsockname(fd, a, l); }
ssize_t recv(int fd, void* b, size_t n, int fl) { if (!mine(fd)) { if (sched::managed()) { errno = EBADF; return -1; } RL(recv); return r(fd, b, n, fl); } return do_recv(fd, b, n, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { if (!mine(fd)) { if (sched::managed()) { errno = EBADF; return -1; } RL(send); return r(fd, b, n, fl); } return do_send(fd, b, n, fl, false); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if (!mine(fd)) { RL(recvfrom); return r(fd, b, n, fl, a, l); } return do_recv(fd, b, n, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if (!mine(fd)) { RL(sendto); return r(fd, b, n, fl, a, l); } return do_send(fd, b, n, fl, false); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { if (!mine(fd)) { RL(sendmsg); return r(fd, m, fl); } Rt g; std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return do_send(fd, s.data(), s.size(), fl, false); }
ssize_t read(int fd, void* b, size_t n) { if (!mine(fd)) { RL(read); return r(fd, b, n); } return do_recv(fd, b, n, 0); }
ssize_t write(int fd, const void* b, size_t n) { if (sched::managed() && (fd == 1 || fd == 2)) return fwrite(b, 1, n, fd == 1 ? stdout : stderr); if (!mine(fd)) { RL(write); return r(fd, b, n); } return do_send(fd, b, n, 0, true); }
int shutdown(int fd, int how) noexcept {
	if (!mine(fd)) { if (sched::managed()) { errno = EBADF; return -1; } RL(shutdown); return r(fd, how); }
	Rt g; Fd* f = use(fd, "shutdown"); if (!f) return -1;
	if (f->k == Fd::L) { sched::point("shutdown", (void*)0xB0000000); f = use(fd, "shutdown"); if (lst[f->idx]->listening) lst[f->idx]->shut = true; for (int c : lst[f->idx]->backlog) { C(c).reset = true; C(c).out_fin = true; } return 0; }
	Conn& k = C(f->idx); sched::point("shutdown", (void*)oid(k, 0)); use(fd, "shutdown"); sched::event("shutdown", oid(k, 1), true, how);
	if (how != SHUT_WR) k.rd_shut = true; if (how != SHUT_RD) { if (!k.out_fin && !k.in_fin && !k.reset) k.wait_until = sched::now_ns() + 60000000000ll; k.out_fin = true; }
	return 0;
}
int close(int fd) {
	if (!mine(fd)) { RL(close); return r(fd); }
	Rt g; Fd* f = get(fd); if (!f) { errno = EBADF; return -1; }
	sched::point("close", f->k == Fd::L ? (void*)0xB0000000 : (void*)oid(C(f->idx), 0));
	f = get(fd);
	if (f->closed) mc::violate("double-close", "a descriptor was closed twice (a reused number would close another connection)");
	f->closed = true;
	if (f->k == Fd::L) { Listener& L = *lst[f->idx]; L.closed = true; for (int c : L.backlog) { C(c).reset = true; C(c).out_fin = true; } L.backlog.clear(); }
	else {
		Conn& k = C(f->idx); sched::event("closefd", oid(k, 1), true, 0);
		if (k.in_recv && !k.rd_shut) mc::violate("closed-while-blocked", "a descriptor was closed while another thread was blocked in recv on it");
		if (k.in_send && !k.out_fin) mc::violate("closed-while-blocked", "a descriptor was closed while another thread was blocked in send on it");
		if (!k.in.empty() && !k.in_fin) k.reset = k.reset; // unread data: the kernel would reset; data already delivered stays readable here
		if (!k.out_fin && !k.in_fin && !k.reset) k.wait_until = sched::now_ns() + 60000000000ll;
		k.fd_closed = true; k.out_fin = true;
		if (mc::tracing()) mc::note("server closes connection " + std::to_string(k.id));
	}
	return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!mine(fd)) { static auto r = (int (*)(int, int, long))dlsym(RTLD_NEXT, "fcntl"); return r(fd, cmd, a); } Rt g; Fd* f = use(fd, "fcntl"); if (!f) return -1; bool& nb = f->k == Fd::C ? C(f->idx).nonblock : lst[f->idx]->nonblock; if (cmd == F_GETFL) return O_RDWR | (nb ? O_NONBLOCK : 0); if (cmd == F_SETFL) nb = a & O_NONBLOCK; return 0; }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!mine(fd)) { static auto r = (int (*)(int, int, long))dlsym(RTLD_NEXT, "fcntl64"); return r(fd, cmd, a); } return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept { va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap); if (!mine(fd)) { static auto r = (int (*)(int, unsigned long, void*))dlsym(RTLD_NEXT, "ioctl"); return r(fd, req, a); } Rt g; Fd* f = use(fd, "ioctl"); if (!f) return -1; if (req == FIONREAD && f->k == Fd::C) { int n = 0; for (auto& s : C(f->idx).in) n += s.size(); *(int*)a = n; } if (req == FIONBIO) { bool& nb = f->k == Fd::C ? C(f->idx).nonblock : lst[f->idx]->nonblock; nb = *(int*)a; } return 0; }
int poll(struct pollfd* p, nfds_t n, int to) {
	bool any = false; for (nfds_t i = 0; i < n; i++) any |= mine(p[i].fd);
	if (!any) { if (sched::managed()) { sched::sleep_ms(to < 0 ? 0 : to); return 0; } RL(poll); return r(p, n, to); }
	Rt g; for (nfds_t i = 0; i < n; i++) if (mine(p[i].fd) && !use(p[i].fd, "poll")) return -1;
	auto eval = [&]() { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Fd* f = get(p[i].fd); if (!f) continue; if (f->k == Fd::L) { Listener& L = *lst[f->idx]; if ((!L.backlog.empty() || L.shut) && (p[i].events & POLLIN)) p[i].revents |= POLLIN; } else { Conn& c = C(f->idx); if (!c.in.empty() || c.in_fin || c.reset || c.rd_shut) p[i].revents |= p[i].events & POLLIN; if (c.out.size() - c.outread < net::opt.send_capacity || c.reset || c.client_closed) p[i].revents |= p[i].events & POLLOUT; if (c.reset) p[i].revents |= POLLERR; if ((c.rd_shut && c.out_fin)) p[i].revents |= POLLHUP; } if (p[i].revents) k++; } return k; };
	sched::block("poll", 0, [&] { return eval() > 0; }, to < 0 ? -1 : sched::now_ns() + to * 1000000ll);
	int k = eval(); for (nfds_t i = 0; i < n; i++) if (get(p[i].fd) && get(p[i].fd)->k == Fd::C) sched::event("poll", oid(C(get(p[i].fd)->idx), 0), false, p[i].revents); return k;
}
} // extern "C"
