// C43: starting a server is all or nothing, and a stopped one gives its port back
#include "http_common.hpp"
#include <sys/socket.h>
using namespace hc;
static int served;
static RequestCallback handler(int id) { return [id](const HTTP::Request&, const RequestContext&) -> HandlerResponse { { Rt g; served++; } return HTTP::Response(200, {{"content-type", "image/x"}}, "server " + std::to_string(id)); }; }
enum Fail { NONE, SOCKET, BIND, LISTEN, LIMIT1, LIMIT49, THREAD, OPTION, NFAIL };
static const char* FAILS[] = {"nothing wrong", "socket() failing", "bind() failing", "listen() failing", "a limit of 1", "a limit of 49", "no thread available", "SO_REUSEADDR failing"};
static int nothread() { return EAGAIN; }
struct Slot { std::unique_ptr<Server> s; int state = 0, port = 0; ServerConfig cfg; }; // 0 none, 1 running, 2 stopped but not destroyed
static bool same(const ServerConfig& a, const ServerConfig& b) {
	return a.loglevel.transportEvents == b.loglevel.transportEvents && a.loglevel.requests == b.loglevel.requests && a.loglevel.startMessage == b.loglevel.startMessage && a.transport.useCompression == b.transport.useCompression && a.transport.reuseConnections == b.transport.reuseConnections && a.transport.maxRequestSize == b.transport.maxRequestSize
		&& a.errorResponseType == b.errorResponseType && a.service.port == b.service.port && a.service.fastPortReuse == b.service.fastPortReuse && a.service.connectionTimeouts.receive == b.service.connectionTimeouts.receive && a.service.connectionTimeouts.send == b.service.connectionTimeouts.send && a.service.maxConnections == b.service.maxConnections && a.service.useThreadList == b.service.useThreadList;
}
struct World {
	Slot slot[2]; bool reuse; std::string hist; int starts = 0; std::string log;
	[[noreturn]] void bad(const char* k, const std::string& m) { mc::violate(k, m + " (after" + hist + ")"); }
	int running() { return (slot[0].state == 1) + (slot[1].state == 1); }
	void settle() { if (!sched::block("threads settle", 0, [this] { return sched::live_threads() <= running(); }, sched::now_ns() + 20000000000ll)) bad("thread-left", std::to_string(sched::live_threads()) + " threads for " + std::to_string(running()) + " running servers: " + sched::describe_live()); }
	void invariants() {
		settle(); if (sched::live_threads() != running()) bad("thread-left", std::to_string(sched::live_threads()) + " threads for " + std::to_string(running()) + " running servers: " + sched::describe_live());
		if (net::open_server_fds() != running()) bad("descriptor-leak", std::to_string(net::open_server_fds()) + " descriptors open for " + std::to_string(running()) + " running servers");
		for (int p : {8180, 8190}) { bool want = false; for (auto& s : slot) want = want || (s.state == 1 && s.port == p); if (net::listening(p) != want) bad("port", "port " + std::to_string(p) + (want ? " is not" : " is still") + " being listened on"); }
		for (auto& s : slot) if (s.state) { Lib l; if (!same(s.s->inst->getConfig(), s.cfg)) { Rt g; bad("config", "getConfig() does not return what the server was started with"); } }
	}
	void start(int i, int port, Fail f) {
		Slot& s = slot[i]; s.cfg = config(); auto& c = s.cfg; c.service.port = port; c.service.fastPortReuse = reuse; c.service.useThreadList = !detached; c.service.maxConnections = f == LIMIT1 ? 1 : f == LIMIT49 ? 49 : starts % 3 == 0 ? 50 : starts % 3 == 1 ? 0 : 500; c.loglevel.startMessage = starts & 1; c.service.connectionTimeouts = {7000u + i, 8000u + i}; c.transport.maxRequestSize = 5000 + i; c.transport.useCompression = i; c.errorResponseType = i ? ErrorResponseType::JSON : ErrorResponseType::HTML; starts++;
		hist += " start" + std::to_string(i) + "@" + std::to_string(port) + (f ? std::string(" with ") + FAILS[f] : "") + ";"; if (mc::tracing()) mc::note(hist);
		int e = f == SOCKET ? EMFILE : f == BIND ? EACCES : f == LISTEN ? EADDRINUSE : f == OPTION ? ENOBUFS : 0; bool free = net::bindable(port, reuse);
		if (!e && f == NONE && !free) e = EADDRINUSE;
		net::opt.fail_socket = f == SOCKET ? EMFILE : 0; net::opt.fail_bind = f == BIND ? EACCES : 0; net::opt.fail_listen = f == LISTEN ? EADDRINUSE : 0; net::opt.fail_listener_option = f == OPTION ? ENOBUFS : 0; sched::thread_create_hook = f == THREAD ? nothread : nullptr;
		bool threw = false, net_ = false; int code = 0; std::string what; log.clear();
		try { s.s = std::make_unique<Server>(handler(i), c); } catch (const Network::NetworkError& x) { threw = net_ = true; code = x.osError(); what = x.what(); } catch (const std::exception& x) { threw = true; what = x.what(); } catch (...) { bad("exception", "the failed start threw something that is no std::exception"); }
		net::opt.fail_socket = net::opt.fail_bind = net::opt.fail_listen = net::opt.fail_listener_option = 0; sched::thread_create_hook = nullptr;
		bool want = f != NONE || !free;
		if (threw != want) bad("start", std::string("starting with ") + (f == NONE && !free ? "the port taken" : FAILS[f]) + (want ? " did not fail" : " failed: " + what));
		if (want) {
			if (what.empty()) bad("exception", "the exception says nothing");
			if (e && free && (!net_ || code != e)) bad("exception", "the exception carries error " + std::to_string(code) + " instead of " + std::to_string(e) + ": " + what);
			if (log.find("localhost:") != std::string::npos) bad("log", "a failed start was announced: " + mc::show(log));
			s.state = 0; s.s.reset();
		} else { s.state = 1; s.port = port; size_t n = 0; for (size_t p = 0; (p = log.find("localhost:" + std::to_string(port), p)) != std::string::npos; p++) n++; if (n != c.loglevel.startMessage) bad("log", "start messages: " + mc::show(log)); }
		mc::outcome(mc::mix(f, mc::mix(want, e)));
	}
	void ask(int i, int how) { // 0 the client closes, 1 the server closes
		hist += " ask" + std::to_string(i) + (how ? "(close);" : ";"); int before = served; Client c(slot[i].port); if (c.c < 0) bad("refused", "a running server's port refused a connection");
		c.send(std::string("GET / HTTP/1.1\r\nHost: h\r\n") + (how ? "Connection: close\r\n" : "") + "\r\n"); Resp r; if (!c.next(r, false, 5000) || r.status != 200 || r.body != "server " + std::to_string(i)) bad("wrong-response", "a running server answered " + std::to_string(r.status) + " " + mc::show(r.body));
		if (served != before + 1) bad("calls", "handler calls"); if (!how) c.close(); if (!net::wait_closed(c.c, 5000)) bad("not-closed", "connection not closed"); c.close(); settle();
	}
	void stop(int i, int how) { // 0 destroy, 1 shut down and wait, 2 the same, then shut down again
		static const char* H[] = {" destroy", " stop", " stop twice"}; hist += H[how] + std::to_string(i) + ";";
		if (how == 0) { slot[i].s.reset(); slot[i].state = 0; return; }
		try { slot[i].s->shutdown(); slot[i].s->await(); if (how == 2) { slot[i].s->shutdown(); slot[i].s->await(); } } catch (const std::exception& e) { bad("await-error", std::string("stopping threw ") + e.what()); } slot[i].state = 2;
	}
};
static void run(bool reuse, int depth) {
	served = 0; World w; w.reuse = reuse; net::reset(); net::opt.time_wait = true; services = 0; sched::capture_output(&w.log);
	sched::run(quiet(), [&] { Rt g;
		for (int step = 0; step < depth; step++) {
			std::vector<std::function<void()>> ops; bool fresh = step == 0;
			for (int i = 0; i < (fresh ? 1 : 2); i++) {
				if (w.slot[i].state == 0) { ops.push_back([&, i] { w.start(i, 8180, NONE); }); if (!fresh) ops.push_back([&, i] { w.start(i, 8190, NONE); }); for (int f = 1; f < NFAIL; f++) if (f != OPTION || reuse) ops.push_back([&, i, f] { w.start(i, 8180, (Fail)f); }); }
				if (w.slot[i].state == 1) { for (int h : {0, 1}) ops.push_back([&, i, h] { w.ask(i, h); }); for (int h : {0, 1, 2}) ops.push_back([&, i, h] { w.stop(i, h); }); }
				if (w.slot[i].state == 2) ops.push_back([&, i] { w.stop(i, 0); });
			}
			ops[mc::choose(ops.size())](); w.invariants(); mc::step(mc::mix(mc::path_hash(), step));
		}
		for (int i = 0; i < 2; i++) if (w.slot[i].state == 1) w.ask(i, 0);
		for (int i : {1, 0}) { w.slot[i].s.reset(); w.slot[i].state = 0; w.invariants(); }
		sched::sleep_ms(61000); w.start(0, 8180, NONE); w.ask(0, 0); w.slot[0].s.reset(); w.slot[0].state = 0; w.invariants();
	});
	sched::capture_output(nullptr); net::check_closed(); if (served) mc::nontrivial();
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C43"; bool th = mc::thorough();
	cfg.rule = "all sequences of up to 4 (thorough 5) steps of two server objects: start on either of two ports, start with failing socket, bind, listen, option or thread creation or a limit that is too low, serve a request closed by the client or by the server, shut down and wait (once or twice), destroy; with and without fast port reuse (the simulated system keeps a port busy for 60 s behind connections the server closed first), in both thread modes; after every step threads, descriptors, ports and configurations are compared with the model; restarts 100 times in a row";
	cfg.assumptions = {"the port counts as given back once waiting for the stopped server, or its destructor, has returned", "the operating system's rules for bind() are modelled"};
	std::vector<mc::Scenario> sc;
	for (bool reuse : {false, true}) { int d = th ? 5 : 4; sc.push_back({std::string("sequence") + (reuse ? ".reuse" : ""), 0, [=] { run(reuse, d); }}); }
	sc.push_back({"restarts", 0, [] { bool reuse = mc::choose(2); int how = mc::choose(3), ask = mc::choose(2), keep = mc::choose(2); served = 0; World w; w.reuse = reuse; net::reset(); services = 0; net::opt.time_wait = false; sched::capture_output(&w.log);
		sched::run(quiet(), [&] { Rt g; for (int i = 0; i < 100; i++) { w.hist.clear(); w.start(0, 8180, NONE); w.ask(0, ask); if (keep) { w.start(1, 8190, NONE); w.ask(1, 0); } w.invariants(); w.stop(0, how); w.invariants(); if (keep) { w.ask(1, 0); w.stop(1, 0); } w.slot[0].s.reset(); w.slot[0].state = 0; w.invariants(); } });
		sched::capture_output(nullptr); net::check_closed(); mc::nontrivial(); mc::step(mc::path_hash()); }});
	both_modes(sc, {""});
	return mc::run(argc, argv, cfg, sc);
}
