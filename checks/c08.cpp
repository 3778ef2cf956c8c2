// C08: starting, stopping and destroying a server is safe under every schedule
#include "http_common.hpp"
#include <atomic>
using namespace hc;

// what the handler does
enum { PLAIN, THROW, SLEEP, STOP, STREAM, SOCKET };
struct Plan {
	int clients = 1, requests = 1;      // per client, keep-alive
	int mode = PLAIN; bool logs = false;
	int stop = 0;      // 0 destructor only, 1 main shuts down then destroys, 2 another thread shuts down while main waits, 3 main waits for the handler's own shutdown, 4 shutdown twice from two threads while main waits, 5 another thread waits while main shuts down, 6 main shuts down and waits, 7 as 2, but the server is destroyed and replaced while the other thread may still be inside shutdown
	int when = 0;      // 0 stop right away, 1 after the first client was answered, 2 after all clients are done
	int client = 0;    // 0 reads answers and closes, 1 closes at once, 2 resets, 3 stays idle, 4 sends half a request and waits
	bool detached = false, accepterr = false, threadfail = false, early = false;
	int fill = 0;      // idle connections opened before the exploration starts
};
static LambdaInstance* g_srv; static int served; static std::map<std::string, int> after; static bool g_stopped; static int nthreadfail; static Plan P;
static RequestCallback handler() {
	return [](const HTTP::Request& r, const RequestContext& ctx) -> HandlerResponse {
		std::string id; int mode; bool sleep, stop; { Rt g; served++; std::string v = r.headers.get("x-id"); id = std::string(v.data(), v.size()); if (g_stopped) after[id]++; if (after[id] > 1) mc::violate("served-after-shutdown", "connection " + id + " was served more than one request after shutdown had returned"); mode = P.mode; sleep = mode == SLEEP; stop = mode == STOP; }
		if (sleep) { Rt g; sched::sleep_ms(300); }
		if (stop) { LambdaInstance* s; { Rt g; s = g_srv; } s->shutdownn(); }
		{ Rt g; id = std::string(); }
		if (mode == STREAM) { // goes on as long as there is somebody to listen
			auto w = ctx.startEventStream(); Lambda::SSE::EventMessage m; m.data = "x";
			while (w.connected()) { w.push(m); Rt g; sched::sleep_ms(100); }
			return {};
		}
		if (mode == SOCKET) { auto ws = ctx.upgrateToWebsocket(); while (ws.awaitMessage()) ws.nextMessage(); return {}; }
		if (mode == THROW) throw std::runtime_error("handler failed");
		return HTTP::Response(200, {{"content-type", "image/x"}}, std::string("ok"));
	};
}
static int failthread() { if (nthreadfail-- == 0) return EAGAIN; return 0; }

static void client(int id, Client* c, bool* answered) {
	Rt g; if (c->c < 0) return;
	std::string req = "GET / HTTP/1.1\r\nX-Id: " + std::to_string(id) + "\r\n\r\n";
	if (P.client == 4) { c->send(req.substr(0, 9)); c->drain(); c->close(); return; }
	if (P.client == 3) { c->drain(); c->close(); return; }
	if (P.mode == STREAM || P.mode == SOCKET) {
		c->send(P.mode == STREAM ? req : "GET / HTTP/1.1\r\nX-Id: " + std::to_string(id) + "\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n");
		sched::block("stream begins", 0, [&] { return net::sent(c->c).find("\r\n\r\n") != std::string::npos || net::server_closed(c->c); });
		*answered = !net::sent(c->c).empty();
		if (P.client == 1) c->close(); else if (P.client == 2) net::rst(c->c); else { c->drain(); c->close(); }
		return;
	}
	for (int k = 0; k < P.requests; k++) {
		c->send(req);
		if (P.client == 1) { c->close(); return; }
		if (P.client == 2) { net::rst(c->c); return; }
		Resp r; bool ok = c->next(r);
		if (!ok) { if (!c->rest().empty()) mc::violate("partial-response", "the connection ended inside a response: " + mc::show(c->rest())); if (!g_stopped && !sched::now_ms()) {} break; }
		if (r.status != (P.mode == THROW ? 500 : 200) || (P.mode != THROW && r.body != "ok")) mc::violate("wrong-response", "status " + std::to_string(r.status) + " body " + mc::show(r.body));
		*answered = true;
	}
	c->close();
}

static void body(const Plan& p, const sched::Options& o) {
	P = p; served = 0; after.clear(); g_stopped = false; g_srv = nullptr;
	net::reset(); net::opt.faults.accept_error = p.accepterr; net::opt.faults.max = 1;
	nthreadfail = p.threadfail ? 1 + mc::choose(2) : 0;
	if (p.threadfail) sched::thread_create_hook = failthread;
	sched::run(o, [&] {
		Rt g; auto cfg = config(); cfg.service.useThreadList = !p.detached;
		if (p.logs) { cfg.loglevel.requests = cfg.loglevel.startMessage = cfg.loglevel.transportEvents = true; }
		if (p.fill) sched::quiet(true);
		Server srv(handler(), cfg); g_srv = srv.inst.get();
		std::vector<std::unique_ptr<Client>> fillers;
		for (int i = 0; i < p.fill; i++) { fillers.push_back(std::make_unique<Client>()); fillers.back()->send("GET / HTTP/1.1\r\n\r\n"); Resp r; fillers.back()->next(r); if (i % 2) fillers.back()->close(); }
		if (p.fill) { sched::block("fillers settle", 0, [&] { return sched::live_threads() <= 1 + p.fill - p.fill / 2; }, sched::now_ns() + 1000000000); sched::quiet(false); }
		std::vector<std::unique_ptr<Client>> cs; std::vector<int> t; bool answered[8] = {}; 
		for (int i = 0; i < p.clients; i++) { cs.push_back(std::make_unique<Client>()); Client* c = cs.back().get(); bool* a = &answered[i]; t.push_back(sched::spawn("client", [=] { client(i, c, a); })); }
		if (p.when == 1 && p.clients) sched::block("first answer", 0, [&] { return answered[0] || net::server_closed(cs[0]->c); });
		if (p.when == 2) { for (int x : t) sched::join(x); for (int i = 0; i < p.clients; i++) if (p.client == 0 && !answered[i] && !(p.mode == STOP) && !p.accepterr && !p.threadfail) mc::violate("not-served", "a client got no answer although the server had not been stopped"); }
		if (p.when == 2 && (p.accepterr || p.threadfail)) { // one failed accept costs at most the connection it happened on
			Client again; if (again.c < 0) mc::violate("accept-failure", "the service stopped listening after a failed accept"); again.send("GET / HTTP/1.1\r\nX-Id: again\r\nConnection: close\r\n\r\n"); Resp r; bool ab = true; bool ok = again.next(r, false, 10000);
			if (!ok && ab) { Client more; more.send("GET / HTTP/1.1\r\nX-Id: more\r\nConnection: close\r\n\r\n"); ok = more.next(r, false, 10000); more.close(); }
			if (!ok) mc::violate("accept-failure", "the service does not answer after a failed accept"); again.close();
		}
		int64_t t0 = sched::now_ms(); std::vector<int> st;
		auto await = [&] { try { srv.await(); if (!net::bindable(cfg.service.port, true)) mc::violate("port-kept", "waiting for the server has ended and its port is still taken"); } catch (const std::exception& e) { mc::violate("await-error", std::string("waiting for the server ended with an error: ") + e.what()); } catch (...) { mc::violate("await-error", "waiting for the server ended with an error"); } };
		auto stopper = [&] { Rt g; srv.shutdown(); g_stopped = true; };
		switch (p.stop) {
			case 1: stopper(); break;
			case 2: st.push_back(sched::spawn("stopper", stopper)); await(); break;
			case 3: await(); break;
			case 4: st.push_back(sched::spawn("stopper", stopper)); st.push_back(sched::spawn("stopper", stopper)); await(); break;
			case 5: st.push_back(sched::spawn("waiter", [&] { Rt g; await(); })); stopper(); break;
			case 6: stopper(); await(); break;
			case 7: { LambdaInstance* raw = srv.inst.get(); st.push_back(sched::spawn("stopper", [raw] { Rt g; { Lib l; raw->shutdownn(); } g_stopped = true; })); await(); } break;
		}
		if (p.stop == 7) { // nobody waits for the thread that has asked for the stop, and the next server takes over at once
			srv.destroy();
			try { Server next(handler(), cfg); Client c; if (c.c < 0) mc::violate("restart", "the next server on the port accepts nobody"); c.send("GET / HTTP/1.1\r\nX-Id: next\r\nConnection: close\r\n\r\n"); Resp r; bool was = g_stopped; g_stopped = false; if (!c.next(r, false, 60000)) mc::violate("restart", "the next server on the port serves nobody"); c.close(); next.destroy(); (void)was; } catch (const std::exception& e) { mc::violate("restart", std::string("the next server could not be started: ") + e.what()); }
		}
		for (int x : st) sched::join(x);
		if (p.stop && p.stop != 7) { // a stopped server takes nobody in
			int before = served; Client late; if (late.c >= 0) { late.send("GET / HTTP/1.1\r\n\r\n"); if (p.stop != 1 || true) { Resp r; if (late.next(r, false, 30000)) mc::violate("served-after-shutdown", "a connection made after shutdown was served"); if (!net::server_closed(late.c)) mc::violate("left-open", "a connection made after shutdown was accepted by nobody and never closed"); } late.close(); } (void)before;
		}
		for (auto& f : fillers) f->close();
		if (p.detached) { for (int x : t) sched::join(x); await(); sched::block("threads end", 0, [&] { return sched::live_threads() == 0; }); }
		srv.destroy();
		if (sched::live_threads()) mc::violate("thread-left", "threads of the destroyed server are still running: " + sched::describe_live());
		if (net::open_server_fds()) mc::violate("descriptor-leak", "the destroyed server left descriptors open:" + net::describe());
		int64_t dt = sched::now_ms() - t0, lim = 15000 + 1000 + (p.mode == SLEEP ? 300 * p.clients * p.requests : 0) + (p.stop ? 0 : 0);
		if (dt > lim) mc::violate("slow-stop", "stopping took " + std::to_string(dt) + " ms");
		for (int x : t) sched::join(x);
		mc::outcome(served * 64 + (answered[0] ? 1 : 0) + (answered[1] ? 2 : 0)); if (served) mc::nontrivial();
	});
	net::check_closed();
}

int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C08"; cfg.warmup = true; bool th = mc::thorough();
	cfg.rule = "all schedules with up to 3 (thorough 4, with a blocked thread's successor also a deviation) deviations of server, workers, clients, stoppers and waiters at every synchronisation, atomic, socket and log operation, for every combination of stop style, moment, client behaviour and handler behaviour listed in the harness; every load and store checked for races and use after free";
	cfg.assumptions = {"threads are tracked (useThreadList); one thread waits at a time", "interleavings are sequentially consistent; races are reported by happens-before"};
	std::vector<mc::Scenario> sc;
	auto add = [&](const std::string& n, Plan p, int bound) {
		sc.push_back({n, bound, [=] {
			sched::Options o; o.prune = true; o.onblock = sched::Deviate; o.early_timers = p.early;
			sched::thread_create_hook = nullptr;
			body(p, o);
		}});
	};
	int B = th ? 4 : 3;
	for (int s : {0, 1, 2, 4, 5, 6}) { Plan p; p.clients = 0; p.stop = s; add("empty.stop" + std::to_string(s), p, B + 1); }
	for (int s : {0, 1, 2, 4, 5, 6}) for (int w : {0, 1, 2}) { Plan p; p.stop = s; p.when = w; add("one.stop" + std::to_string(s) + ".when" + std::to_string(w), p, B); }
	for (int s : {0, 2}) for (int c : {1, 2, 3, 4}) { Plan p; p.stop = s; p.client = c; add("client" + std::to_string(c) + ".stop" + std::to_string(s), p, B); }
	for (int s : {0, 2}) for (int m : {THROW, SLEEP}) { Plan p; p.stop = s; p.mode = m; add("mode" + std::to_string(m) + ".stop" + std::to_string(s), p, B); }
	{ Plan p; p.mode = STOP; p.stop = 3; add("handlerstop", p, B); p.requests = 2; p.clients = 2; add("handlerstop2", p, th ? 3 : 2); }
	for (int s : {0, 2}) { Plan p; p.clients = 2; p.requests = 2; p.stop = s; add("two.stop" + std::to_string(s), p, th ? 3 : 2); p.logs = true; add("twologs.stop" + std::to_string(s), p, th ? 3 : 2); }
	for (int s : {0, 2}) { Plan p; p.stop = s; p.logs = true; p.requests = 2; add("logs.stop" + std::to_string(s), p, B); }
	for (int s : {0, 2}) { Plan p; p.stop = s; p.early = true; p.client = 3; add("timers.stop" + std::to_string(s), p, B); }
	for (int s : {0, 2}) for (int w : {0, 2}) { Plan p; p.stop = s; p.when = w; p.accepterr = true; add("accepterr.stop" + std::to_string(s) + ".when" + std::to_string(w), p, B); }
	for (int f : {38, 49, 50}) { Plan p; p.fill = f; p.clients = 2; p.stop = 0; p.when = f < 49 ? 0 : 0; add("fill" + std::to_string(f), p, 1); }
	{ Plan p; p.threadfail = true; p.clients = 2; p.stop = 2; p.when = 2; add("threadfail", p, 1); }
	{ Plan p; p.clients = 0; p.stop = 7; add("replace.empty", p, B); p.clients = 1; add("replace.one", p, th ? 3 : 2); p.logs = true; p.clients = 0; add("replace.logs", p, th ? 3 : 2); }
	for (int m : {STREAM, SOCKET}) for (int s : {0, 2, 6}) for (int c : {0, 1, 2}) { Plan p; p.mode = m; p.stop = s; p.client = c; p.when = c ? 2 : 1; if (!c && s != 6) { p.when = 0; add(std::string(m == STREAM ? "stream" : "socket") + ".atonce.stop" + std::to_string(s), p, m == STREAM ? B : B - 1); p.when = 1; } add(std::string(m == STREAM ? "stream" : "socket") + ".stop" + std::to_string(s) + ".client" + std::to_string(c), p, m == STREAM ? B : B - 1); }
	{ Plan p; p.detached = true; p.stop = 6; add("detached", p, B); }
	return mc::run(argc, argv, cfg, sc);
}
