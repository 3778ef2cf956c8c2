// C09: the connection limit bounds concurrency and never wedges the service
#include "http_common.hpp"
using namespace hc;

static const int NOLIMIT = 1 << 30; // configured as 0
static int active, peak; static std::map<std::string, bool> hold;
static RequestCallback handler() {
	return [](const HTTP::Request& r, const RequestContext& x) -> HandlerResponse {
		if (r.headers.has("x-stream")) { // ends the connection itself and goes on working
			auto w = x.startEventStream(); w.close();
			{ Rt g; std::string id = r.headers.get("x-stream"); hold[id] = true; sched::block("handler goes on", 0, [id] { return !hold[id]; }); }
			return {};
		}
		{ Rt g; active++; peak = std::max(peak, active);
		  std::string id = r.headers.get("x-hold"); if (!id.empty()) { hold[id] = true; sched::block("handler holds", 0, [id] { return !hold[id]; }); }
		  active--; }
		return HTTP::Response(200, {{"content-type", "image/x"}}, std::string("ok"));
	};
}
struct K { std::unique_ptr<Client> c; std::string id; bool held = false; bool served = false; bool lingers = false; };
static std::string req(const std::string& hold = "") { return "GET / HTTP/1.1\r\n" + (hold.empty() ? "" : "X-Hold: " + hold + "\r\n") + "\r\n"; }
// The model: a connection counts from being accepted until the server has closed its socket and its thread has ended.
struct W {
	Server& srv; int limit; int next = 0; std::vector<K> open; int base;
	// a new client; returns what happened: true served, false closed unserved
	bool connect(bool held) {
		K k; k.c = std::make_unique<Client>(); k.id = std::to_string(next++); if (k.c->c < 0) mc::violate("refused", "connecting was refused while the server runs");
		k.c->send(req(held ? k.id : ""));
		if (held) { // wait until it is in the handler, or closed
			int c = k.c->c; std::string id = k.id; bool ok = sched::block("client waits", 0, [&] { return hold[id] || net::server_closed(c); }, sched::now_ns() + 10000000000ll);
			if (!ok) mc::violate("stuck", "a connection was neither served nor closed within 10 s (" + std::to_string(open.size()) + " of " + std::to_string(limit) + " in use)");
			if (hold[id]) { k.held = true; open.push_back(std::move(k)); return true; }
		} else {
			Resp r; if (k.c->next(r, false, 10000)) { if (r.status != 200) mc::violate("wrong-response", "status " + std::to_string(r.status)); k.served = true; open.push_back(std::move(k)); return true; }
			if (!net::server_closed(k.c->c)) mc::violate("stuck", "a connection was neither served nor closed within 10 s (" + std::to_string(open.size()) + " of " + std::to_string(limit) + " in use)");
		}
		if (!net::sent(k.c->c).empty()) mc::violate("half-served", "a connection over the limit got " + mc::show(net::sent(k.c->c)));
		if (!net::wait_closed(k.c->c, 1000)) mc::violate("not-closed", "a connection over the limit was not closed");
		k.c->close(); return false;
	}
	void expect(bool held) {
		bool room = (int)open.size() < limit; bool s = connect(held);
		if (s && !room) mc::violate("limit-exceeded", "a connection was served although " + std::to_string(open.size() - 1) + " of " + std::to_string(limit) + " were being served");
		if (!s && room) mc::violate("refused-below-limit", "a connection was closed unserved although only " + std::to_string(open.size()) + " of " + std::to_string(limit) + " were in use");
		if (peak > limit) mc::violate("limit-exceeded", std::to_string(peak) + " handlers ran at once");
	}
	// a client whose handler ends the connection, which then counts as long as the handler goes on
	void linger() {
		bool room = (int)open.size() < limit; K k; k.c = std::make_unique<Client>(); k.id = std::to_string(next++); int c = k.c->c; std::string id = k.id; k.c->send("GET / HTTP/1.1\r\nX-Stream: " + id + "\r\n\r\n");
		if (!sched::block("client waits", 0, [&] { return hold[id] || net::server_closed(c); }, sched::now_ns() + 10000000000ll)) mc::violate("stuck", "a connection was neither served nor closed within 10 s (" + std::to_string(open.size()) + " of " + std::to_string(limit) + " in use)");
		bool s = !net::sent(c).empty(); net::wait_closed(c, 1000);
		if (s != room) mc::violate(s ? "limit-exceeded" : "refused-below-limit", std::to_string(open.size()) + " of " + std::to_string(limit) + " were in use");
		if (s) { k.lingers = true; open.push_back(std::move(k)); }
	}
	// ends connection i: how 0 client closes, 1 asks for close, 2 resets
	void finish(size_t i, int how) {
		K k = std::move(open.at(i)); open.erase(open.begin() + i); int before = sched::live_threads();
		if (k.lingers) { k.c->close(); hold[k.id] = false; sched::block("thread ends", 0, [&] { return sched::live_threads() < before; }, sched::now_ns() + 2000000000ll); return; }
		if (k.held) { hold[k.id] = false; sched::point("release", 0); Resp r; if (!k.c->next(r, false, 10000)) mc::violate("stuck", "a released handler's response did not arrive"); }
		if (how == 0) k.c->close(); else if (how == 1) { k.c->send("GET / HTTP/1.1\r\nConnection: close\r\n\r\n"); Resp r; if (!k.c->next(r, false, 10000)) mc::violate("stuck", "no response"); } else net::rst(k.c->c);
		if (!net::wait_closed(k.c->c, 20000)) mc::violate("not-closed", "a finished connection was not closed");
		sched::block("thread ends", 0, [&] { return sched::live_threads() < before; }, sched::now_ns() + 2000000000ll);
		if (how == 1) k.c->close();
	}
};
static sched::Options opts(bool sched) { sched::Options o = quiet(); if (sched) { o.preempt = true; o.onblock = sched::Deviate; } return o; }
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C09"; bool th = mc::thorough();
	cfg.rule = "all sequences of 6 (thorough 8) steps from {open idle, open busy, finish oldest, newest or middle by close, close request or reset, open 2 at once} starting from 0, limit-2, limit-1, limit connections and from a history of many finished ones, for limits 50 and 51, with handlers that go on after they have ended their connection, and 2 (3) steps for 15 limits up to 2^32-1 and at 255, 256 and 258; all schedules with one deviation of opens racing with finishes at the limit";
	cfg.assumptions = {"capacity is demanded back once the connection's worker thread has ended"};
	std::vector<mc::Scenario> sc;
	auto base = [](int limit, int start, int churn, const std::function<void(W&)>& body, const sched::Options& o, uint32_t exact = 0) {
		active = peak = 0; hold.clear();
		world(o, [&] {
			Rt g; auto cfg = config(); cfg.service.maxConnections = exact ? exact : limit == NOLIMIT ? 0 : limit; Server srv(handler(), cfg); W w{srv, limit};
			for (int i = 0; i < churn; i++) { w.expect(i & 1); w.finish(0, i % 3); }
			for (int i = 0; i < start; i++) w.expect(i % 3 == 0);
			body(w);
			for (auto& k : w.open) { hold[k.id] = false; k.c->close(); }
			sched::point("done", 0);
			// the service still works
			for (auto& k : w.open) net::wait_closed(k.c->c, 60000);
			w.open.clear(); sched::block("threads end", 0, [&] { return sched::live_threads() <= 1; }, sched::now_ns() + 5000000000ll);
			w.expect(false); w.open[0].c->close();
		});
	};
	for (int limit : {50, 51}) for (int start : {0, limit - 2, limit - 1, limit}) for (int churn : {0, 40, 120}) {
		if (churn && start < limit - 1) continue;
		int depth = th ? 6 : 4;
		sc.push_back({"steps." + std::to_string(limit) + "." + std::to_string(start) + "." + std::to_string(churn), 0, [=] {
			base(limit, start, churn, [&](W& w) {
				for (int i = 0; i < depth; i++) {
					int op = mc::choose(w.open.size() ? 6 : 2); size_t n = w.open.size();
					switch (op) { case 0: w.expect(false); break; case 1: w.expect(true); break; case 2: w.finish(0, 0); break; case 3: w.finish(n - 1, 1); break; case 4: w.finish(n / 2, 2); break; case 5: w.finish(0, 1); break; }
					mc::step(mc::path_hash()); mc::outcome(w.open.size()); if ((int)w.open.size() == limit) mc::nontrivial();
				}
			}, opts(false));
		}});
	}
	for (int start : {0, 1, 49, 50, 110}) sc.push_back({"nolimit." + std::to_string(start), 0, [=] {
		base(NOLIMIT, start, start % 3 * 5, [&](W& w) {
			for (int i = 0; i < (start > 100 ? 3 : 4); i++) {
				int op = mc::choose(w.open.size() ? 6 : 2); size_t n = w.open.size();
				switch (op) { case 0: w.expect(false); break; case 1: w.expect(true); break; case 2: w.finish(0, 0); break; case 3: w.finish(n - 1, 1); break; case 4: w.finish(n / 2, 2); break; case 5: w.finish(0, 1); break; }
				mc::step(mc::path_hash()); mc::outcome(w.open.size()); mc::nontrivial();
			}
		}, opts(false));
	}});
	// handlers that go on after their connection has ended
	for (int limit : {50, 51}) for (int start : {limit - 3, limit - 1, limit}) sc.push_back({"linger." + std::to_string(limit) + "." + std::to_string(start), 0, [=] {
		int depth = th ? 6 : 4;
		base(limit, 0, 0, [&](W& w) {
			for (int i = 0; i < start; i++) if (i % 7 == 3) w.linger(); else w.expect(i % 3 == 0);
			for (int i = 0; i < depth; i++) {
				int op = mc::choose(w.open.size() ? 5 : 2); size_t n = w.open.size();
				switch (op) { case 0: w.expect(false); break; case 1: w.linger(); break; case 2: w.finish(0, 0); break; case 3: w.finish(n - 1, 1); break; case 4: for (size_t j = 0; j < n; j++) if (w.open[j].lingers) { w.finish(j, 0); break; } break; }
				mc::step(mc::path_hash()); mc::outcome(w.open.size()); if ((int)w.open.size() == limit) mc::nontrivial();
			}
		}, opts(false));
	}});
	// limits that do not fit into a narrower number
	for (uint32_t limit : {255u, 256u, 257u, 300u, 306u, 32768u, 65535u, 65536u, 65537u, 65586u, 16777217u, 0x7fffffffu, 0x80000000u, 0x80000033u, 0xffffffffu}) for (int start : {0, 49, 60}) sc.push_back({"wide." + std::to_string(limit) + "." + std::to_string(start), 0, [=] {
		base(limit > (uint32_t)NOLIMIT ? (int)NOLIMIT + 1 : (int)limit, start, 0, [&](W& w) {
			for (int i = 0; i < 2 + th; i++) {
				int op = mc::choose(w.open.size() ? 4 : 2); size_t n = w.open.size();
				switch (op) { case 0: w.expect(false); break; case 1: w.expect(true); break; case 2: w.finish(0, 0); break; case 3: w.finish(n - 1, 1); break; }
				mc::step(mc::path_hash()); mc::outcome(w.open.size()); mc::nontrivial();
			}
		}, opts(false), limit);
	}});
	for (int limit : {255, 256, 258}) sc.push_back({"full." + std::to_string(limit), 0, [=] {
		base(limit, limit - 1, 0, [&](W& w) {
			for (int i = 0; i < 2 + th; i++) {
				int op = mc::choose(4); size_t n = w.open.size();
				switch (op) { case 0: w.expect(false); break; case 1: w.expect(true); break; case 2: w.finish(0, 0); break; case 3: w.finish(n - 1, 1); break; }
				mc::step(mc::path_hash()); mc::outcome(w.open.size()); mc::nontrivial();
			}
		}, opts(false));
	}});
	// full turnover: everything finishes, then the service is filled again
	for (int limit : {50, 51}) sc.push_back({"turnover." + std::to_string(limit), 0, [=] {
		int order = mc::choose(4), n = limit - mc::choose(3), over = mc::choose(3), rounds = 2 + mc::choose(2);
		base(limit, 0, 0, [&](W& w) {
			for (int r = 0; r < rounds; r++) {
				while ((int)w.open.size() < n) w.expect(w.open.size() % 2); if (n == limit) for (int i = 0; i < over; i++) w.expect(i);
				while (!w.open.empty()) { size_t m = w.open.size(); w.finish(order == 0 ? 0 : order == 1 ? m - 1 : order == 2 ? m / 2 : (m % 2 ? 0 : m - 1), 0); }
			}
			mc::outcome(n); mc::nontrivial();
		}, opts(false));
	}});
	// schedules: at the limit, opens race with a finish; the only promises left are the bound, a prompt answer and recovery
	for (int k = 0; k < 3; k++) sc.push_back({"race." + std::to_string(k), 1, [=] {
		sched::Options o = opts(true); active = peak = 0; hold.clear();
		base(50, 0, 0, [&](W&) {}, opts(false)); // warm
		world(o, [&] {
			Rt g; auto cfg = config(); cfg.service.maxConnections = 50; Server srv(handler(), cfg); W w{srv, 50};
			(void)k; int n = 3; std::vector<int> t; std::vector<std::unique_ptr<Client>> cs; for (int i = 0; i < n; i++) cs.push_back(std::make_unique<Client>());
			for (int i = 0; i < n; i++) t.push_back(sched::spawn("client", [&, i] { Rt g; cs[i]->send(req()); Resp r; if (!cs[i]->next(r, false, 20000)) mc::violate("stuck", "not served below the limit"); if (k == 0) cs[i]->close(); else if (k == 1) net::rst(cs[i]->c); else { cs[i]->fin(); } }));
			for (int x : t) sched::join(x); for (auto& c : cs) { net::wait_closed(c->c, 60000); c->close(); }
			w.expect(false); w.open[0].c->close();
		});
		mc::outcome(peak); mc::step(mc::path_hash());
	}});
	return mc::run(argc, argv, cfg, sc);
}
