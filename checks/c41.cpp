// C41: idle, slow and stalled peers are handled by the configured timeouts, and only by them
#include "http_common.hpp"
using namespace hc;
static int calls; static size_t bodysize; static int64_t work;
static RequestCallback handler() {
	return [](const HTTP::Request& q, const RequestContext&) -> HandlerResponse {
		{ Rt g; calls++; if (work) sched::sleep_ms(work); }
		auto b = q.body.text(); size_t n; { Rt g; n = bodysize; } return HTTP::Response(200, {{"content-type", "image/x"}}, n ? std::string(n, 'r') : "len " + std::to_string(b.size()));
	};
}
static const std::vector<uint32_t> T = {250, 1000, 3001, 15000, 60000};
template <class F> static void with(uint32_t rx, uint32_t tx, F&& f) {
	calls = 0; bodysize = 0; work = 0; auto o = quiet(); o.max_points = 20000000; o.max_virtual_ms = 1ll << 40;
	world(o, [&] { Rt g; auto c = config(); c.service.connectionTimeouts.receive = rx; c.service.connectionTimeouts.send = tx; Server srv(handler(), c); f();
		Client x; x.send("GET /canary HTTP/1.1\r\nHost: h\r\n\r\n"); Resp r; size_t keep = bodysize; bodysize = 0; (void)keep; if (!x.next(r, false, 3000) || r.status != 200) mc::violate("server-broken", "a later connection was not served"); x.close(); mc::step(mc::path_hash()); mc::nontrivial(); });
}
static std::string get(const std::string& body = "") { return (body.empty() ? "GET" : "POST") + std::string(" /p HTTP/1.1\r\nHost: h\r\n") + (body.empty() ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body; }
static void ends(Client& c, int64_t since, int64_t limit, const std::string& what) {
	if (!net::wait_closed(c.c, limit * 3 + 5000)) mc::violate("kept", what + ": still open " + std::to_string(sched::now_ms() - since) + " ms later although the timeout is " + std::to_string(limit) + " ms");
	int64_t d = sched::now_ms() - since; if (d < limit) mc::violate("dropped-early", what + ": closed after " + std::to_string(d) + " ms although the timeout is " + std::to_string(limit) + " ms"); if (d > limit + 200) mc::violate("kept", what + ": closed only after " + std::to_string(d) + " ms although the timeout is " + std::to_string(limit) + " ms"); mc::outcome(d);
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C41"; bool th = mc::thorough();
	cfg.rule = "receive and send timeouts of {250, 1000, 3001, 15000, 60000} ms in all pairs; silence from the start, after 1-3 requests and at every byte of a request; pauses just below and above the timeout at every byte position and between requests; handlers that work longer than any timeout; readers that pause just below the timeout or stop reading at several window sizes; another client served meanwhile; all in exact virtual time";
	cfg.assumptions = {"a timeout bounds each wait for the peer, not a whole request", "timeouts of 0 are not claimed"};
	std::vector<mc::Scenario> sc;
	sc.push_back({"idle", 0, [] { uint32_t rx = seq::pick(T), tx = seq::pick(T); int n = mc::choose(4); with(rx, tx, [&] { Client c; int64_t t = sched::now_ms(); for (int i = 0; i < n; i++) { c.send(get()); Resp r; if (!c.next(r, false, 1000)) mc::violate("no-response", "no response"); t = sched::now_ms(); if (i + 1 < n) sched::sleep_ms(rx / 2); }
		ends(c, t, rx, "a connection idle after " + std::to_string(n) + " requests"); std::string x = c.drain(10); if (!x.empty()) mc::violate("unasked-bytes", "an idle connection got " + mc::show(x)); c.close(); }); }});
	sc.push_back({"cut", 0, [] { std::string w = get("hello body"); uint32_t rx = T[mc::choose(4)]; size_t p = 1 + mc::choose(w.size() - 1); bool before = mc::choose(2); with(rx, 60000, [&] { Client c; if (before) { c.send(get()); Resp r; c.next(r, false, 1000); } calls = 0; c.send(w.substr(0, p)); int64_t t = sched::now_ms(); Client d; ends(c, t, rx, "a request cut after " + std::to_string(p) + " bytes"); if (calls) mc::violate("calls", "an incomplete request reached the handler"); c.close(); d.close(); }); }});
	sc.push_back({"pause", 0, [] { // one pause somewhere in a request
		std::string w = get("hello body"); uint32_t rx = T[mc::choose(4)]; size_t p = mc::choose(w.size()); int late = mc::choose(2), before = mc::choose(2); with(rx, 250, [&] { Client c; if (before) { c.send(get()); Resp r; c.next(r, false, 1000); } if (p) c.send(w.substr(0, p)); sched::sleep_ms(late ? rx + 50 : rx - 2); c.send(w.substr(p)); Resp r; bool ok = c.next(r, false, 2000); if (ok == (bool)late) mc::violate(late ? "kept" : "dropped-early", "a pause of " + std::to_string(late ? rx + 50 : rx - 2) + " ms after " + std::to_string(p) + " bytes with a timeout of " + std::to_string(rx) + " ms: " + (ok ? "answered" : "not answered")); if (ok && (r.status != 200 || r.body != "len 10")) mc::violate("wrong-response", r.body); mc::outcome(ok); c.close(); }); }});
	sc.push_back({"slow", 0, [th] { // every gap is just short enough
		std::string w = get("hello body, a little longer"); uint32_t rx = seq::pick(T); int step = 1 + mc::choose(th ? 40 : 12), reqs = 1 + mc::choose(2); with(rx, 250, [&] { Client c; for (int i = 0; i < reqs; i++) { for (size_t k = 0; k < w.size(); k += step) { sched::sleep_ms(rx - 2); c.send(w.substr(k, step)); } Resp r; if (!c.next(r, false, 2000) || r.status != 200 || r.body != "len 27") mc::violate("dropped-early", "a client that never paused longer than the receive timeout was not served"); } c.close(); }); }});
	sc.push_back({"handler", 0, [] { uint32_t rx = seq::pick(T), tx = seq::pick(T); int64_t k[] = {1, 200, 999, 20000, 100000, 1000000}; int64_t wk = k[mc::choose(6)]; int pipe = mc::choose(2); with(rx, tx, [&] { work = wk; Client c; c.send(get() + (pipe ? get("abc") : "")); for (int i = 0; i <= pipe; i++) { Resp r; if (!c.next(r, false, wk * 2 + 2000) || r.status != 200) mc::violate("dropped-early", "a handler that works for " + std::to_string(wk) + " ms could not answer"); } work = 0; int64_t t = sched::now_ms(); ends(c, t, rx, "a connection idle after a long request"); c.close(); }); }});
	sc.push_back({"reader", 0, [] { // the peer stops reading, or reads slowly
		uint32_t rx = seq::pick(T), tx = seq::pick(T); size_t caps[] = {1, 50, 4096, 65536}; size_t cap = caps[mc::choose(4)]; int slow = mc::choose(2); if (slow && cap < 4096) return; with(rx, tx, [&] {
			bodysize = 200000; size_t chunk = 0; net::opt.send_capacity = cap; Client c; c.send(get()); int64_t t = sched::now_ms();
			if (!slow) { ends(c, t, tx, "a peer that stopped reading"); if (calls != 1) mc::violate("calls", "the handler ran " + std::to_string(calls) + " times"); }
			else { std::string all; for (int i = 0; i < 3000; i++) { sched::sleep_ms(i < 12 ? tx - 2 : 1); std::string s = net::recv(c.c, 0 + 50); if (s.empty()) break; all += s; chunk++; } size_t h = all.find("\r\n\r\n"); if (h == std::string::npos || all.size() - h - 4 != 200000) mc::violate("dropped-early", "a peer that never stopped reading longer than the send timeout got " + std::to_string(all.size()) + " bytes"); }
			net::opt.send_capacity = 1u << 30; c.close(); bodysize = 0; }); }});
	sc.push_back({"others", 0, [] { // stalled peers do not delay anyone
		int n = 1 + mc::choose(20); uint32_t rx = seq::pick(T); size_t p = mc::choose(20); with(rx, rx, [&] { std::vector<std::unique_ptr<Client>> s; for (int i = 0; i < n; i++) { s.push_back(std::make_unique<Client>()); if (p) s.back()->send(get().substr(0, p)); } int64_t t = sched::now_ms(); Client c; c.send(get()); Resp r; if (!c.next(r, false, 1000) || sched::now_ms() - t > 50) mc::violate("delayed", "a client waited for " + std::to_string(n) + " stalled ones"); for (auto& x : s) ends(*x, t, rx, "a stalled peer"); c.close(); for (auto& x : s) x->close(); }); }});
	both_modes(sc, {""});
	return mc::run(argc, argv, cfg, sc);
}
