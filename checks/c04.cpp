// C04: the Connection header the server sends is the truth
#include "http_common.hpp"
using namespace hc;

struct Q { std::string conn; std::string hconn; int how = 0; }; // conn: request header ("-" none), hconn: handler header ("-" none); how: 0 reply, 1 throw, 2 no response, 3 POST with body, 4 HEAD, 5 204, 6/7 two connection lines, the first naming another option or keep-alive; 8 the handler's header comes in two lines
static std::vector<Q> qs; static size_t calls;
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext&) -> HandlerResponse {
		const Q* q; { Rt g; if (calls >= qs.size()) mc::violate("served-after-end", "the handler was called more often than requests were sent"); q = &qs[calls++]; }
		if (q->how == 1) throw std::runtime_error("boom");
		if (q->how == 2) return {};
		HTTP::Response r(HTTP::Status(q->how == 5 ? 204 : 200), HTTP::BodyBuffer("ok")); r.headers.set("content-type", "image/x");
		if (q->hconn != "-") { if (q->how == 8) r.headers.set("connection", "keep-alive"); r.headers.append("connection", q->hconn); }
		return r;
	};
}
static std::string wire(const Q& q) {
	std::string m = q.how == 3 ? "POST" : q.how == 4 ? "HEAD" : "GET";
	return m + " / HTTP/1.1\r\n" + (q.how == 6 ? "Connection: x-other\r\n" : q.how == 7 ? "Connection: keep-alive\r\n" : "") + (q.conn != "-" ? "Connection: " + q.conn + "\r\n" : "") + (q.how == 3 ? "Content-Length: 3\r\n\r\nabc" : "\r\n");
}
static bool says(const std::string& v, const char* t) { return (", " + seq::lower(v) + ",").find(std::string(t)) != std::string::npos; }
// tail: what follows the requests: 0 nothing, 1 malformed bytes, 2 too big body
static void drive(const std::vector<Q>& v, bool reuse, bool pipelined, int tail) {
	qs = v; calls = 0;
	world(quiet(), [&] {
		Rt g; auto cfg = config(); cfg.transport.reuseConnections = reuse; cfg.transport.maxRequestSize = 4096; Server srv(handler(), cfg); Client c; std::string all;
		std::string tl = tail == 1 ? "GARBAGE\r\n\r\n" : tail == 2 ? "POST / HTTP/1.1\r\nContent-Length: 5000\r\n\r\n" : "";
		if (pipelined) { for (auto& q : v) all += wire(q); c.send(all + tl); }
		bool closed = false; size_t i = 0;
		for (; i < v.size() && !closed; i++) {
			if (!pipelined) c.send(wire(v[i]));
			Resp r; if (!c.next(r, v[i].how == 4)) mc::violate("keepalive-broken", "request " + std::to_string(i) + " was not served although every response so far said keep-alive");
			auto cs = r.all("connection"); bool two = v[i].how == 8 && v[i].hconn != "-"; if (cs.size() != 1 && !(two && cs.size() == 2)) mc::violate("connection-header", "response has " + std::to_string(cs.size()) + " connection headers");
			for (size_t k = 1; k < cs.size(); k++) cs[0] += ", " + cs[k];
			bool cl = says(cs[0], "close"), ka = says(cs[0], "keep-alive");
			if (two) ka = ka && !cl; if (cl == ka) mc::violate("connection-header", "connection header says '" + cs[0] + "'");
			if (ka && !reuse) mc::violate("reuse-disabled", "keep-alive promised although connection reuse is disabled");
			if (ka && v[i].conn != "-" && says(v[i].conn, "close")) mc::violate("close-ignored", "client asked for '" + v[i].conn + "' and was told keep-alive");
			if (ka && (v[i].how == 0 || v[i].how >= 3) && says(v[i].hconn, "close")) mc::violate("close-ignored", "the handler asked for '" + v[i].hconn + "' and the client was told keep-alive");
			closed = cl; mc::step(mc::mix(mc::path_hash(), i * 2 + cl));
		}
		if (closed) {
			int64_t t0 = sched::now_ms(); std::string x = c.drain(60000);
			if (!x.empty()) mc::violate("data-after-close", "after a response saying close came " + mc::show(x));
			if (!net::wait_closed(c.c, 1000)) mc::violate("not-closed", "the socket stays open after a response saying close");
			if (sched::now_ms() - t0 > 1000) mc::violate("not-closed", "the socket was closed only " + std::to_string(sched::now_ms() - t0) + " ms after a response saying close");
			if (calls > i) mc::violate("served-after-close", "a request behind the close was handed to the handler");
		} else if (tail) {
			if (!pipelined) c.send(tl);
			Resp r; if (c.next(r)) { if (!says(r.get("connection"), "close")) mc::violate("connection-header", "an error response after which the connection is closed says '" + r.get("connection") + "'"); }
			std::string x = c.drain(60000); if (!x.empty()) mc::violate("data-after-close", mc::show(x));
		} else {
			// the connection must still be open and able to serve
			sched::sleep_ms(100); if (net::server_closed(c.c)) mc::violate("keepalive-broken", "the connection was closed although the last response said keep-alive");
			qs.push_back({"-", "-", 0}); c.send(wire(qs.back())); Resp r; if (!c.next(r)) mc::violate("keepalive-broken", "the connection does not serve another request");
		}
		mc::outcome(mc::mix(i, closed * 3 + tail)); mc::nontrivial(); c.close();
	});
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C04";
	cfg.rule = "all sequences of 2 (thorough 3) requests over client connection headers x handler connection headers x kind of reply (normal, throw, none, POST, HEAD, 204, header repeated in the request or by the handler), connection reuse on or off, sequential or pipelined, followed by nothing, malformed bytes or an oversized request; histories of 150 requests";
	std::vector<mc::Scenario> sc; bool th = mc::thorough();
	static const std::vector<std::string> C = {"-", "keep-alive", "Keep-Alive", "close", "Close", "CLOSE", "keep-alive, close", "close, TE", "Upgrade", "keep-alive, Upgrade"};
	static const std::vector<std::string> HC = {"-", "close", "Close", "keep-alive", "Keep-Alive", "close, x-foo", "TE, Close", "Keep-Alive, x-foo"}, HC2 = {"-", "Close", "keep-alive", "x-foo, close"};
	for (size_t a = 0; a < C.size(); a++) for (size_t b = 0; b < HC.size(); b++) {
		sc.push_back({"pair." + std::to_string(a) + "." + std::to_string(b), 0, [a, b] {
			Q q{C[a], HC[b], mc::choose(9)}; Q r{seq::pick(C), seq::pick(HC2), 0}; r.how = mc::choose(5); if (r.how > 2) r.how += 3; bool reuse = mc::choose(2) == 0, p = mc::choose(2); int t = mc::choose(3); drive({q, r}, reuse, p, t);
		}});
		if (th) sc.push_back({"triple." + std::to_string(a) + "." + std::to_string(b), 0, [a, b] {
			Q q{C[a], HC[b], mc::choose(3)}; Q r{seq::pick(C), seq::pick(HC2), mc::choose(2) * 3}; Q s{seq::pick(C), seq::pick(HC2), mc::choose(2)}; drive({q, r, s}, true, mc::choose(2), mc::choose(2));
		}});
	}
	sc.push_back({"long-history", 0, [] { // connections stay usable for long, and end when they say so
		static const std::vector<std::string> KA = {"-", "keep-alive", "Keep-Alive", "keep-alive, Upgrade"}; int n = 150 + mc::choose(3), last = mc::choose(4); bool p = mc::choose(2); int off = mc::choose(4), hows = mc::choose(2); std::vector<Q> v;
		for (int i = 0; i < n; i++) v.push_back(Q{KA[(i + off) % 4], i % 3 == 1 ? "keep-alive" : "-", hows ? (i % 4 == 3 ? 3 : i % 4 == 2 ? 4 : 0) : 0}); if (last == 1) v.push_back(Q{"close", "-", 0}); if (last == 2) v.push_back(Q{"-", "close", 0}); drive(v, true, p, last == 3 ? 1 : 0);
	}});
	both_modes(sc, {"pair.0.", "pair.3.", "pair.6.", "long-history"});
	return mc::run(argc, argv, cfg, sc);
}
