// C40: the handler, the response and the log name the same connection, peer and request
#include "ws_common.hpp"
#include <set>
using namespace wsx;

struct Seen { std::string ctx, req, host; int port = 0; bool tcp = false; int hostPort = 0; uint32_t rx = 0, tx = 0; };
static std::vector<Seen> seen; static std::vector<int> plan; static std::string g_out;
enum { FINE, CODE, THROW, THROWINT, NONE, BADWS, WS, SSE_, NKINDS };
static const char* BOOM = "the boom of it";
static int codeof(int k, const std::string& m) { if (k == BADWS && m != "GET") return 405; return k == CODE ? 404 : k == FINE ? 200 : k == BADWS ? 400 : 500; }
static std::string cp(const std::string& s) { Rt g; return std::string(s.data(), s.size()); }
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		int k; { Rt g; auto& c = ctx.conninfo; seen.push_back({cp(ctx.contextID), cp(ctx.requestID), cp(c.remoteAddr.hostname), c.remoteAddr.port, c.remoteAddr.transport == Network::ConnectionTransport::TCP, c.hostPort, c.timeouts.receive, c.timeouts.send}); k = plan.at(seen.size() - 1); }
		switch (k) {
			case CODE: return HTTP::Response(404, "nope"); case THROW: throw std::runtime_error(BOOM); case THROWINT: throw 7; case NONE: return {};
			case BADWS: { auto ws = ctx.upgrateToWebsocket(); return {}; } case WS: { auto ws = ctx.upgrateToWebsocket(); return {}; } case SSE_: { auto w = ctx.startEventStream(); SSE::EventMessage m; m.data = "x"; w.push(m); return {}; }
		}
		return HTTP::Response(200, "fine");
	};
}
static bool hex8(const std::string& s) { if (s.size() != 8) return false; for (char c : s) if (!(isdigit((unsigned char)c) || (c >= 'a' && c <= 'f'))) return false; return true; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { mc::violate("log", "the log does not end with a whole line: " + mc::show(s.substr(p))); } r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
static bool has(const std::string& l, const std::string& t) { return l.find(t) != std::string::npos; }
static bool word(const std::string& l, const std::string& t) { return (" " + l + " ").find(" " + t + " ") != std::string::npos; }
struct Peer { uint32_t ip; const char* text; int port; };
static const std::vector<Peer> PEERS = {{0x7f000001, "127.0.0.1", 40000}, {0x0a000001, "10.0.0.1", 1}, {0xfffefdfc, "255.254.253.252", 65535}, {0xc0a80164, "192.168.1.100", 8080}, {0x7fffffff, "127.255.255.255", 443}, {0x01020304, "1.2.3.4", 256}};
struct Shot { int conn, kind; std::string method, path; };
static void drive(const std::vector<Shot>& shots, const std::vector<Peer>& peers, bool requests, bool events, bool start, uint32_t rx = 15000, uint32_t tx = 15000, int port = 8180) {
	seen.clear(); plan.clear(); g_out.clear(); for (auto& s : shots) plan.push_back(s.kind); net::reset(); sched::capture_output(&g_out);
	std::vector<std::string> xid; size_t ncon = peers.size();
	sched::run(quiet(), [&] {
		Rt g; auto cfg = config(); cfg.loglevel.requests = requests; cfg.loglevel.transportEvents = events; cfg.loglevel.startMessage = start; cfg.service.port = port; cfg.service.connectionTimeouts.receive = rx; cfg.service.connectionTimeouts.send = tx;
		Server srv(handler(), cfg); std::vector<std::unique_ptr<Client>> c; for (size_t i = 0; i < ncon; i++) { auto& p = peers[i]; bool used = false; for (auto& s : shots) used = used || s.conn == (int)i; c.push_back(nullptr); if (!used) continue; net::opt.peer_ip = p.ip; net::opt.peer_port = p.port; c.back() = std::make_unique<Client>(port); }
		for (auto& s : shots) {
			auto& k = *c[s.conn]; std::string up = s.kind == WS ? "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + std::string(KEY) + "\r\nSec-WebSocket-Version: 13\r\n" : "";
			k.send(s.method + " " + s.path + "?q=1 HTTP/1.1\r\nHost: h\r\n" + up + "\r\n");
			if (s.kind == SSE_) { sched::sleep_ms(400); std::string a = net::peek(k.c); size_t p = seq::lower(a).find("x-request-id: "); xid.push_back(p == std::string::npos ? "" : a.substr(p + 14, a.find("\r\n", p) - p - 14)); continue; }
			Resp r; if (!k.next(r, s.method == "HEAD", 5000)) mc::violate("no-response", "no response"); int want = s.kind == WS ? 101 : codeof(s.kind, s.method);
			if (r.status != want) mc::violate("wrong-response", "status " + std::to_string(r.status) + " instead of " + std::to_string(want)); xid.push_back(r.get("x-request-id")); if (r.all("x-request-id").size() != 1) mc::violate("request-id", "the response carries " + std::to_string(r.all("x-request-id").size()) + " request ids");
		}
		for (auto& k : c) if (k) k->close(); sched::sleep_ms(3000);
	});
	sched::capture_output(nullptr); net::check_closed();
	if (seen.size() != shots.size()) mc::violate("calls", std::to_string(seen.size()) + " handler calls for " + std::to_string(shots.size()) + " requests");
	std::vector<std::string> ctx(ncon); std::set<std::string> reqs;
	for (size_t i = 0; i < shots.size(); i++) {
		auto& s = seen[i]; auto& p = peers[shots[i].conn];
		if (!hex8(s.ctx) || !hex8(s.req)) mc::violate("id-form", "identifiers " + mc::show(s.ctx) + " and " + mc::show(s.req) + " are not 8 hex digits");
		if (s.host != p.text || s.port != p.port || !s.tcp || s.hostPort != port) mc::violate("peer", "the handler was told " + s.host + ":" + std::to_string(s.port) + " on port " + std::to_string(s.hostPort) + " for a client at " + p.text + ":" + std::to_string(p.port) + " connected to port " + std::to_string(port));
		if (s.rx != rx || s.tx != tx) mc::violate("timeouts", "the handler was told timeouts " + std::to_string(s.rx) + "/" + std::to_string(s.tx) + " instead of " + std::to_string(rx) + "/" + std::to_string(tx));
		if (!ctx[shots[i].conn].empty() && ctx[shots[i].conn] != s.ctx) mc::violate("context-id", "the connection identifier changed from " + ctx[shots[i].conn] + " to " + s.ctx + " inside one connection");
		ctx[shots[i].conn] = s.ctx; if (!reqs.insert(s.req).second) mc::violate("request-id", "two requests got the identifier " + s.req);
		if (xid[i] != s.ctx + "-" + s.req) mc::violate("request-id", "the response says x-request-id " + mc::show(xid[i]) + " for connection " + s.ctx + " and request " + s.req);
		mc::step(mc::mix(mc::path_hash(), i));
	}
	for (size_t i = 0; i < ncon; i++) for (size_t j = 0; j < i; j++) if (!ctx[i].empty() && ctx[i] == ctx[j]) mc::violate("context-id", "two connections have the identifier " + ctx[i]);
	// the log
	auto L = lines(g_out); size_t left = L.size(); std::string all = mc::show(g_out, 900);
	auto expect = [&](const std::vector<std::string>& tokens, const char* what) { size_t n = 0; for (auto& l : L) { bool ok = true; for (auto& t : tokens) ok = ok && (t[0] == '=' ? word(l, t.substr(1)) : has(l, t)); n += ok; } std::string t; for (auto& x : tokens) t += x + " "; if (n != 1) mc::violate("log", std::to_string(n) + " log lines say " + std::string(what) + " (" + t + "); log: " + all); left--; };
	for (size_t i = 0; i < shots.size(); i++) {
		auto& s = seen[i]; auto& k = shots[i]; std::string who = events ? s.ctx : s.host; size_t mine = 0; for (auto& l : L) mine += has(l, s.req);
		size_t want = !requests ? 0 : k.kind == THROW || k.kind == THROWINT || k.kind == BADWS ? 2 : 1; if (requests && k.kind == BADWS && mine == 3) { want = 3; left--; } // the attempt may be a line of its own
		if (mine != want) mc::violate("log", std::to_string(mine) + " log lines mention request " + s.req + " instead of " + std::to_string(want) + "; log: " + all);
		if (!requests) continue;
		if (k.kind == WS) expect({s.req, who, "=" + k.method, "=" + k.path, "ebsocket"}, "upgraded"); else if (k.kind == SSE_) expect({s.req, who, "=" + k.method, "=" + k.path, "SSE"}, "event stream");
		else expect({s.req, who, "=" + k.method, "=" + k.path, "=" + std::to_string(codeof(k.kind, k.method))}, "answered");
		if (k.kind == THROW) expect({s.req, BOOM}, "handler failed"); if (k.kind == THROWINT || k.kind == BADWS) left--;
	}
	size_t tl = 0; // lines about transports: only where switched on, naming the peer
	for (size_t i = 0; i < ncon; i++) if (!ctx[i].empty()) { size_t n = 0, about = 0; bool usedctx = events; (void)usedctx; for (auto& l : L) { bool rq = false; for (auto& s : seen) rq = rq || has(l, s.req); if (rq) continue; if (has(l, ctx[i])) { about++; if (has(l, peers[i].text)) n++; } } if (n != about) mc::violate("log", "a transport line does not name its peer: " + all); if (events && about != 2) mc::violate("log", std::to_string(about) + " lines about connection " + ctx[i] + " instead of one for its start and one for its end: " + all); if (!events && !requests && about) mc::violate("log", "a connection is logged although that is off: " + all); tl += about; }
	left -= tl; size_t st = 0; for (auto& l : L) st += has(l, "localhost:" + std::to_string(port)); if (st != (start ? 1u : 0u)) mc::violate("log", std::to_string(st) + " start messages: " + all);
	if (left != st) mc::violate("log", std::to_string(left) + " other log lines: " + all);
	mc::outcome(mc::mix(shots.size(), L.size())); mc::nontrivial(); if (mc::tracing()) mc::note(all);
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C40"; bool th = mc::thorough();
	cfg.rule = "every pair of handler outcomes (answer, error status, exception, other exception, no answer, refused and accepted upgrade, event stream) x methods x paths x all eight log settings; all assignments of 4 (thorough 5) requests to 3 connections; every peer address and port of a boundary set x listening ports x timeout settings; malformed and cut requests x log settings; histories of up to 300 requests on one connection and 60 connections";
	cfg.assumptions = {"identifiers are random 31-bit numbers: an accidental coincidence inside one execution (below 10^-5) would be re-examined by the confirmation run", "the form of a log line is free as long as it holds the request id, the peer or connection id, method, path and status"};
	std::vector<mc::Scenario> sc;
	static const std::vector<std::string> M = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"}, P = {"/", "/a", "/some/long/path.html", "/%20x", "/a;b=c,d", "/UPPER/~user"};
	sc.push_back({"outcomes", 0, [] { int f = mc::choose(8), a = mc::choose(6), b = mc::choose(NKINDS); auto& m = M[mc::choose(7)]; auto& p = P[mc::choose(6)]; std::vector<Shot> s{{0, a, "GET", "/first"}}; int c2 = a == BADWS ? 1 : 0; s.push_back({c2, b, b == WS ? "GET" : m, p}); if (b == SSE_ && m == "HEAD") return; drive(s, {PEERS[3], PEERS[1]}, f & 1, f & 2, f & 4); }});
	sc.push_back({"assign", 0, [th] { int n = th ? 5 : 4; std::vector<Shot> s; for (int i = 0; i < n; i++) s.push_back({mc::choose(3), i == 1 ? THROW : FINE, M[i], P[i]}); int f = mc::choose(4); drive(s, {PEERS[0], PEERS[1], PEERS[2]}, f & 1, f & 2, false); }});
	sc.push_back({"peers", 0, [] { Peer a = seq::pick(PEERS); static const std::vector<int> PT = {1, 80, 255, 256, 8180, 32767, 32768, 49152, 65535}, LP = {80, 8180, 65535}; static const std::vector<uint32_t> T = {1, 250, 1000, 15000, 3600000}; a.port = seq::pick(PT); int lp = seq::pick(LP); uint32_t rx = seq::pick(T), tx = seq::pick(T); if (rx < 100) rx = 400; int f = mc::choose(2) * 3; drive({{0, FINE, "GET", "/"}, {0, CODE, "GET", "/x"}, {1, FINE, "GET", "/y"}}, {a, PEERS[5]}, f & 1, f & 2, false, rx, tx, lp); }});
	sc.push_back({"broken", 0, [] { // requests that never reach the handler
		static const std::vector<std::string> W = {"", "GET", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nbad header\r\n\r\n", "junk\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"};
		int f = mc::choose(8), w = mc::choose(8), how = mc::choose(2); seen.clear(); plan = {FINE}; g_out.clear(); net::reset(); sched::capture_output(&g_out); bool first = mc::choose(2);
		sched::run(quiet(), [&] { Rt g; auto c0 = config(); c0.loglevel.requests = f & 1; c0.loglevel.transportEvents = f & 2; c0.loglevel.startMessage = f & 4; Server srv(handler(), c0); net::opt.peer_ip = PEERS[3].ip; net::opt.peer_port = 777; Client c; if (first) { c.send("GET /ok HTTP/1.1\r\nHost: h\r\n\r\n"); Resp r; if (!c.next(r) || r.status != 200) mc::violate("no-response", "no response"); } c.send(W[w]); if (how) c.fin(); else if (w < 3 || w == 6) net::rst(c.c); c.drain(40000); c.close(); sched::sleep_ms(2000); });
		sched::capture_output(nullptr); net::check_closed(); auto L = lines(g_out); std::string all = mc::show(g_out, 600); size_t rq = 0, tr = 0, st = 0, other = 0; std::string id; if (first) id = seen.at(0).req;
		for (auto& l : L) { if (!id.empty() && has(l, id)) rq++; else if (has(l, "localhost:8180")) st++; else if (has(l, PEERS[3].text)) tr++; else other++; }
		if (rq != (first && (f & 1) ? 1u : 0u) || st != (f & 4 ? 1u : 0u) || other) mc::violate("log", "log of a connection with " + mc::show(W[w]) + ": " + all);
		if (!(f & 3) && tr) mc::violate("log", "a connection is logged although that is off: " + all); if ((f & 2) && tr != 2) mc::violate("log", std::to_string(tr) + " lines about a connection instead of one for its start and one for its end: " + all); if (!(f & 2) && tr > 1) mc::violate("log", "several lines about one failed connection: " + all);
		if ((f & 1) && w >= 3 && w != 6 && tr < 1) mc::violate("log", "a protocol error was not logged: " + all); if (seen.size() != (first ? 1u : 0u)) mc::violate("calls", "a broken request reached the handler"); mc::outcome(mc::mix(f, mc::mix(w, tr))); mc::step(mc::path_hash()); mc::nontrivial();
	}});
	sc.push_back({"many", 0, [] { int k = mc::choose(2), f = mc::choose(4); std::vector<Shot> s; std::vector<Peer> pe; if (!k) { pe = {PEERS[1]}; for (int i = 0; i < 300; i++) s.push_back({0, i % 7 == 3 ? THROW : i % 5 == 2 ? CODE : FINE, M[i % 7], "/r" + std::to_string(i) + "/"}); } else for (int i = 0; i < 45; i++) { static std::vector<std::string> t; if (t.size() < 45) { t.reserve(45); t.push_back("10.1.0." + std::to_string(i)); } pe.push_back({0x0a010000u + i, t[i].c_str(), 5000 + i}); s.push_back({i, FINE, "GET", "/c" + std::to_string(i) + "/"}); } drive(s, pe, f & 1, f & 2, false); }});
	both_modes(sc, {""});
	return mc::run(argc, argv, cfg, sc);
}
