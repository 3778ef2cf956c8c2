// C44: connections and server instances do not affect each other
#include "ws_common.hpp"
#include "fresh.hpp"
#include <core/sse/sse.hpp>
using namespace wsx;
static std::string cp(const std::string& s) { Rt g; return std::string(s.data(), s.size()); }
static RequestCallback handler(char id) {
	return [id](const HTTP::Request& q, const RequestContext& ctx) -> HandlerResponse {
		auto& p = q.url.pathname;
		if (p == "/throw") throw std::runtime_error(std::string("handler ") + id + " failed"); if (p == "/int") throw 7; if (p == "/none") return {};
		if (p == "/sleep") { Rt g; sched::sleep_ms(30); }
		if (p == "/ws") { auto ws = ctx.upgrateToWebsocket(); int n = 0; while (ws.awaitMessage()) { auto m = ws.nextMessage(); ws.sendMessage(Websocket::Message(id + std::to_string(++n) + ":" + std::string(m.data.begin(), m.data.end()))); } return {}; }
		if (p == "/sse") { auto w = ctx.startEventStream(); for (int i = 0; i < 3; i++) { SSE::EventMessage m; m.data = id + std::to_string(i); w.push(m); { Rt g; sched::sleep_ms(25); } } w.close(); return {}; }
		std::string b; b += id; b += " " + cp(q.method) + " " + p + " from " + std::to_string(ctx.conninfo.remoteAddr.port) + " on " + std::to_string(ctx.conninfo.hostPort) + " user " + q.url.username + " q " + q.url.searchParams.get("q") + " c " + q.getCookies().get("c") + " x " + q.headers.get("x-mine") + " body " + q.body.text() + std::string(300, '.');
		HTTP::Response r(200, b); auto c = q.getCookies(); if (p == "/cookie") { c.set("got", std::string(1, id)); r.setCookies(c); } if (p == "/empty") r.body = std::string(); return r;
	};
}
static ServerConfig conf(char id) {
	auto c = config(); c.service.useThreadList = !detached;
	if (id == 'A') { c.errorResponseType = ErrorResponseType::HTML; c.transport.maxRequestSize = 5000; c.service.port = 8180; }
	if (id == 'B') { c.errorResponseType = ErrorResponseType::JSON; c.transport.maxRequestSize = 300; c.transport.useCompression = false; c.transport.reuseConnections = false; c.service.port = 8190; c.service.maxConnections = 60; }
	if (id == 'C') { c.errorResponseType = ErrorResponseType::Plain; c.transport.maxRequestSize = 200; c.transport.useCompression = false; c.service.port = 8200; c.service.connectionTimeouts = {300, 300}; }
	if (id == 'D') { c.errorResponseType = ErrorResponseType::Plain; c.service.port = 8200; c.transport.reuseConnections = false; }
	return c;
}
// a client's script: what it sends step by step; "!rst", "!fin" and "!close" are actions
typedef std::vector<std::string> Script;
static const std::vector<Script>& scripts() {
	static const Mask m = {1, 2, 3, 4}, n = {9, 8, 7, 6}; static const std::string H = " HTTP/1.1\r\nHost: h\r\n";
	static const std::vector<Script> S = {
		{"GET /a HT", "TP/1.1\r\nHost: h\r\nX-Mine: one\r\n\r\nGET /b?q=2" + H.substr(0, 14), "t: h\r\n\r\n"},
		{"POST /p" + H + "Content-Length: 10\r\nAccept-Encoding: gzip\r\n\r\n01234", "56789", "GET /after" + H + "Connection: close\r\n\r\n"},
		{"GET / HT", "TP/1.1\r\nno separator\r\n\r\n", "GET /x" + H + "\r\n"},
		{"GET /throw" + H + "Accept-En", "coding: br\r\n\r\n", "GET /next" + H + "X-Mine: t\r\n\r\n"},
		{upgrade(), frame(0x81, "hello", &m) + frame(0x01, "par", &n) + frame(0x80, "ted", &m).substr(0, 3), frame(0x80, "ted", &m).substr(3) + frame(0x88, std::string("\x03\xe8", 2), &m)},
		{"GET /sse" + H, "\r\n", "!fin"},
		{"POST /p" + H + "Content-Length: 1000\r\n\r\n" + std::string(500, 'u'), std::string(499, 'v') + "w", "GET /z" + H + "\r\n"},
		{"HEAD /h" + H + "Authorization: Basic dXNlcjpw", "YXNz\r\nCookie: c=1\r\nAccept-Encoding: deflate\r\n\r\n", "GET /cookie" + H + "Cookie: c=2\r\nAuthorization: Basic YTpi\r\n\r\n"},
		{"GET /sleep" + H + "\r\n", "GET /empty" + H + "\r\nGET /", "!rst"},
		{"GET /int" + H + "Accept-Encoding: br, gzip\r\n\r\n", "GET /none" + H + "\r\n", "!close"},
		{upgrade() , "\x81\x05nomsk", frame(0x81, "after", &m)},
		{"GET /br" + H + "Accept-Encoding: br\r\n\r\n", "GET /plain" + H + "\r\n", "GET /gz" + H + "Accept-Encoding: gzip\r\nConnection: close\r\n\r\n"},
	};
	return S;
}
struct Who { int script; char inst; };
// what a client received; identifiers and times masked
static std::string transcript(Client& c) {
	std::string s = net::sent(c.c), l = seq::lower(s); for (const char* h : {"x-request-id: ", "date: "}) { size_t p = 0; while ((p = l.find(h, p)) != std::string::npos) { p += strlen(h); size_t e = l.find("\r\n", p); if (e == std::string::npos) e = l.size(); s.replace(p, e - p, "*"); l.replace(p, e - p, "*"); } }
	size_t p = 0; while ((p = s.find("\"request_id\":\"", p)) != std::string::npos) { p += 14; size_t e = s.find('"', p); if (e == std::string::npos) break; s.replace(p, e - p, "*"); }
	return s + (net::server_closed(c.c) ? "|closed" : "|open");
}
static void step(Client& c, const std::string& s) { if (s == "!rst") net::rst(c.c); else if (s == "!fin") c.fin(); else if (s == "!close") c.close(); else c.send(s); sched::sleep_ms(20); }
// other: what else happens: 0 nothing, 1 another server comes, serves and goes, 2 a server is replaced by a differently configured one, 3 server B stops
static const int ACTS = 4; static const int ACTSTEPS[] = {0, 3, 3, 1};
static std::vector<std::string> play(const std::vector<Who>& who, const std::vector<int>& order, int act) {
	net::reset(); services = 0; std::vector<std::string> out;
	sched::run(quiet(), [&] { Rt g;
		auto mk = [](char id) { return std::make_unique<Server>(handler(id), conf(id)); };
		auto drop = [](std::unique_ptr<Server>& s) { if (!s) return; if (!s->awaited) services--; s->awaited = true; { Lib l; s->inst.reset(); } s.reset(); };
		auto a = mk('A'), b = mk('B'); std::unique_ptr<Server> c; if (act == 2) c = mk('C');
		std::vector<std::unique_ptr<Client>> k; std::vector<size_t> at(who.size()); int acted = 0;
		for (size_t i = 0; i < who.size(); i++) { net::opt.peer_port = 1000 + i; net::opt.peer_ip = 0x0a000001 + i; k.push_back(std::make_unique<Client>(who[i].inst == 'A' ? 8180 : 8190)); }
		auto other = [&] {
			auto ask = [&](const char* want) { net::opt.peer_port = 99; Client x(8200); x.send("POST /c HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\nConnection: close\r\n\r\nabc"); Resp r; if (!x.next(r, false, 3000) || r.status != 200 || r.body.rfind(want, 0)) mc::violate("wrong-response", "another server answered " + mc::show(r.body, 60)); x.close(); net::wait_closed(x.c, 1000); sched::sleep_ms(20); };
			int s = acted++;
			if (act == 1) { if (s == 0) c = mk('C'); if (s == 1) ask("C POST /c"); if (s == 2) drop(c); }
			if (act == 2) { if (s == 0) ask("C POST /c"); if (s == 1) { drop(c); c = mk('D'); } if (s == 2) ask("D POST /c"); }
			if (act == 3) drop(b);
			sched::sleep_ms(20);
		};
		for (int i : order) { if (i == (int)who.size()) other(); else { step(*k[i], scripts()[who[i].script][at[i]++]); } }
		sched::sleep_ms(400);
		for (auto& x : k) out.push_back(transcript(*x));
		for (auto& x : k) x->close();
		for (auto& x : k) if (!net::wait_closed(x->c, 60000)) mc::violate("not-closed", "a connection is still open long after its client left");
		sched::sleep_ms(50); drop(c); drop(b); drop(a);
	});
	net::check_closed(); return out;
}
// the reference comes from a process in which nothing else has happened
struct Ask { int script, i; char inst; bool det; };
static std::string first(const Ask& q) {
	detached = q.det; net::reset(); services = 0; std::string out;
	sched::run(quiet(), [&] { Rt g; std::unique_ptr<Server> s = std::make_unique<Server>(handler(q.inst), conf(q.inst)); net::opt.peer_port = 1000 + q.i; net::opt.peer_ip = 0x0a000001 + q.i; Client c(q.inst == 'A' ? 8180 : 8190); for (auto& x : scripts()[q.script]) step(c, x); sched::sleep_ms(400); out = transcript(c); c.close(); net::wait_closed(c.c, 60000); sched::sleep_ms(50); });
	return out;
}
static std::map<std::string, std::string> ref;
static std::string alone(const Who& w, size_t i) {
	std::string key = std::to_string(w.script) + w.inst + std::to_string(i) + (detached ? "d" : ""); auto it = ref.find(key); if (it != ref.end()) return it->second;
	return ref[key] = fresh::ask(Ask{w.script, (int)i, w.inst, detached});
}
static void check(const std::vector<Who>& who, int act) {
	std::vector<std::string> want; for (size_t i = 0; i < who.size(); i++) want.push_back(alone(who[i], i));
	std::vector<int> left; for (auto& w : who) left.push_back(scripts()[w.script].size()); left.push_back(ACTSTEPS[act]); std::vector<int> order;
	while (true) { std::vector<int> c; for (size_t i = 0; i < left.size(); i++) if (left[i]) c.push_back(i); if (c.empty()) break; int i = c[mc::choose(c.size())]; order.push_back(i); left[i]--; }
	auto got = play(who, order, act); uint64_t h = 0;
	for (size_t i = 0; i < who.size(); i++) { h = mc::mix(h, mc::hash_str(got[i])); if (got[i] != want[i]) {
		std::string o; for (int x : order) o += std::to_string(x); size_t d = 0; while (d < got[i].size() && d < want[i].size() && got[i][d] == want[i][d]) d++; d = d > 60 ? d - 60 : 0;
		std::string ws; for (auto& w : who) ws += std::string(" ") + std::to_string(w.script) + w.inst; mc::violate("interference", "client " + std::to_string(i) + " (clients" + ws + ", order " + o + (act ? ", other event " + std::to_string(act) : "") + ") got ..." + mc::show(got[i].substr(d), 160) + " but alone it gets ..." + mc::show(want[i].substr(d), 160)); } }
	mc::outcome(h); mc::step(mc::path_hash()); mc::nontrivial();
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C44"; bool th = mc::thorough();
	cfg.rule = "12 client scripts of three steps each (pipelined, split, oversized and malformed requests, failing handlers, codings, credentials and cookies, event streams, WebSocket sessions, resets) on two servers with different limits, error formats, compression and reuse settings: every pair of scripts, assignment to servers and order of their steps; every triple of 3 (thorough 9) scripts in every order; every script and 2 others (thorough all) in every order together with a third server that comes and goes, one that is replaced by another on the same port, or the other server stopping; each client's bytes are compared with what it gets alone in a process of its own; in both thread modes";
	cfg.assumptions = {"what a client alone receives is judged by the other properties; identifiers and dates are masked"};
	cfg.worker_init = [] { fresh::init(first); };
	std::vector<mc::Scenario> sc; const int N = scripts().size();
	for (int a = 0; a < N; a++) sc.push_back({"pair." + std::to_string(a), 0, [=] { int b = mc::choose(N); check({{a, "AB"[mc::choose(2)]}, {b, "AB"[mc::choose(2)]}}, 0); }});
	static const std::vector<int> Q = {0, 3, 4}, T = {0, 1, 2, 3, 4, 5, 6, 8, 9};
	for (size_t a = 0; a < (th ? T : Q).size(); a++) sc.push_back({"triple." + std::to_string(a), 0, [=] { auto& s = th ? T : Q; check({{s[a], 'A'}, {s[mc::choose(s.size())], "AB"[mc::choose(th ? 2 : 1)]}, {s[mc::choose(s.size())], th ? 'A' : 'B'}}, 0); }});
	for (int act = 1; act < ACTS; act++) for (int a = 0; a < N; a++) sc.push_back({"event." + std::to_string(act) + "." + std::to_string(a), 0, [=] {
		int b = th || act == 3 ? mc::choose(N) : (int[]){3, 7}[mc::choose(2)]; check({{a, 'A'}, {b, act == 3 ? 'A' : 'B'}}, act); }});
	for (int a = 0; a < N; a++) sc.push_back({"crowd." + std::to_string(a), 0, [=] { // many of them at once
		int n = (int[]){5, 20, 45}[mc::choose(3)], st = 1 + mc::choose(5), rev = mc::choose(3); std::vector<Who> w; for (int i = 0; i < n; i++) w.push_back({(a + i * st) % N, i % 3 == 1 ? 'B' : 'A'}); std::vector<int> o; for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) o.push_back(rev == 1 ? n - 1 - i : rev == 2 && k == 1 ? (i * 7 + 3) % n : i); if (rev == 2 && n % 7 == 0) return;
		std::vector<std::string> want; for (int i = 0; i < n; i++) want.push_back(alone(w[i], i)); auto got = play(w, o, 0); for (int i = 0; i < n; i++) if (got[i] != want[i]) mc::violate("interference", "client " + std::to_string(i) + " of " + std::to_string(n) + " (script " + std::to_string(w[i].script) + ") got " + mc::show(got[i], 200) + " but alone it gets " + mc::show(want[i], 200)); mc::step(mc::path_hash()); mc::nontrivial(); }});
	both_modes(sc, {"pair", "event.3", "crowd"});
	return mc::run(argc, argv, cfg, sc);
}
