// C07: network faults never corrupt a response or take the server down
#include "http_common.hpp"
using namespace hc;

static std::vector<std::string> seen; // "conn-tag|path|body" of every handler call
static std::string big;
static RequestCallback handler() {
	return [](const HTTP::Request& r, const RequestContext&) -> HandlerResponse {
		std::string p; { Rt g; auto& b = r.body.buffer(); seen.push_back(r.headers.get("x-tag") + "|" + r.url.pathname + "|" + std::string(b.begin(), b.end())); p = r.url.pathname; }
		if (p == "/throw") throw std::runtime_error("oops");
		HTTP::Response o(HTTP::Status(200)); o.headers.set("content-type", "image/x");
		if (p != "/empty") o.body = (p == "/big" ? big : "small:" + p); return o;
	};
}
struct Plan { std::vector<std::string> segs; std::vector<std::string> calls; int end = 0; /*0 normal,1 client closes right after sending,2 resets after sending,3 resets after the first bytes arrived, 4 half close*/ };
static std::string get(const std::string& tag, const std::string& p) { return "GET " + p + " HTTP/1.1\r\nX-Tag: " + tag + "\r\n\r\n"; }
static std::string post(const std::string& tag, const std::string& p, const std::string& b) { return "POST " + p + " HTTP/1.1\r\nX-Tag: " + tag + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
// values that differ from run to run are blanked
static std::string mask(std::string s) {
	for (const char* h : {"x-request-id: ", "date: "}) { size_t p = 0; std::string l = seq::lower(s); while ((p = l.find(std::string("\r\n") + h, p)) != std::string::npos) { p += 2 + strlen(h); while (p < s.size() && s[p] != '\r') s[p++] = '#'; } }
	return s;
}
struct Out { std::string data; bool closed = false; };
static std::vector<Out> execute(const std::vector<Plan>& plans, const net::Faults& f, bool together) {
	std::vector<Out> res(plans.size()); seen.clear();
	world(quiet(), [&] {
		Rt g; auto cfg = config(); Server srv(handler(), cfg); net::opt.faults = f;
		auto one = [&](size_t i) {
			const Plan& p = plans[i]; Client c; for (auto& s : p.segs) c.send(s);
			if (p.end == 1) { c.close(); net::wait_closed(c.c, 120000); res[i].data = net::sent(c.c); }
			else if (p.end == 2) { net::rst(c.c); net::wait_closed(c.c, 120000); res[i].data = net::sent(c.c); }
			else if (p.end == 3) { std::string s = net::recv(c.c, 120000); net::rst(c.c); net::wait_closed(c.c, 120000); res[i].data = net::sent(c.c); }
			else { if (p.end == 4) c.fin(); res[i].data = c.drain(120000); }
			res[i].closed = net::wait_closed(c.c, 120000) || !net::was_accepted(c.c); c.close();
		};
		if (together) { std::vector<int> t; for (size_t i = 0; i < plans.size(); i++) t.push_back(sched::spawn("client", [&, i] { one(i); })); for (int x : t) sched::join(x); }
		else for (size_t i = 0; i < plans.size(); i++) one(i);
		net::opt.faults = net::Faults();
		bool ok = false; for (int i = 0; i < 3 && !ok; i++) { Client k; if (k.c < 0) break; k.send(get("canary", "/canary")); Resp r; ok = k.next(r, false, 60000) && r.status == 200 && r.body == "small:/canary"; k.close(); } // a pending accept may still fail once
		if (!ok) mc::violate("service-down", "new connections are not served after the faults");
	});
	return res;
}
static bool fatal(const std::string& w) { return w != "partial send" && w != "send interrupted" && w != "short receive" && w != "receive interrupted" && w != "accept failure"; }
static void drive(const std::vector<Plan>& plans, const net::Faults& f, bool together = false) {
	auto ref = execute(plans, net::Faults(), together); auto refseen = seen;
	auto got = execute(plans, f, together); auto inj = net::injected();
	std::string what; for (auto& x : inj) what += x.what + "@" + std::to_string(x.conn) + " ";
	for (size_t i = 0; i < plans.size(); i++) {
		bool hard = plans[i].end == 1 || plans[i].end == 2 || plans[i].end == 3; for (auto& x : inj) if ((fatal(x.what) && x.conn == (int)i) || x.what == "accept failure") hard |= x.what != "accept failure" || got[i].data.empty();
		std::string a = mask(ref[i].data), b = mask(got[i].data);
		auto bad = [&](const char* k, const std::string& m) { mc::violate(k, "client " + std::to_string(i) + " after " + (what.empty() ? "no fault" : what) + ": " + m); };
		if (b.size() > a.size() || a.compare(0, b.size(), b) != 0) {
			// a prefix cut inside a blanked value is compared up to there
			size_t n = 0; while (n < a.size() && n < b.size() && a[n] == b[n]) n++;
			bool inside = n < b.size() && b.size() <= a.size() && a[n] == '#'; std::string l = seq::lower(got[i].data); size_t h = l.rfind("\r\n");
			if (!(inside && h != std::string::npos && h < n)) bad("corrupt-stream", "received " + mc::show(b.substr(n > 20 ? n - 20 : 0), 80) + " where " + mc::show(a.substr(n > 20 ? n - 20 : 0), 80) + " was expected");
		}
		if (!hard && b != a) bad("incomplete", "only " + std::to_string(b.size()) + " of " + std::to_string(a.size()) + " bytes arrived although nothing fatal happened");
		if (!got[i].closed) bad("not-closed", "the connection was never closed");
		// handler calls of this connection are a prefix of those without faults
		std::vector<std::string> x, y; std::string tag = std::string(1, 'A' + i) + "|"; for (auto& s : refseen) if (s.compare(0, 2, tag) == 0) x.push_back(s); for (auto& s : seen) if (s.compare(0, 2, tag) == 0) y.push_back(s);
		if (plans[i].end == 0 || plans[i].end == 4) { if (y.size() > x.size() || !std::equal(y.begin(), y.end(), x.begin())) bad("wrong-request", "the handler saw requests that were not sent"); if (!hard && y.size() != x.size()) bad("lost-request", "requests were lost"); }
		mc::outcome(mc::mix(b.size(), i)); mc::step(mc::mix(mc::path_hash(), i));
	}
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C07"; cfg.level = "fault_enumeration"; bool th = mc::thorough(); big = seq::pattern(5000, 1);
	cfg.rule = "every placement of up to 2 (thorough 3) socket faults (partial send of 1 byte or half, interrupted send or receive, 1-byte receive, reset, broken pipe, time-out or unreachable network while sending or receiving, send or receive timeout, failed setsockopt, failed accept of 4 kinds) in workloads of 1 to 3 clients sending single, pipelined, split, large, failing and empty-reply requests, with clients that stay, half-close, close or reset";
	cfg.assumptions = {"faults are those of the socket model in lib/simnet.cpp", "x-request-id and date values are not compared"};
	std::vector<mc::Scenario> sc;
	auto all = [] { net::Faults f; f.partial_send = f.interrupt = f.recv_interrupt = f.short_recv = f.send_error = f.recv_error = f.timeout_send = f.recv_timeout = f.sockopt_error = true; return f; };
	std::vector<std::pair<std::string, Plan>> plans = {
		{"get", {{get("A", "/a")}, {}, 0}}, {"pipeline", {{get("A", "/a") + post("A", "/b", "body") + get("A", "/c")}, {}, 0}},
		{"split", {{"GET /a HT", "TP/1.1\r\nX-Tag: A\r\n\r", "\nPOST /b HTTP/1.1\r\nX-Tag: A\r\nContent-Length: 4\r\n\r\nbo", "dy"}, {}, 0}},
		{"big", {{get("A", "/big"), get("A", "/a")}, {}, 0}}, {"upload", {{post("A", "/a", seq::pattern(5000, 3)) + get("A", "/b")}, {}, 0}}, {"throw", {{get("A", "/throw") + get("A", "/empty")}, {}, 0}},
		{"malformed", {{get("A", "/a") + "NONSENSE\r\n\r\n"}, {}, 0}},
	};
	for (auto& p : plans) for (int e = 0; e < 5; e++) {
		Plan q = p.second; q.end = e; Plan b; b.segs = {get("B", "/b2")};
		sc.push_back({p.first + ".end" + std::to_string(e), th ? 4 : 2, [q, all] { drive({q}, all()); }});
		sc.push_back({p.first + ".end" + std::to_string(e) + ".two", th ? 3 : 2, [q, b, all] { drive({q, b}, all(), true); }});
	}
	sc.push_back({"accept", th ? 3 : 2, [] { net::Faults f; f.accept_error = f.sockopt_error = true; Plan a, b, c; a.segs = {get("A", "/a")}; b.segs = {get("B", "/b")}; c.segs = {get("C", "/c")}; drive({a, b, c}, f, mc::choose(2)); }});
	sc.push_back({"accept-and-faults", 2, [all] { net::Faults f = all(); f.accept_error = true; Plan a, b; a.segs = {get("A", "/a")}; b.segs = {post("B", "/b", "zz")}; drive({a, b}, f, mc::choose(2)); }});
	both_modes(sc, {""});
	return mc::run(argc, argv, cfg, sc);
}
