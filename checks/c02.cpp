// C02: each request gets exactly one response, in order, carrying the handler's reply
#include "http_common.hpp"
using namespace hc;

struct Reply { int status = 200; std::string text; KV headers; std::string body; int kind = 0; }; // kind: 0 Response, 1 std::string, 2 const char*, 3 bytes, 4 .. 12 the other ways to make a response
static std::vector<Reply> replies; static size_t calls;

static RequestCallback handler() {
	return [](const HTTP::Request& q, const RequestContext&) -> HandlerResponse {
		const Reply* p; { Rt g; p = &replies.at(calls++); }
		const Reply& r = *p;
		if (r.kind == 1) return HandlerResponse(r.body);
		if (r.kind == 2) return HandlerResponse(r.body.c_str());
		if (r.kind == 3) return HandlerResponse(std::vector<uint8_t>(r.body.begin(), r.body.end()));
		if (r.kind >= 4) {
			HTTP::Status st(r.status); HTTP::Headers hs; for (auto& h : r.headers) hs.append(h.first, h.second); std::vector<uint8_t> by(r.body.begin(), r.body.end()), junk(77, 'j');
			switch (r.kind) {
				case 4: { HTTP::Response o(st); o.headers = hs; o.body = r.body; return o; }
				case 5: { HTTP::Response o(st, hs); o.body = "junk before"; o.body = by; return o; }
				case 6: { HTTP::Response o(st, HTTP::BodyBuffer(r.body)); o.headers = hs; return o; }
				case 7: { HTTP::Response o((HTTP::BodyBuffer(by))); o.status = st; o.headers = hs; return o; }
				case 8: { HTTP::Response o(st, hs, r.body); return o; }
				case 9: { HTTP::Response t(st, hs, by), o(404, std::string("other")); o.headers.set("x-other", "1"); o = t; t.body = junk; t.headers.set("x-late", "1"); return o; }
				case 10: { HTTP::Response t(st, hs, by); HTTP::Response o(std::move(t)); return o; }
				case 11: { HTTP::Response o; o.body = junk; o.body = r.body; o.status = r.status; o.headers = hs; HTTP::BodyBuffer b(o.body), e; if (b.text() != r.body || b.size() != r.body.size() || std::string(b) != r.body || b.buffer() != by || e.size() || e.text() != "") mc::violate("body-buffer", "a body buffer holds other bytes than it was made from"); e = b; o.body = e; b = junk; return o; }
				default: { HandlerResponse a(HTTP::Response(500, std::string("other"))), b(HTTP::Response(st, hs, by)); a = b; return a; }
			}
		}
		HTTP::Response o(r.text.empty() ? HTTP::Status(r.status) : HTTP::Status(r.status, r.text));
		for (auto& h : r.headers) o.headers.append(h.first, h.second);
		o.body = std::vector<uint8_t>(r.body.begin(), r.body.end());
		return o;
	};
}
static void check(const Reply& w, const Resp& r, bool head, size_t i) {
	auto bad = [&](const std::string& m) { mc::violate("wrong-response", "response " + std::to_string(i) + ": " + m); };
	if (r.status != w.status) bad("status " + std::to_string(r.status) + " instead of " + std::to_string(w.status));
	if (!w.text.empty() && r.reason != w.text) bad("reason " + mc::show(r.reason) + " instead of " + mc::show(w.text));
	if (w.text.empty() && r.reason.empty()) bad("no reason phrase");
	std::map<std::string, std::vector<std::string>> want; for (auto& h : w.headers) want[seq::lower(h.first)].push_back(h.second);
	for (auto& h : want) { if (h.first == "content-length") continue; auto got = r.all(h.first); if (got != h.second) { std::string s; for (auto& x : got) s += "[" + mc::show(x) + "]"; bad("header " + h.first + " has values " + s); } }
	bool nobody = w.status / 100 == 1 || w.status == 204 || w.status == 304;
	static const std::vector<std::string> OWN = {"content-length", "date", "server", "x-request-id", "connection", "content-type", "cache-control", "keep-alive", "vary"};
	for (auto& h : r.headers) if (!want.count(seq::lower(h.first)) && std::find(OWN.begin(), OWN.end(), seq::lower(h.first)) == OWN.end()) bad("unexpected header " + h.first + ": " + mc::show(h.second));
	if (head || nobody) { if (!r.body.empty()) bad("body"); if (head && !nobody && r.get("content-length") != std::to_string(w.body.size())) bad("HEAD says content-length " + r.get("content-length") + " for a body of " + std::to_string(w.body.size()) + " bytes"); }
	else if (r.body != w.body) bad("body of " + std::to_string(r.body.size()) + " bytes " + mc::show(r.body, 60) + " instead of " + std::to_string(w.body.size()) + " bytes " + mc::show(w.body, 60));
	if (w.kind == 3 && r.get("content-type") != "application/octet-stream") bad("content type of bytes " + r.get("content-type"));
}
// mode 0: one at a time, 1: all in one segment, 2: one segment each up front
static void drive(const std::vector<std::pair<std::string, Reply>>& v, int mode, size_t cap = 1u << 30) {
	replies.clear(); calls = 0; for (auto& p : v) replies.push_back(p.second);
	net::reset(); net::opt.send_capacity = cap;
	sched::run(quiet(), [&] {
		Rt g; auto cfg = config(); Server srv(handler(), cfg); Client c; std::string all;
		auto wire = [&](size_t i) { return v[i].first + " /" + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\n" + (v[i].first == "POST" ? "Content-Length: 2\r\n\r\nhi" : "\r\n"); };
		if (mode == 1) { for (size_t i = 0; i < v.size(); i++) all += wire(i); c.send(all); }
		if (mode == 2) for (size_t i = 0; i < v.size(); i++) c.send(wire(i));
		for (size_t i = 0; i < v.size(); i++) {
			if (mode == 0) c.send(wire(i));
			Resp r; if (!c.next(r, v[i].first == "HEAD")) mc::violate("no-response", "request " + std::to_string(i) + " got no complete response; received " + mc::show(c.rest(), 200));
			check(v[i].second, r, v[i].first == "HEAD", i);
			mc::step(mc::mix(mc::path_hash(), i)); mc::outcome(mc::mix(r.status, mc::hash_str(r.body)));
			if (seq::lower(r.get("connection")) == "close") break;
		}
		c.fin(); std::string x = c.drain(); if (!x.empty()) mc::violate("extra-bytes", "bytes behind the last response: " + mc::show(x));
		c.close();
	});
	net::check_closed(); mc::nontrivial();
}
static const std::vector<int> CODES = {100,101,102,103,200,201,202,203,204,205,206,300,301,302,303,304,305,307,308,400,401,402,403,404,405,406,407,408,409,410,411,412,413,414,415,416,417,425,426,428,429,431,500,501,502,503,504,505,506,507,511};
static const std::vector<int>& codes() { static std::vector<int> v; if (v.empty()) for (int c : CODES) try { HTTP::Status s(c); v.push_back(c); } catch (...) {} return v; }
static const std::vector<KV> H = {
	{}, {{"content-type", "text/plain"}}, {{"Set-Cookie", "a=1"}, {"Set-Cookie", "b=2; Path=/"}, {"set-cookie", "a=3"}}, {{"X-A", "1"}, {"Cache-Control", "no-cache"}, {"Content-Type", "image/png"}, {"X-B", "a:b;c=\"d\""}},
	{{"Content-Length", "9999"}}, {{"Vary", "A"}, {"Vary", "B"}, {"X-Long", std::string(3000, 'l')}}, {{"ETag", "\"x\""}, {"Location", "/a?b=c#d"}}, {{"X-Empty", ""}, {"X-One", "1"}, {"X-One", "1"}, {"X-Sp", "a  b"}},
};
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C02";
	cfg.rule = "all methods of {GET,HEAD,POST} x all known status codes and custom ones x header sets (repeated values) x bodies x kinds of handler results and ways to construct, copy and assign them; all sequences of 4 (thorough 6) requests of 8 kinds, sequential, pipelined in one segment or in several; every rotation and stride of a 120-request history; body sizes around buffer boundaries with small send windows";
	cfg.assumptions = {"apart from line breaks and null characters, header names, values and status texts given by the handler are themselves valid field content"};
	std::vector<mc::Scenario> sc; bool th = mc::thorough();
	static const std::vector<std::string> M = {"GET", "HEAD", "POST"};
	static const std::vector<std::string> B = {"", "x", std::string("\0\xff\r\n\r\nHTTP/1.1 200 OK\r\n\r\n", 25), seq::pattern(3000, 0)};
	sc.push_back({"reply", 0, [] {
		auto& m = seq::pick(M); Reply r; r.status = seq::pick(codes()); r.headers = seq::pick(H); r.body = seq::pick(B);
		Reply r2; r2.body = "second"; drive({{m, r}, {"GET", r2}}, 0);
	}});
	sc.push_back({"custom-status", 0, [] {
		static const std::vector<std::pair<int, std::string>> S = {{200, "Fine then"}, {299, "Custom"}, {404, "Nope, not (here)"}, {599, "X"}, {204, "Nothing"}};
		auto& s = seq::pick(S); Reply r; r.status = s.first; r.text = s.second; r.body = seq::pick(B); Reply r2; r2.body = "second"; drive({{seq::pick(M), r}, {"GET", r2}}, mc::choose(3));
	}});
	sc.push_back({"kinds", 0, [] {
		Reply r; r.kind = 1 + mc::choose(3); r.body = seq::pick(B); if (r.kind == 2) r.body = r.body.c_str(); Reply r2; r2.kind = 1 + mc::choose(3); r2.body = "tail"; drive({{seq::pick(M), r}, {seq::pick(M), r2}}, mc::choose(3));
	}});
	sc.push_back({"constructors", 0, [] {
		Reply r; r.kind = 4 + mc::choose(9); r.body = seq::pick(B); static const std::vector<int> HI = {0, 2, 7}; r.headers = H[seq::pick(HI)]; static const std::vector<int> S = {200, 404, 500, 204, 301}; r.status = seq::pick(S); Reply r2; r2.kind = 4 + mc::choose(9); r2.body = "tail"; r2.status = 201; drive({{seq::pick(M), r}, {"GET", r2}}, mc::choose(3));
	}});
	sc.push_back({"line-breaks", 0, [] { // in a header value, a header name or a status text: none of them may end the line, let alone the response
		static const std::vector<std::string> BR = {"\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\n ", "\n\r\n", std::string("\0\r\n", 3)}, WHAT = {"", "X-Injected: 1", "Content-Length: 0", "Content-Length: 3\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "Connection: close", "X-Injected: 1\r\n\r\n"};
		int where = mc::choose(6), md = mc::choose(3), body = mc::choose(2); auto br = seq::pick(BR), w = seq::pick(WHAT); std::string pre = mc::choose(2) ? "val" : "", post = mc::choose(2) ? "end" : ""; auto m = seq::pick(M); if (where == 2 && br.back() == ' ') return;
		std::string evil = pre + br + w + post; Reply r; r.body = body ? "the body" : ""; r.headers = {{"X-First", "1"}};
		if (where == 0) r.headers.push_back({"Location", evil}); if (where == 1) { r.headers.push_back({"X-Multi", "fine"}); r.headers.push_back({"X-Multi", evil}); } if (where == 2) r.headers.push_back({"X-N" + evil, "v"});
		if (where == 3) { r.status = 299; r.text = "T" + evil; } if (where == 4) r.headers.push_back({"Content-Type", "text/plain" + evil}); if (where == 5) r.headers.push_back({"Set-Cookie", "a=" + evil});
		r.headers.push_back({"X-Last", "2"}); replies.clear(); calls = 0; Reply r2; r2.body = "second"; replies = {r, r2}; net::reset();
		sched::run(quiet(), [&] {
			Rt g; auto cfg = config(); Server srv(handler(), cfg); Client c; auto q = [&](const std::string& mm, int i) { return mm + " /" + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\n\r\n"; };
			if (md == 1) c.send(q(m, 0) + q("GET", 1)); else c.send(q(m, 0)); if (md == 2) c.send(q("GET", 1));
			Resp a, b; std::string why = " with the line break in " + std::string(where == 2 ? "a header name" : where == 3 ? "the status text" : "a header value");
			if (!c.next(a, m == "HEAD")) mc::violate("split-response", "no complete response" + why + "; received " + mc::show(c.rest(), 200));
			if (a.status != 500) { // refusing such a response as a whole is fine as well
				if (a.status != r.status) mc::violate("split-response", "status " + std::to_string(a.status) + why);
				if (m != "HEAD" && a.body != r.body) mc::violate("split-response", "body " + mc::show(a.body) + " instead of " + mc::show(r.body) + why);
				if (a.get("x-first") != "1" || a.get("x-last") != "2") mc::violate("split-response", "a header of the handler is missing" + why);
				if (a.get("content-length") != std::to_string(r.body.size())) mc::violate("split-response", "content-length " + a.get("content-length") + why);
				if (a.get("connection") != "keep-alive") mc::violate("split-response", "connection " + a.get("connection") + why);
			}
			for (auto& h : a.headers) { if (seq::lower(h.first) == "x-injected") mc::violate("split-response", "the text became a header of its own" + why); for (auto& s : {h.first, h.second}) if (s.find_first_of(std::string("\r\n\0", 3)) != std::string::npos) mc::violate("split-response", "a bare line break in the header " + mc::show(h.first) + why); }
			if (a.reason.find_first_of(std::string("\r\n\0", 3)) != std::string::npos) mc::violate("split-response", "a bare line break in the status text");
			mc::step(mc::mix(mc::path_hash(), 1)); mc::outcome(mc::mix(where, a.status));
			if (seq::lower(a.get("connection")) != "close") { if (md == 0) c.send(q("GET", 1)); if (!c.next(b) || b.body != "second") mc::violate("split-response", "the next response on the connection is not the handler's" + why); }
			c.fin(); std::string x = c.drain(); if (!x.empty()) mc::violate("extra-bytes", "bytes behind the last response: " + mc::show(x)); c.close();
		});
		net::check_closed(); mc::nontrivial();
	}});
	static std::vector<std::pair<std::string, Reply>> K;
	auto add = [](const std::string& m, int st, const KV& h, const std::string& b) { Reply r; r.status = st; r.headers = h; r.body = b; K.push_back({m, r}); };
	add("GET", 200, H[1], "one"); add("HEAD", 200, H[2], "not sent"); add("GET", 204, {}, "no"); add("GET", 304, H[6], "no"); add("POST", 500, H[2], seq::pattern(2500, 1)); add("GET", 200, {}, ""); add("HEAD", 204, {}, ""); add("GET", 301, H[6], "moved");
	for (size_t f = 0; f < K.size(); f++) for (int md = 0; md < 3; md++) {
		int n = th ? 6 : 4;
		sc.push_back({"sequence." + std::to_string(f) + "." + std::to_string(md), 0, [f, n, md] { std::vector<std::pair<std::string, Reply>> v; v.push_back(K[f]); for (int i = 1; i < n; i++) v.push_back(seq::pick(K)); drive(v, md); }});
	}
	sc.push_back({"long-history", 0, [] { // every rotation of a long history
		size_t rot = mc::choose(K.size() + 2), st = 1 + mc::choose(3); int md = mc::choose(3); static std::vector<std::pair<std::string, Reply>> L; if (L.empty()) { L = K; Reply b; b.body = seq::pattern(1500000, 1); b.headers = H[1]; L.push_back({"GET", b}); Reply m; for (int i = 0; i < 100; i++) m.headers.push_back({"X-H" + std::to_string(i % 70), "v" + std::to_string(i)}); m.body = "many"; L.push_back({"POST", m}); }
		std::vector<std::pair<std::string, Reply>> v; for (size_t i = 0; i < 120; i++) { auto e = L[(rot + i * st + i / L.size()) % L.size()]; if (i > 20 && e.second.body.size() > 1000000) e.second.body = "short"; v.push_back(e); } drive(v, md);
	}});
	sc.push_back({"sizes", 0, [] {
		static const std::vector<size_t> N = {1, 2, 2047, 2048, 2049, 4095, 4096, 65535, 65536, 65537, 131072, 300000}; static const std::vector<size_t> C = {1u << 30, 1000, 7, 4096, 65536};
		size_t n = seq::pick(N), c = seq::pick(C); if (c == 7 && n > 5000) return; Reply r; r.body = seq::pattern(n, 1); Reply r2; r2.body = "t"; drive({{seq::pick(M), r}, {"GET", r2}}, mc::choose(2), c);
	}});
	both_modes(sc, {"reply", "custom", "kinds", "constructors", "line-breaks", "sequence", "long-history", "sizes"});
	return mc::run(argc, argv, cfg, sc);
}
