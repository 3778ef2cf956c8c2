// C01: requests reach the handler exactly as sent, however they are segmented
#include "http_common.hpp"
using namespace hc;

struct Seen { std::string method, path; KV query, headers; std::string host, hostname, port, user, pass, body; };

static std::vector<Seen> seen;

static RequestCallback handler() {
	return [](const HTTP::Request& q, const RequestContext&) -> HandlerResponse {
		int n; std::string pong;
		{
			Rt g; Seen s; s.method = q.method.toString(); s.path = q.url.pathname;
			for (auto& e : q.url.searchParams.entries()) s.query.push_back(e);
			for (auto& e : q.headers.entries()) s.headers.push_back(e);
			s.host = q.url.host; s.hostname = q.url.hostname; s.port = q.url.port; s.user = q.url.username; s.pass = q.url.password; s.body = q.body.text();
			n = seen.size(); seen.push_back(s); pong = "r" + std::to_string(n);
		}
		HTTP::Response r(200, HTTP::Headers({{"content-type", "x/y"}}), pong);
		return r;
	};
}
// values of each key in order, keys lower-cased
static std::map<std::string, std::vector<std::string>> group(const KV& kv, bool dropempty) { std::map<std::string, std::vector<std::string>> m; for (auto& p : kv) if (!dropempty || !p.second.empty()) m[seq::lower(p.first)].push_back(p.second); return m; }

static void expect(const Seen& s, const Req& r, size_t i) {
	auto bad = [&](const char* what, const std::string& got, const std::string& want) { mc::violate("wrong-request", "request " + std::to_string(i) + " (" + mc::show(r.wire(), 60) + "): " + what + " was " + mc::show(got, 200) + " instead of " + mc::show(want, 200)); };
	if (s.method != r.method) bad("method", s.method, r.method);
	if (s.path != r.path) bad("path", s.path, r.path);
	auto q1 = group(s.query, false), q2 = group(r.query, false);
	if (q1 != q2) bad("query", showkv(s.query), showkv(r.query));
	KV h = r.headers; if (r.withlen || !r.body.empty()) h.push_back({"content-length", std::to_string(r.body.size())});
	for (auto& e : h) { while (!e.second.empty() && (e.second[0] == ' ' || e.second[0] == '\t')) e.second.erase(0, 1); while (!e.second.empty() && (e.second.back() == ' ' || e.second.back() == '\t')) e.second.pop_back(); }
	auto h1 = group(s.headers, true), h2 = group(h, true);
	if (h1 != h2) bad("headers", showkv(s.headers), showkv(h));
	for (auto& e : r.headers) if (seq::lower(e.first) == "host") {
		std::string host = e.second, name = host, port; size_t b = host[0] == '[' ? host.find(']') : 0; size_t c = host.find(':', b);
		if (c != std::string::npos) { name = host.substr(0, c); port = host.substr(c + 1); }
		if (s.host != host) bad("host", s.host, host);
		if (s.hostname != name) bad("hostname", s.hostname, name);
		if (s.port != port) bad("port", s.port, port);
	}
	if (s.user != r.user) bad("user name", s.user, r.user);
	if (s.pass != r.pass) bad("password", s.pass, r.pass);
	if (s.body != r.body) bad("body", s.body, r.body);
}

static void drive(const std::vector<Req>& rs, const std::vector<std::string>& segs, bool paced, int gap = 5) {
	seen.clear();
	world(quiet(), [&] {
		Rt g; Server srv(handler(), config());
		Client c; size_t done = 0;
		for (auto& s : segs) { c.send(s); if (paced && (gap == 5 || &s != &segs.back())) sched::sleep_ms(gap); }
		for (size_t i = 0; i < rs.size(); i++) {
			Resp r; if (!c.next(r, rs[i].method == "HEAD")) mc::violate("lost-request", "only " + std::to_string(i) + " of " + std::to_string(rs.size()) + " requests were answered (at " + std::to_string(sched::now_ms()) + " ms); unread by the server: " + std::to_string(net::unread_by_server(c.c)) + "; answered so far: " + mc::show(c.acc, 100));
			if (r.status != 200 || (rs[i].method != "HEAD" && r.body != "r" + std::to_string(i))) mc::violate("wrong-response", "response " + std::to_string(i) + " is " + std::to_string(r.status) + " " + mc::show(r.body));
			done++;
			mc::step(mc::mix(mc::path_hash(), seen.size() * 100 + i));
		}
		if (sched::now_ms() > 5000 + (gap > 5 ? gap * (int64_t)(segs.size() - 1) : 0)) mc::violate("stalled", "requests which had arrived completely were answered only after " + std::to_string(sched::now_ms()) + " ms");
		if (seen.size() != rs.size()) mc::violate("wrong-count", "the handler was called " + std::to_string(seen.size()) + " times for " + std::to_string(rs.size()) + " requests");
		for (size_t i = 0; i < rs.size(); i++) expect(seen[i], rs[i], i);
		if (!c.rest().empty()) mc::violate("extra-bytes", "bytes behind the last response: " + mc::show(c.rest()));
		c.close();
		uint64_t h = 5; for (auto& s : seen) h = mc::mix(h, mc::hash_str(s.method + s.path + showkv(s.query) + showkv(s.headers) + s.body)); mc::outcome(h); mc::nontrivial();
	});
}

struct T { std::string target, path; KV query; };
static const std::vector<T>& targets() {
	static const std::vector<T> v = {
		{"/", "/", {}}, {"/a", "/a", {}}, {"/a/b.c/", "/a/b.c/", {}}, {"/%20x%2F", "/%20x%2F", {}}, {"/a?x=1", "/a", {{"x", "1"}}},
		{"/a?x=1&y=2&x=3", "/a", {{"x", "1"}, {"y", "2"}, {"x", "3"}}}, {"/?q=a%20b", "/", {{"q", "a%20b"}}}, {"/a?Up=Va%26L", "/a", {{"up", "Va%26L"}}}, {"/?u=http://h/p?z", "/", {{"u", "http://h/p?z"}}},
		{"/a?", "/a", {}}, {"//a//b", "//a//b", {}}, {"/..;/a:b@c", "/..;/a:b@c", {}}, {"*", "*", {}},
		{"/a#frag", "/a", {}}, {"/a?x=1#f?y=2&z=3", "/a", {{"x", "1"}}}, {"/a?#x=1", "/a", {}}, {"/a#f?x=1", "/a", {}}, {"/#?#", "/", {}},
	};
	return v;
}
static Req mk(const std::string& m, const T& t, const KV& h, const std::string& body, bool wl = false) { Req r; r.method = m; r.target = t.target; r.path = t.path; r.query = t.query; r.headers = h; r.body = body; r.withlen = wl; return r; }
static const std::vector<KV>& hsets() {
	static const std::vector<KV> v = {
		{}, {{"Host", "h"}}, {{"Host", "h.example:8080"}}, {{"hOST", "[::1]:99"}, {"A", "1"}, {"B", "2"}}, {{"Host", "[::1]"}},
		{{"Host", "h"}, {"X-Long-Name", std::string(300, 'v')}}, {{"Host", "h"}, {"Cookie", "a=b; c=d"}, {"Accept", "*/*;q=0.8"}, {"Accept", "text/html"}, {"X", "a:b:c"}},
		{{"Host", "h"}, {"X-Sp", "  in  ner  "}, {"X-Tab", "\tt\t"}}, {{"Host", "h"}, {"X-Bytes", "\xc3\xa9\xff"}}, {{"Host", "h"}, {"X-Empty", ""}, {"Y", "z"}},
		{{"Host", "h"}, {"X-Colon", ":"}, {"Z", "\"q,\\\"r\""}}, {{"Host", "h"}, {"X-A", "1"}, {"X-A", "2"}, {"x-a", "1"}, {"X-A", "1"}, {"X-B", "1"}},
	};
	return v;
}

int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C01";
	cfg.rule = "single requests: all methods x targets x header sets x bodies, whole and byte by byte; pipelines: all sequences of 1 to 3 (thorough 4) requests of 7 kinds with every single cut position and every pair of cut positions (sequences of 3 or more: at structural positions), every number of trailing segments merged; header and body ends at and around the receive chunk boundary (2048 and multiples), large bodies; every rotation and stride of a 130-request history of 13 kinds in four segmentations; pauses of up to 14 s at every structural position; short receives anywhere";
	cfg.assumptions = {"well-formed HTTP/1.1 requests framed by content-length", "TCP modelled as an ordered byte stream with arbitrary segment boundaries"};
	std::vector<mc::Scenario> sc; bool th = mc::thorough();

	static const std::vector<std::string> METHODS = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT"};
	static const std::vector<std::string> BODIES = {"", "x", std::string("\0\r\n\r\nGET / HTTP/1.1\r\n\r\n", 24), std::string(256, 0) + seq::pattern(256, 4), "a=b&c=d"};
	sc.push_back({"single", 0, [] {
		auto& m = seq::pick(METHODS); auto& t = seq::pick(targets()); auto& h = seq::pick(hsets()); auto& b = seq::pick(BODIES); bool bytes = mc::choose(2);
		bool wl = m == "POST" && b.empty();
		Req r = mk(m, t, h, b, wl); std::string w = r.wire(); std::vector<std::string> segs;
		if (bytes) { for (char c : w) segs.push_back(std::string(1, c)); } else segs.push_back(w);
		if (mc::tracing()) mc::note("request " + mc::show(w, 300));
		drive({r}, segs, false);
	}});
	sc.push_back({"credentials", 0, [] {
		static const std::vector<std::string> U = {"", "u", "user name", "\xc3\xbc"}; static const std::vector<std::string> P = {"", "p", "a:b", "::"};
		std::string u = seq::pick(U), p = seq::pick(P); if (u.empty() && p.empty()) return;
		Req r = mk("GET", targets()[1], {{"Host", "h"}, {"Authorization", (mc::choose(2) ? "Basic " : "bASIC ") + seq::ref_b64(u + ":" + p)}}, ""); r.user = u; r.pass = p;
		drive({r}, {r.wire()}, false);
	}});
	static std::vector<Req> K = {
		mk("GET", targets()[1], {{"Host", "h"}}, ""), mk("POST", targets()[4], {{"Host", "h"}}, "body"), mk("POST", targets()[0], {}, "\r\n\r\nGET /evil HTTP/1.1\r\n\r\n"), mk("HEAD", targets()[2], {{"Host", "h:1"}}, ""),
		mk("PUT", targets()[5], {{"X", "y"}}, "", true), mk("GET", targets()[0], {}, ""), mk("POST", targets()[1], {{"Host", "h"}}, seq::pattern(300, 4)),
	};
	auto structural = [](const std::vector<Req>& rs, const std::string& w) {
		std::vector<size_t> p; size_t off = 0;
		for (auto& r : rs) { std::string x = r.wire(); size_t he = x.find("\r\n\r\n"); for (size_t q : {(size_t)1, x.find(' ') + 1, x.find("\r\n"), x.find("\r\n") + 1, he, he + 1, he + 2, he + 3, he + 4, he + 5, x.size() - 1, x.size()}) p.push_back(off + q); off += x.size(); }
		std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
		std::vector<size_t> o; for (size_t q : p) if (q > 0 && q < w.size()) o.push_back(q); return o;
	};
	int maxn = th ? 4 : 3;
	for (int n = 1; n <= maxn; n++) for (size_t first = 0; first < K.size(); first++)
		sc.push_back({"pipeline" + std::to_string(n) + "." + std::to_string(first), 0, [n, first, structural] {
			std::vector<Req> rs; rs.push_back(K[first]); for (int i = 1; i < n; i++) rs.push_back(seq::pick(K));
			std::string w; for (auto& r : rs) w += r.wire();
			std::vector<size_t> cuts; auto st = structural(rs, w);
			int mode = mc::choose(4); bool paced = false;
			if (mode == 1) { if (n < 3) cuts = {(size_t)1 + mc::choose(w.size() - 1)}; else cuts = {seq::pick(st)}; paced = mc::choose(2); }
			if (mode == 2) { if (n < 3 && w.size() < 220) { size_t a = 1 + mc::choose(w.size() - 1); size_t b = a + 1 + mc::choose(w.size() - a); cuts = {a, b}; } else { size_t a = mc::choose(st.size()); size_t b = mc::choose(st.size()); if (b <= a) return; cuts = {st[a], st[b]}; } }
			if (mode == 3) { size_t k = mc::choose(3); size_t sz = k == 0 ? 1 : k == 1 ? 2 : 7; for (size_t q = sz; q < w.size(); q += sz) cuts.push_back(q); }
			if (mc::tracing()) { std::string c; for (auto x : cuts) c += " " + std::to_string(x); mc::note("stream " + mc::show(w, 300) + " cut at" + c.substr(0, 60)); }
			drive(rs, hc::cut(w, cuts), paced);
		}});
	sc.push_back({"chunk-boundary", 0, [] {
		// the header (or header + body) ends around a multiple of the receive chunk
		size_t mult = 2048 * (1 + mc::choose(2)); int delta = mc::choose(9) - 4; bool bodyend = mc::choose(2); size_t blen = bodyend ? (mc::choose(2) ? 3 : 100) : (mc::choose(3) * 5);
		size_t target = mult + delta; Req r; size_t pad = 0;
		for (int it = 0; it < 3; it++) { r = mk("POST", targets()[4], {{"Host", "h"}, {"X-Pad", std::string(pad + 1, 'p')}}, seq::pattern(blen, 0), true); std::string w = r.wire(); size_t at = bodyend ? w.size() : w.size() - blen; pad += target - at; }
		Req r2 = mk("GET", targets()[5], {{"Host", "z"}}, ""); std::string w = r.wire() + r2.wire(); int k = mc::choose(4);
		std::vector<size_t> cuts; if (k == 1) cuts = {r.wire().size()}; if (k == 2) cuts = {target}; if (k == 3) cuts = {target - 1, target + 1};
		drive({r, r2}, hc::cut(w, cuts), false);
	}});
	sc.push_back({"large-body", 0, [] {
		static const std::vector<size_t> N = {2047, 2048, 2049, 4096, 10000, 65535, 65536, 65537, 131072, 200000}; size_t n = seq::pick(N); int sg = mc::choose(5);
		Req r = mk("PUT", targets()[1], {{"Host", "h"}}, seq::pattern(n, 1)); Req r2 = mk("GET", targets()[0], {}, ""); std::string w = r.wire() + r2.wire(); std::vector<size_t> cuts;
		size_t he = r.wire().size() - n;
		if (sg == 1) cuts = {he}; if (sg == 2) for (size_t q = 1448; q < w.size(); q += 1448) cuts.push_back(q); if (sg == 3) cuts = {he + n - 1}; if (sg == 4) cuts = {he, he + n, he + n + 3};
		drive({r, r2}, hc::cut(w, cuts), false);
	}});
	// every rotation of a long history of different requests on one connection
	sc.push_back({"long-history", 0, [] {
		static std::vector<Req> L; if (L.empty()) {
			L = K; Req a = mk("GET", targets()[1], {{"Host", "h"}, {"Authorization", "Basic " + seq::ref_b64("user:pa:ss")}}, ""); a.user = "user"; a.pass = "pa:ss"; L.push_back(a);
			L.push_back(mk("POST", targets()[8], {{"hOST", "[::1]:99"}, {"A", "1"}}, seq::pattern(5000, 1))); L.push_back(mk("DELETE", targets()[7], {}, "")); L.push_back(mk("GET", targets()[3], {{"Host", "h.example:8080"}, {"X-Pad", std::string(2000, 'p')}}, ""));
			KV many; for (int i = 0; i < 90; i++) many.push_back({"X-H" + std::to_string(i % 60), "v" + std::to_string(i)}); L.push_back(mk("GET", targets()[0], many, ""));
			T big; big.target = "/" + std::string(700, 'p') + "?"; big.path = "/" + std::string(700, 'p'); for (int i = 0; i < 60; i++) { std::string k = "k" + std::to_string(i % 40), v = "v" + std::to_string(i); big.target += (i ? "&" : "") + k + "=" + v; big.query.push_back({k, v}); } L.push_back(mk("PATCH", big, {{"Host", "q"}}, "zz"));
		}
		size_t rot = mc::choose(L.size()), step = 1 + mc::choose(4), n = 130; std::vector<Req> rs; for (size_t i = 0; i < n; i++) rs.push_back(L[(rot + i * step + i / L.size()) % L.size()]);
		int mode = mc::choose(4); std::string w; std::vector<size_t> cuts; for (auto& r : rs) { w += r.wire(); cuts.push_back(w.size() - (mode == 2 ? 1 : mode == 3 ? 3 : 0)); } if (mode == 0) cuts.clear();
		if (!cuts.empty() && mode == 1) cuts.pop_back(); drive(rs, hc::cut(w, cuts), false);
	}});
	// long pauses below the receive timeout inside and between requests
	for (size_t a = 0; a < K.size(); a++)
		sc.push_back({"pauses." + std::to_string(a), 0, [a, structural] {
			std::vector<Req> rs = {K[a], seq::pick(K)}; std::string w = rs[0].wire() + rs[1].wire(); auto st = structural(rs, w); std::vector<size_t> cuts = {seq::pick(st)}; static const int G[] = {900, 4900, 14000}; drive(rs, hc::cut(w, cuts), true, G[mc::choose(3)]);
		}});
	for (size_t a = 0; a < K.size(); a++)
		sc.push_back({"short-receives." + std::to_string(a), th ? 3 : 2, [a] {
			std::vector<Req> rs = {K[a], K[1], K[5]}; std::string w; for (auto& r : rs) w += r.wire();
			seen.clear(); net::reset(); net::opt.faults.short_recv = true;
			sched::run(quiet(), [&] {
				Rt g; Server srv(handler(), config()); Client c; c.send(w);
				for (size_t i = 0; i < rs.size(); i++) { Resp r; if (!c.next(r, rs[i].method == "HEAD")) mc::violate("lost-request", "request " + std::to_string(i) + " was not answered"); mc::step(mc::mix(mc::path_hash(), i)); }
				if (seen.size() != rs.size()) mc::violate("wrong-count", "handler calls: " + std::to_string(seen.size()));
				for (size_t i = 0; i < rs.size(); i++) expect(seen[i], rs[i], i);
				c.close(); mc::outcome(mc::path_hash());
			});
			net::check_closed();
		}});
	both_modes(sc, {"single", "credentials", "pipeline2", "pipeline1", "chunk-boundary", "large-body", "long-history", "short-receives"});
	return mc::run(argc, argv, cfg, sc);
}
