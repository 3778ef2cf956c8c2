// C03: response compression is negotiated per request and is lossless
#include "http_common.hpp"
#include "comp_common.hpp"
using namespace hc;

struct Ask { std::string ae; bool hasae; std::string ct; bool hasct; std::string ce; std::string body; std::string method = "GET"; int status = 200; };
static std::vector<Ask> asks; static size_t calls;

static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext&) -> HandlerResponse {
		const Ask* a; { Rt g; a = &asks.at(calls++); }
		HTTP::Response o{HTTP::Status(a->status)};
		if (a->hasct) o.headers.set("content-type", a->ct);
		if (a->ce.size()) o.headers.set("content-encoding", a->ce);
		o.body = std::vector<uint8_t>(a->body.begin(), a->body.end());
		return o;
	};
}
// codings the request lists as acceptable (weight above zero)
static std::vector<std::string> listed(const std::string& h) {
	std::vector<std::string> out; size_t p = 0;
	auto trim = [](std::string s) { while (!s.empty() && (s[0] == ' ' || s[0] == '\t')) s.erase(0, 1); while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); return s; };
	while (p <= h.size()) {
		size_t q = h.find(',', p); std::string t = h.substr(p, q == std::string::npos ? q : q - p); p = q == std::string::npos ? h.size() + 1 : q + 1;
		size_t s = t.find(';'); std::string name = seq::lower(trim(t.substr(0, s))); double w = 1;
		if (s != std::string::npos) { std::string par = seq::lower(trim(t.substr(s + 1))); if (par.rfind("q", 0) == 0) { size_t e = par.find('='); if (e != std::string::npos) w = atof(par.c_str() + e + 1); } }
		if (!name.empty() && w > 0) out.push_back(name);
	}
	return out;
}
static bool textual(const std::string& ct) { std::string l = seq::lower(ct); for (auto k : {"text", "html", "json", "xml", "javascript"}) if (l.find(k) != std::string::npos) return true; return false; }
static bool decode(const std::string& coding, const std::string& body, std::string& out) {
	seq::Bytes in = seq::B(body), o; bool ok;
	if (coding == "gzip") ok = comp::ref_inflate(in, 31, o); else if (coding == "deflate") ok = comp::ref_inflate(in, 15, o); else if (coding == "br") ok = comp::ref_brotli(in, o); else return false;
	out = seq::S(o); return ok;
}
static void check(const Ask& a, const Resp& r, bool enabled, size_t i) {
	auto bad = [&](const std::string& m) { mc::violate("bad-encoding", "response " + std::to_string(i) + " (accept-encoding " + (a.hasae ? "'" + a.ae + "'" : "absent") + ", content-type " + (a.hasct ? a.ct : "absent") + ", handler encoding '" + a.ce + "'): " + m); };
	auto ce = r.all("content-encoding"); std::string want = a.body;
	if (a.method == "HEAD") { if (!r.body.empty()) bad("HEAD with a body"); if (ce.size() > (size_t)1) bad("several content-encoding headers"); if (ce.size() == 1 && a.ce.empty()) { auto l = listed(a.hasae ? a.ae : ""); if (std::find(l.begin(), l.end(), ce[0]) == l.end() || !enabled) bad("HEAD announces the coding " + ce[0]); } return; }
	if (a.status == 204 || a.status == 304) { if (!r.body.empty()) bad("body on a status without content"); return; }
	if (!a.ce.empty()) { if (ce.size() != 1 || ce[0] != a.ce) bad("content-encoding is no longer the handler's"); if (r.body != want) bad("a body the handler encoded was changed"); return; }
	if (ce.empty()) { if (r.body != want) bad("body sent without content-encoding differs: " + mc::show(r.body, 40)); return; }
	if (ce.size() != 1) bad("several content-encoding headers");
	if (!enabled) bad("encoded with " + ce[0] + " although compression is disabled");
	auto l = listed(a.hasae ? a.ae : "");
	if (std::find(l.begin(), l.end(), ce[0]) == l.end()) bad("encoded with " + ce[0] + ", which the request does not accept");
	if (a.hasct && !a.ct.empty() && !textual(a.ct)) bad("encoded although the content type is not textual");
	std::string d; if (!decode(ce[0], r.body, d)) bad("body is not a valid " + ce[0] + " stream");
	if (d != want) bad("decoded body differs from the handler's");
}
static void drive(const std::vector<Ask>& v, bool enabled, bool pipelined) {
	asks = v; calls = 0;
	world(quiet(), [&] {
		Rt g; auto cfg = config(); cfg.transport.useCompression = enabled; Server srv(handler(), cfg); Client c; std::string all;
		auto wire = [&](const Ask& a) { return a.method + " / HTTP/1.1\r\n" + (a.hasae ? "Accept-Encoding: " + a.ae + "\r\n" : "") + "\r\n"; };
		if (pipelined) { for (auto& a : v) all += wire(a); c.send(all); }
		for (size_t i = 0; i < v.size(); i++) {
			if (!pipelined) c.send(wire(v[i]));
			Resp r; if (!c.next(r, v[i].method == "HEAD")) mc::violate("no-response", "request " + std::to_string(i) + " was not answered");
			if (r.status != v[i].status) mc::violate("bad-encoding", "status " + std::to_string(r.status) + ": " + mc::show(r.body));
			check(v[i], r, enabled, i);
			mc::step(mc::mix(mc::path_hash(), i)); mc::outcome(mc::mix(mc::hash_str(r.get("content-encoding")), mc::hash_str(r.body)));
			if (r.has("content-encoding")) mc::nontrivial();
		}
		c.close();
	});
}
static const std::vector<std::string> AE = {"gzip", "deflate", "br", "gzip, deflate, br", "gzip,deflate", "br,gzip", "identity", "*", "gzip;q=0", "gzip;q=0, deflate", "br;q=0.0, gzip;q=0.5", "br;q=0.000,deflate;q=0.001", "GZIP", "x-gzip", "gzipx, brr", " deflate ;q=1.0 ", "gzip ; q=0", "br;q=1,*;q=0", "zstd, br", "", "gzip;level=0", ",,gzip,"};
static const std::vector<std::string> CT = {"text/html", "text/plain; charset=utf-8", "application/json", "image/png", "application/octet-stream", "application/xml", "TEXT/HTML", "application/javascript", "video/mp4", "font/woff2"};
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C03";
	cfg.rule = "all combinations of accept-encoding header (22 forms), handler content type (10 and none), handler content-encoding (4), body (9), compression on or off, method and status; all sequences of 2 (thorough 3) requests with different accept-encodings on one connection; every rotation and stride of a 100-request history; bodies up to 3 MB";
	cfg.assumptions = {"bodies are decoded with zlib and brotli called directly", "only a coding the header names counts as listed ('*' does not name one)"};
	std::vector<mc::Scenario> sc; bool th = mc::thorough();
	static const std::vector<std::string> B = {"", "x", "hello hello hello hello hello hello", seq::pattern(2048, 0), seq::pattern(5000, 1), seq::pattern(131072, 5), std::string(70000, 'a'), seq::pattern(131071, 1), std::string("\0\1\2", 3)};
	static const std::vector<std::string> CE = {"", "gzip", "br", "x-custom"};
	for (size_t i = 0; i < AE.size() + 1; i++) sc.push_back({"one." + std::to_string(i), 0, [i] {
		Ask a; a.hasae = i < AE.size(); if (a.hasae) a.ae = AE[i]; int t = mc::choose(CT.size() + 1); a.hasct = t < (int)CT.size(); if (a.hasct) a.ct = CT[t];
		a.ce = seq::pick(CE); bool en = mc::choose(2) == 0; int b = mc::choose(B.size()); a.body = B[b];
		if (b >= 4 && !(t < 4 || !a.hasct)) return;
		Ask z; z.hasae = false; z.hasct = true; z.ct = "text/plain"; z.body = "tail";
		drive({a, z}, en, false);
	}});
	sc.push_back({"head-and-empty", 0, [] {
		Ask a; a.hasae = true; a.ae = seq::pick(AE); a.hasct = mc::choose(2); a.ct = "text/html"; a.body = B[2]; int k = mc::choose(3); if (k == 0) a.method = "HEAD"; if (k == 1) a.status = 204; if (k == 2) a.status = 304;
		Ask z = a; z.method = "GET"; z.status = 200; drive({a, z}, mc::choose(2) == 0, mc::choose(2));
	}});
	sc.push_back({"long-history", 0, [] {
		size_t rot = mc::choose(AE.size() + 1), st = 1 + mc::choose(5); bool p = mc::choose(2); std::vector<Ask> v; for (size_t i = 0; i < 100; i++) { Ask a; size_t j = (rot + i * st + i / 23) % (AE.size() + 1); a.hasae = j < AE.size(); if (a.hasae) a.ae = AE[j]; a.hasct = i % 5 != 0; a.ct = CT[i % CT.size()]; a.body = i % 7 == 3 ? seq::pattern(3000 + 17 * i, 1) : B[2]; if (i % 11 == 5) a.ce = "br"; if (i % 13 == 7) a.method = "HEAD"; v.push_back(a); } drive(v, true, p);
	}});
	sc.push_back({"big", 0, [] { static const std::vector<std::string> E = {"gzip", "deflate", "br"}; static const std::vector<size_t> N = {131073, 262144, 262145, 1000003, 3000000}; Ask a; a.hasae = true; a.ae = seq::pick(E); a.hasct = true; a.ct = "text/plain"; a.body = seq::pattern(seq::pick(N), mc::choose(2) ? 5 : 1); Ask z; z.hasae = false; z.hasct = true; z.ct = "text/plain"; z.body = "tail"; drive({a, z}, true, false); }});
	for (size_t i = 0; i < AE.size() + 1; i++) { int n = th ? 3 : 2; sc.push_back({"sequence." + std::to_string(i), 0, [i, n] {
		std::vector<Ask> v; for (int k = 0; k < n; k++) { Ask a; size_t j = k ? mc::choose(AE.size() + 1) : i; a.hasae = j < AE.size(); if (a.hasae) a.ae = AE[j]; a.hasct = true; a.ct = mc::choose(2) ? "text/html" : "image/png"; a.body = B[2]; v.push_back(a); }
		drive(v, true, mc::choose(2));
	}}); }
	both_modes(sc, {"one", "head", "long-history", "big", "sequence"});
	return mc::run(argc, argv, cfg, sc);
}
