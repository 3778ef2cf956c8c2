// C05: malformed or oversized HTTP input is refused without harm
#include "http_common.hpp"
using namespace hc;

static size_t calls; static std::vector<std::string> bodies; static bool sawCanary;
static RequestCallback handler() {
	return [](const HTTP::Request& r, const RequestContext&) -> HandlerResponse {
		{ Rt g; if (r.url.pathname == "/canary") sawCanary = true; else { calls++; auto& b = r.body.buffer(); bodies.emplace_back(b.begin(), b.end()); } }
		return HTTP::Response(200, {{"content-type", "image/x"}}, std::string("ok"));
	};
}
// ---- independent reading of what the bytes are
struct Judge { size_t lo = 0, hi = 0; bool toobig = false, bad = false; std::vector<std::string> bodies; bool open = true; };
static std::string trim(std::string s) { while (!s.empty() && (s[0] == ' ' || s[0] == '\t')) s.erase(0, 1); while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); return s; }
static bool tokenchars(const std::string& s) { if (s.empty()) return false; for (unsigned char c : s) if (!isalnum(c) && c != '-' && c != '_') return false; return true; }
static Judge judge(const std::string& s, size_t max) {
	Judge j; size_t pos = 0; bool vague = false;
	while (pos < s.size()) {
		auto he = s.find("\r\n\r\n", pos);
		if (he == std::string::npos) { if (s.size() - pos > max) j.toobig = true; break; } // incomplete: nothing to serve
		std::vector<std::string> lines; { size_t p = pos; while (true) { size_t q = s.find("\r\n", p); if (q > he) q = he; lines.push_back(s.substr(p, q - p)); if (q >= he) break; p = q + 2; } }
		size_t hs = he + 4 - pos; if (hs > max) { j.toobig = j.bad = true; break; }
		bool malformed = false, odd = false;
		{ std::vector<std::string> t; size_t p = 0; const std::string& l = lines[0]; while (true) { size_t q = l.find(' ', p); t.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
		  std::vector<std::string> u; for (auto& x : t) if (!x.empty()) u.push_back(x);
		  if (u.size() != 3 || u[2].rfind("HTTP/", 0) != 0) malformed = true;
		  else if (t.size() != 3 || (t[0] != "GET" && t[0] != "POST") || (t[1][0] != '/') || t[2] != "HTTP/1.1") odd = true;
		  for (unsigned char c : l) if (c < 32 || c > 126) odd = true; }
		for (auto& l : lines) if (l.find_first_of(std::string("\r\n\0", 3)) != std::string::npos) malformed = true; // there are no bare line breaks or nulls in a header
		std::vector<std::string> cl; bool te = false, host = false;
		for (size_t i = 1; i < lines.size(); i++) {
			auto c = lines[i].find(':'); if (c == std::string::npos) { malformed = true; continue; }
			std::string n = lines[i].substr(0, c), v = trim(lines[i].substr(c + 1)); if (trim(n).empty()) { malformed = true; continue; }
			if (n.find_first_of(" \t") != std::string::npos) malformed = true; // folded lines, and spaces before the colon, are read differently by others
			if (!tokenchars(n)) odd = true; for (unsigned char ch : v) if (ch < 32 || ch > 126) odd = true;
			std::string ln = seq::lower(n);
			if (ln == "content-length") { std::string w = v; while (!w.empty() && isspace((unsigned char)w[0])) w.erase(0, 1); while (!w.empty() && isspace((unsigned char)w.back())) w.pop_back(); if (w != v) odd = true; v = w; if (v.empty()) odd = true; else cl.push_back(v); }
			else if (ln == "transfer-encoding") { if (v.empty()) odd = true; else te = true; }
			else if (ln == "connection" || ln == "host" || ln == "authorization" || ln == "expect" || ln == "upgrade") { if (ln != "host") odd = true; }
		}
		(void)host; size_t len = 0; bool big = false;
		if (te) malformed = true;
		for (auto& v : cl) { if (v.find_first_not_of("0123456789") != std::string::npos) malformed = true; else if (v.find_first_not_of('0') != std::string::npos && v.size() - v.find_first_not_of('0') > 18) big = true; else len = strtoull(v.c_str(), nullptr, 10);
			if (v != cl[0]) { if (!malformed && v.find_first_not_of('0') != std::string::npos && strtoull(v.c_str(), 0, 10) == strtoull(cl[0].c_str(), 0, 10)) odd = true; else malformed = true; } }
		if (big || len > max) { j.bad = true; if (!malformed) j.toobig = true; break; }
		if (malformed) { j.bad = true; break; }
		if (odd || hs + len > max) j.open = false;
		if (s.size() - (he + 4) < len) break;                     // incomplete body
		j.hi++; if (hs + len > max || odd) vague = true;          // may or may not be served
		j.bodies.push_back(s.substr(he + 4, len));
		if (!vague) j.lo++;
		if (vague) { j.hi = SIZE_MAX; break; }
		pos = he + 4 + len;
	}
	if (j.hi == SIZE_MAX) j.open = false;
	return j;
}
enum End { FIN, IDLE, RST };
static void drive(const std::string& s, size_t max, End end, const std::vector<size_t>& cuts = {}, bool canary = false) {
	calls = 0; bodies.clear(); sawCanary = false; Judge j = judge(s, max);
	if (mc::tracing()) mc::note("stream " + mc::show(s, 400) + " may be served " + std::to_string(j.lo) + ".." + std::to_string(j.hi));
	world(quiet(), [&] {
		Rt g; auto cfg = config(); cfg.transport.maxRequestSize = max; Server srv(handler(), cfg); Client c;
		for (auto& x : cut(s, cuts)) c.send(x);
		if (end == FIN) c.fin(); if (end == RST) net::rst(c.c);
		std::string out = c.drain(90000);
		auto bad = [&](const char* k, const std::string& m) { mc::violate(k, m + "; input " + mc::show(s, 300)); };
		if (!net::wait_closed(c.c, 90000)) bad("not-closed", "the connection was not closed within 90 s");
		if (end != RST) {
			if (calls < j.lo) bad("refused-valid", "only " + std::to_string(calls) + " of " + std::to_string(j.lo) + " well-formed requests were served");
			if (calls > j.hi) bad("served-malformed", std::to_string(calls) + " requests reached the handler, expected " + std::to_string(j.hi));
			for (size_t i = 0; i < calls && i < j.bodies.size(); i++) if (j.hi != SIZE_MAX && bodies[i] != j.bodies[i]) bad("wrong-body", "the handler got body " + mc::show(bodies[i]) + " of request " + std::to_string(i));
			size_t pos = 0, n = 0; std::string why; Resp r; int lasterr = 0;
			while (pos < out.size()) { Parse p = parse(out, pos, false, r, why); if (p != OK) bad("malformed-response", p == MORE ? "truncated response " + mc::show(out.substr(pos)) : why); n++; if (lasterr) bad("data-after-error", "data follows the error response"); if (r.status != 200) { if (r.status < 400) bad("wrong-status", std::to_string(r.status)); lasterr = r.status; } }
			if (n != calls + (lasterr ? 1 : 0)) bad("response-count", std::to_string(n) + " responses for " + std::to_string(calls) + " served requests");
			if (lasterr && j.open && !j.bad && !j.toobig) bad("refused-valid", "a stream without an error was answered with " + std::to_string(lasterr));
			if (lasterr && j.open && j.toobig && lasterr != 413) bad("wrong-status", "an oversized request was answered with " + std::to_string(lasterr));
			if (!lasterr && j.open && j.toobig && j.bad && end == IDLE) bad("wrong-status", "an oversized request was not answered with 413");
			mc::outcome(mc::mix(calls, lasterr)); if (lasterr) mc::nontrivial();
		} else { if (calls > j.hi) bad("served-malformed", std::to_string(calls) + " requests reached the handler, expected " + std::to_string(j.hi)); mc::outcome(calls + 100); }
		if (canary || true) { Client k; k.send("GET /canary HTTP/1.1\r\n\r\n"); Resp r; if (!k.next(r) || r.status != 200 || !sawCanary) bad("service-down", "another connection is not served afterwards"); k.close(); }
		mc::step(mc::path_hash()); c.close();
	});
}
static const std::vector<std::string> TOK = {"GET", "POST", " ", "/", "HTTP/1.1", "\r\n", "\r\n\r\n", "\n", "\r", "a: b", "Content-Length: 2", ":", std::string("\0", 1), "xy", "\xff"};
static const std::vector<std::string> BASE = {
	"GET / HTTP/1.1\r\nHost: a:1\r\n\r\n",
	"POST /p?q=1 HTTP/1.1\r\nContent-Length: 3\r\nX-A: b\r\n\r\nabc",
	"GET /1 HTTP/1.1\r\n\r\nPOST /2 HTTP/1.1\r\nContent-Length: 2\r\n\r\nzzGET /3 HTTP/1.1\r\n\r\n",
};
static const std::string MUT("\0 \t\r\n:/AZ0H%?;,\x7f\x80\xff\"", 19);
static const std::vector<std::string> CLV = {"0", "2", "3", "02", "+2", "-1", " 2 ", "2 2", "2,2", "2, 2", "0x2", "2a", "a", "", "1e1", "2.0", "199", "200", "201", "4294967295", "4294967296", "4294967298", "18446744073709551615", "18446744073709551616", "18446744073709551618", "99999999999999999999999", "9223372036854775807", "9223372036854775808", "\x32\t", "00000000000000000000000002"};
static const std::vector<std::string> HDRS = {"Content-Length: 2", "content-length: 2", "CONTENT-LENGTH: 3", "Content-Length: 0", "Content-Length:", "Transfer-Encoding: chunked", "transfer-encoding: identity", "Transfer-Encoding:", "X: y", "X", ": v", "Content-Length : 2", " Content-Length: 2", "Content-Length: 2, 3"};
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C05"; bool th = mc::thorough();
	cfg.rule = "all token sequences up to length 4 (thorough 5), all one-byte replacements, insertions and deletions (thorough: all pairs of nearby replacements) of well-formed streams, every truncation x end of stream, silence or reset, all content-length values x body sizes around the limit, all pairs of framing headers, header and body sizes around the limit at every split, unfinished headers up to twice the limit";
	cfg.assumptions = {"input which is neither clearly well-formed nor clearly malformed may be served or refused, but must be answered and end in an orderly way", "the canary connection shows that others are still served"};
	std::vector<mc::Scenario> sc;
	for (size_t a = 0; a < TOK.size(); a++) for (int e = 0; e < 2; e++) sc.push_back({"tokens." + std::to_string(a) + "." + std::to_string(e), 0, [a, e, th] {
		std::string s = TOK[a]; int n = mc::choose(th ? 5 : 4); for (int i = 0; i < n; i++) s += seq::pick(TOK); drive(s, 200, (End)e);
	}});
	// a well-formed prefix, then free tokens as header section
	for (size_t a = 0; a < TOK.size(); a++) sc.push_back({"header-tokens." + std::to_string(a), 0, [a, th] {
		std::string s = mc::choose(2) ? "GET / HTTP/1.1\r\n" : "GET "; s += TOK[a]; int n = mc::choose(th ? 4 : 3); for (int i = 0; i < n; i++) s += seq::pick(TOK); s += "\r\n\r\n"; drive(s, 200, IDLE);
	}});
	for (size_t b = 0; b < BASE.size(); b++) {
		sc.push_back({"mutate." + std::to_string(b), 0, [b] {
			std::string s = BASE[b]; int i = mc::choose(s.size()), k = mc::choose(2 * MUT.size() + 2);
			if (k == 0) s.erase(i, 1); else if (k == 1) s.insert(i, 1, s[i]); else if (k < 2 + (int)MUT.size()) s[i] = MUT[k - 2]; else s.insert(i, 1, MUT[k - 2 - MUT.size()]);
			drive(s, 400, mc::choose(2) ? IDLE : FIN);
		}});
		sc.push_back({"truncate." + std::to_string(b), 0, [b] { std::string s = BASE[b]; s.resize(mc::choose(s.size() + 1)); End e = (End)mc::choose(3); size_t c = mc::choose(3) * 7; drive(s, 400, e, c ? std::vector<size_t>{c} : std::vector<size_t>{}); }});
		if (th) sc.push_back({"mutate2." + std::to_string(b), 0, [b] {
			std::string s = BASE[b]; int i = mc::choose(s.size()), d = 1 + mc::choose(4); s[i] = MUT[mc::choose(MUT.size())]; if (i + d < (int)s.size()) s[i + d] = MUT[mc::choose(MUT.size())]; drive(s, 400, FIN);
		}});
	}
	sc.push_back({"content-length", 0, [] {
		std::string v = seq::pick(CLV); size_t n = std::vector<size_t>{0, 1, 2, 3, 300}[mc::choose(5)]; std::string s = "POST / HTTP/1.1\r\nContent-Length: " + v + "\r\n\r\n" + std::string(n, 'b'); if (mc::choose(2)) s += "GET /n HTTP/1.1\r\n\r\n";
		drive(s, 240, (End)mc::choose(2), mc::choose(2) ? std::vector<size_t>{s.find("\r\n\r\n") + 4} : std::vector<size_t>{});
	}});
	sc.push_back({"framing-headers", 0, [] {
		std::string s = "POST / HTTP/1.1\r\n"; int n = 1 + mc::choose(3); for (int i = 0; i < n; i++) s += seq::pick(HDRS) + "\r\n"; s += "\r\nab"; if (mc::choose(2)) s += "GET /n HTTP/1.1\r\n\r\n"; drive(s, 400, IDLE);
	}});
	sc.push_back({"limit", 0, [] {
		size_t max = 200; int h = 40 + mc::choose(3) * 79, d = mc::choose(9) - 4; // h header bytes, total max + d or body max + d
		std::string line = "POST / HTTP/1.1\r\nX: ", base; bool rel = mc::choose(2);
		long len = rel ? (long)max + d - h : (long)max + d; if (len < 0) len = 0;
		std::string cl = "Content-Length: " + std::to_string(len) + "\r\n\r\n"; int pad = h - (int)line.size() - 2 - (int)cl.size(); if (pad < 1) pad = 1;
		std::string s = line + std::string(pad, 'x') + "\r\n" + cl + std::string(len, 'b'); size_t he = s.find("\r\n\r\n") + 4; if (mc::choose(2)) s += "GET /n HTTP/1.1\r\n\r\n";
		int c = mc::choose(3); drive(s, max, IDLE, c == 0 ? std::vector<size_t>{} : c == 1 ? std::vector<size_t>{he} : std::vector<size_t>{he - 2, he + 3});
	}});
	sc.push_back({"long-header", 0, [] {
		size_t max = 200; size_t n = 150 + mc::choose(250); int kind = mc::choose(3); std::string s = kind == 0 ? std::string(n, 'a') : kind == 1 ? "GET / HTTP/1.1\r\nX: " + std::string(n, 'y') : "GET /" + std::string(n, 'y') + " HTTP/1.1\r\n\r\n";
		int c = mc::choose(3); drive(s, max, mc::choose(2) ? IDLE : FIN, c == 0 ? std::vector<size_t>{} : c == 1 ? std::vector<size_t>{100, 190} : std::vector<size_t>{199, 201, 220, 240, 260, 280});
	}});
	sc.push_back({"big-input", 0, [] {
		size_t max = std::vector<size_t>{64, 1000, 2047, 2048, 2049, 4096, 100000}[mc::choose(7)]; size_t n = std::vector<size_t>{0, 2000, 2040, 2048, 4096, 65536, 100000, 300000}[mc::choose(8)]; int kind = mc::choose(4);
		std::string s = kind == 0 ? "GET / HTTP/1.1\r\nX: " + std::string(n, 'y') + "\r\n\r\n" : kind == 1 ? "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + std::string(n, 'y') : kind == 2 ? std::string(n, '\n') : std::string(n / 2, '\r') + "\r\n\r\n" + std::string(n / 2, 'q');
		drive(s, max, mc::choose(2) ? IDLE : FIN);
	}});
	both_modes(sc, {"tokens.", "mutate.", "truncate", "content-length", "framing", "limit", "long-header", "big-input"});
	return mc::run(argc, argv, cfg, sc);
}
