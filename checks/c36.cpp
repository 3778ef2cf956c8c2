#include "http_common.hpp"
#include <core/http/http.hpp>
using namespace hc; using namespace seq;
using mc::violate;
using std::string;

static void go(const string& h, bool valid, const string& u, const string& p) {
	std::optional<Lambda::HTTP::Auth::BasicCredentials> r; string got;
	bool th = throws([&] { auto x = Lambda::HTTP::Auth::parseBasicAuth(h); got = x ? "user \"" + x->user + "\" password \"" + x->password + "\"" : "none"; }, "parseBasicAuth");
	string want = valid ? "user \"" + u + "\" password \"" + p + "\"" : "none";
	if (th) violate("throws", "parseBasicAuth(\"" + show(h) + "\") throws");
	if (got != want) violate(valid ? "credentials" : "accepts-malformed", "parseBasicAuth(\"" + show(h) + "\") yields " + show(got) + ", expected " + show(want));
	mc::step(mc::hash_str(h)); mc::outcome(mc::hash_str(got)); if (valid) mc::nontrivial();
	if (mc::tracing()) mc::note("\"" + show(h) + "\" -> " + show(got));
}
static void cred(const string& scheme, const string& dec) {
	auto c = dec.find(':'); bool v = c != string::npos;
	go(scheme + " " + ref_b64(dec), v, v ? dec.substr(0, c) : "", v ? dec.substr(c + 1) : "");
}
// what the handler of a real server is told: requests arrive one after another on one connection
struct Expect { string header; bool valid; string u, p; };
static Expect basic(const string& dec, const string& scheme = "Basic ") { auto c = dec.find(':'); bool v = c != string::npos; return {scheme + ref_b64(dec), v, v ? dec.substr(0, c) : "", v ? dec.substr(c + 1) : ""}; }
static void serve(const std::vector<Expect>& es) {
	world(quiet(), [&] {
		std::vector<std::pair<string, string>> got; Rt g;
		Server sv([&](const HTTP::Request& q, const RequestContext&) -> HTTP::Response { Rt g; got.push_back({string(q.url.username.data(), q.url.username.size()), string(q.url.password.data(), q.url.password.size())}); return HTTP::Response(204); }, hc::config());
		Client k;
		for (size_t i = 0; i < es.size(); i++) {
			auto& e = es[i]; Resp r; k.send("GET /a HTTP/1.1\r\nHost: h\r\n" + (e.header.empty() ? "" : "Authorization: " + e.header + "\r\n") + "\r\n");
			string what = "request " + std::to_string(i + 1) + " with \"" + show(e.header) + "\"";
			if (!k.next(r, false, 60000)) violate("no-response", what + " is not answered");
			if (r.status / 100 == 4 && !e.valid && got.size() == i) { got.push_back({"", ""}); continue; } // refusing what is not well-formed is fine
			if (got.size() != i + 1) violate("no-call", what + " is answered " + std::to_string(r.status) + " without a call of the handler");
			auto want = e.valid ? std::make_pair(e.u, e.p) : std::make_pair(string(), string());
			if (got[i] != want) violate(e.valid ? "served-credentials" : "served-malformed", what + ": the handler gets user \"" + show(got[i].first) + "\" password \"" + show(got[i].second) + "\" instead of \"" + show(want.first) + "\" and \"" + show(want.second) + "\"");
			mc::step(mc::hash_str(e.header)); mc::outcome(mc::hash_str(got[i].first + ":" + got[i].second)); if (e.valid) mc::nontrivial();
			if (mc::tracing()) mc::note(what + " -> user \"" + show(got[i].first) + "\" password \"" + show(got[i].second) + "\"");
		}
		k.close(); sv.shutdown(); sv.await(); sv.destroy();
	});
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C36";
	c.rule = "every decoded credential string up to 5 (thorough 6) characters over {':','a','b',0,0xff,' '} and every single byte in each part, every letter case of the scheme, malformed headers built from scheme-like and base64-like tokens; the handler of a real server gets the same for strings up to 5 (6) characters, every byte in 8 places, long parts and sequences of up to 4 (5) requests on one connection; non-trivial = well-formed header";
	c.assumptions = {"header values arrive trimmed (the request parser does that)"};
	string all; for (int i = 0; i < 256; i++) all.push_back((char)i);
	std::vector<mc::Scenario> s;
	s.push_back({"credentials", 0, [] { cred("Basic", pickstr(string(":ab\0\xff ", 6), mc::thorough() ? 7 : 6)); }});
	s.push_back({"bytes", 0, [=] { char a = all[mc::choose(256)], b = all[mc::choose(256)]; int f = mc::choose(3); cred("Basic", f == 0 ? string(1, a) + ":" + b : f == 1 ? string("u") + a + ":p" + b : string(":") + a + b); }});
	s.push_back({"scheme-case", 0, [] { string sc = "basic"; for (auto& ch : sc) if (mc::choose(2)) ch -= 32; static const std::vector<string> D = {"a:b", ":", "user:pass:word", ":::", "nocolon", "u:", ":p"}; cred(sc, pick(D)); }});
	s.push_back({"lengths", 0, [] { int n = mc::choose(140), m = mc::choose(140); auto u = pattern(n, 0), p = pattern(m, 5); cred("Basic", u + ":" + p); }});
	s.push_back({"malformed", 0, [] {
		static const std::vector<string> SC = {"", "Bas", "Basi", "Basicx", "xBasic", "Bearer", "Digest", "NotBasic", "bearer basic", "Digest username=\"basic\","};
		static const std::vector<string> SEP = {"", " "}, TK = {"", "YTpi", "dXNlcjpwYXNz", "basic"};
		auto scm = pick(SC); auto sep = pick(SEP); auto tk = pick(TK); go(scm + sep + tk, false, "", ""); }});
	s.push_back({"bad-base64", 0, [] {
		static const std::vector<string> TK = {"", "YTp!", "YT pi", "====", "=YTp", "YTpi=YTp", "Y:pi", "\x80\x81\x82\x83", "YWI=", "a%3Ab", "*", "YTpi,", "YQ==YQ=="};
		go("Basic" + string(mc::choose(2) ? " " : "") + pick(TK), false, "", ""); }});
	s.push_back({"served-credentials", 0, [] { serve({basic(pickstr(string(":ab\0\xff ", 6), mc::thorough() ? 7 : 6))}); }});
	s.push_back({"served-bytes", 0, [=] { char a = all[mc::choose(256)]; std::vector<Expect> v; for (int f = 0; f < 8; f++) { string x(1, a); v.push_back(basic(f == 0 ? x + ":" : f == 1 ? ":" + x : f == 2 ? x + "u:p" : f == 3 ? "u" + x + ":p" : f == 4 ? "u:" + x + "p" : f == 5 ? "u:p" + x : f == 6 ? "u:p" + x + "p" : x + x + ":" + x + x)); } serve(v); }});
	s.push_back({"served-lengths", 0, [] { int n = mc::choose(70) * 5, m = mc::choose(9) * 40; serve({basic(pattern(n, 0) + ":" + pattern(m, 5))}); }});
	s.push_back({"served-sequence", 0, [] { // the credentials of one request are not seen by the next
		static const std::vector<Expect> E = {basic("a:b"), basic("user:pa:ss", "bASIC "), basic(":"), basic("u:"), basic(":p"), basic(" u : p "), basic("nocolon"), {"", false, "", ""}, {"Bearer YTpi", false, "", ""}, {"Basic YT!pi", false, "", ""}, {"Basic", false, "", ""}, {"NotBasic YTpi", false, "", ""}};
		std::vector<Expect> v; int n = 1 + mc::choose(mc::thorough() ? 5 : 4); for (int i = 0; i < n; i++) v.push_back(pick(E)); serve(v); }});
	return mc::run(argc, argv, c, s);
}
