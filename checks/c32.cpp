#include "core/polyfill/polyfill.hpp"
#include "seq.hpp"
using namespace seq;
namespace St = Lambda::Strings;
using mc::violate;
using std::string; using std::vector;
static string shv(const vector<string>& v) { string o = "["; for (auto& x : v) o += "\"" + show(x) + "\","; return o + "]"; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }

static void unary(const string& in) {
	string lo = in, up = in, ti = in; bool cap = true;
	for (auto& c : lo) if (c >= 'A' && c <= 'Z') c += 32;
	for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32;
	for (auto& c : ti) { if (cap && c >= 'a' && c <= 'z') c -= 32; else if (!cap && c >= 'A' && c <= 'Z') c += 32; cap = c == ' ' || c == '-'; }
	size_t a = 0, b = in.size(); while (a < b && ws(in[a])) a++; while (b > a && ws(in[b - 1])) b--;
	string tr = in.substr(a, b - a), t;
	auto both = [&](const char* n, const string& want, string (*f)(const string&), void (*g)(string&)) {
		string r = f(in); string m = in; g(m);
		if (r != want || m != want) violate(n, string(n) + "(\"" + show(in) + "\") = \"" + show(r) + "\" / in place \"" + show(m) + "\", expected \"" + show(want) + "\"");
	};
	both("toLowerCase", lo, St::toLowerCase, St::toLowerCase);
	both("toUpperCase", up, St::toUpperCase, St::toUpperCase);
	both("toTittleCase", ti, St::toTittleCase, St::toTittleCase);
	both("trim", tr, St::trim, St::trim);
	mc::step(mc::hash_str(in)); mc::outcome(mc::hash_str(tr + "|" + ti)); mc::nontrivial();
	if (mc::tracing()) mc::note("unary on \"" + show(in) + "\"");
}
static vector<string> refsplit(const string& s, const string& t) {
	if (s.empty()) return {}; if (t.empty()) return {s};
	vector<string> r; size_t p = 0, m;
	while ((m = s.find(t, p)) != string::npos) { r.push_back(s.substr(p, m - p)); p = m + t.size(); }
	if (p < s.size()) r.push_back(s.substr(p));
	return r;
}
static void binary(const string& s, const string& p, const string& rep) {
	auto ctx = [&] { return "(\"" + show(s) + "\", \"" + show(p) + "\"" + ")"; };
	bool inc = false; for (size_t i = 0; i + p.size() <= s.size(); i++) if (!s.compare(i, p.size(), p)) inc = true;
	if (St::includes(s, p) != inc) violate("includes", "includes" + ctx());
	if (p.size() == 1 && St::includes(s, p[0]) != inc) violate("includes-char", "includes char" + ctx());
	if (St::includes(s, vector<string>{"\x01zz", p}) != inc || St::includes(s, vector<string>{p, "\x01zz"}) != inc || St::includes(s, vector<string>{})) violate("includes-list", "includes list" + ctx());
	bool sw = s.size() >= p.size() && !s.compare(0, p.size(), p), ew = s.size() >= p.size() && !s.compare(s.size() - p.size(), p.size(), p);
	if (St::startsWith(s, p) != sw) violate("startsWith", "startsWith" + ctx());
	if (St::endsWith(s, p) != ew) violate("endsWith", "endsWith" + ctx());
	auto rs = refsplit(s, p), sp = St::split(s, p);
	if (sp != rs) violate("split", "split" + ctx() + " = " + shv(sp) + ", expected " + shv(rs));
	if (p.size() == 1 && St::split(s, p[0]) != rs) violate("split-char", "split char" + ctx() + " = " + shv(St::split(s, p[0])));
	string j; for (size_t i = 0; i < rs.size(); i++) j += (i ? p : "") + rs[i];
	if (p.find('\0') == string::npos && St::join(sp, p.c_str()) != j) violate("join", "join(" + shv(sp) + ", \"" + show(p) + "\") = \"" + show(St::join(sp, p.c_str())) + "\"");
	size_t f = s.find(p); string r1 = s; if (f != string::npos) r1.replace(f, p.size(), rep);
	string q = St::replace(s, p, rep); string q2 = s; St::replace(q2, p, rep);
	if (!(q == r1 || (p.empty() && q == s)) || q2 != q) violate("replace", "replace" + ctx() + " with \"" + show(rep) + "\" = \"" + show(q) + "\"");
	string r2 = s;
	if (!p.empty()) { r2.clear(); size_t at = 0, m; while ((m = s.find(p, at)) != string::npos) { r2 += s.substr(at, m - at) + rep; at = m + p.size(); } r2 += s.substr(at); }
	q = St::replaceAll(s, p, rep); q2 = s; St::replaceAll(q2, p, rep);
	if ((!p.empty() && q != r2) || q != q2) violate("replaceAll", "replaceAll" + ctx() + " with \"" + show(rep) + "\" = \"" + show(q) + "\", expected \"" + show(r2) + "\"");
	mc::step(mc::hash_str(s, mc::hash_str(p, mc::hash_str(rep)))); mc::outcome(mc::hash_str(q + "|" + shv(sp)));
	if (inc) mc::nontrivial();
	if (mc::tracing()) mc::note("binary on " + ctx() + " replacement \"" + show(rep) + "\" -> \"" + show(q) + "\" split " + shv(sp));
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C32"; c.hang_s = 10;
	c.rule = "every subject up to length 7 over small alphabets times every pattern up to length 3 times replacements (including ones containing the pattern); texts of up to 1000 characters; every character for case mapping and trimming; non-trivial = pattern present";
	c.assumptions = {"only relative equality of characters matters beyond letters and white space (small alphabets suffice)", "splitting drops one empty trailing part, as the library has always done"};
	string all; for (int i = 0; i < 256; i++) all.push_back((char)i);
	std::vector<mc::Scenario> s;
	s.push_back({"unary-all-2", 0, [=] { unary(pickstr(all, 2)); }});
	s.push_back({"unary-6", 0, [=] { unary(pickstr(" aZ-\t", mc::thorough() ? 9 : 7)); }});
	s.push_back({"unary-trim", 0, [=] { unary(pickstr(" \r\n\tx\v", mc::thorough() ? 7 : 6)); }});
	s.push_back({"binary-ab", 0, [=] { auto t = pickstr("ab", mc::thorough() ? 10 : 8), p = pickstr("ab", 3); static const vector<string> R = {"", "a", "c", "ab", "aab", "bab"}; binary(t, p, pick(R)); }});
	s.push_back({"binary-abc", 0, [=] { auto t = pickstr(",ab", mc::thorough() ? 7 : 6), p = pickstr(",a", 2); static const vector<string> R = {"", ",", ",,", "a,"}; binary(t, p, pick(R)); }});
	s.push_back({"binary-nul", 0, [=] { auto t = pickstr(string("\0x\xff", 3), 5), p = pickstr(string("\0x\xff", 3), 2); binary(t, p, pickstr(string("\0y", 2), 1)); }});
	s.push_back({"binary-long-pattern", 0, [=] { auto t = pickstr("ab", 3), p = pickstr("ab", 6, 3); binary(t, p, "xy"); }});
	s.push_back({"long", 0, [=] { int n = mc::choose(80) * 13, k = mc::choose(4), w = mc::choose(5); string t; for (int i = 0; i < n; i++) t += i % (k + 2) == k ? ',' : (char)('a' + i % 3); string pad(w * 50, ' '); unary(pad + t + pad); static const vector<string> P = {",", "ab", "abc,", "zz"}; static const vector<string> R = {"", "-", ",,", "longer replacement"}; binary(t, P[k], pick(R)); if (n) binary(t, t.substr(n / 3, n / 2), "x"); binary(t + "a", t, "y"); }});
	s.push_back({"join", 0, [=] { int n = mc::choose(5); vector<string> v; string want; auto tok = pickstr(",-", 2); for (int i = 0; i < n; i++) { v.push_back(pickstr("a,", 2)); want += (i ? tok : "") + v.back(); } string r = St::join(v, tok.c_str()); if (r != want) violate("join", "join(" + shv(v) + ", \"" + tok + "\") = \"" + r + "\", expected \"" + want + "\""); mc::step(mc::hash_str(shv(v) + tok)); mc::outcome(mc::hash_str(r)); mc::nontrivial(); }});
	return mc::run(argc, argv, c, s);
}
