#include "core/http/http.hpp"
#include "seq.hpp"
#include <map>
#include <algorithm>
using namespace seq;
using namespace Lambda::HTTP;
using mc::violate;
using std::string; using std::vector;

struct Model { std::map<string, string> data; std::map<string, string> lines; };  // key -> value, key -> attributes ("?" = deletion)
static string sh1(const Model& m) { string o = "{"; for (auto& e : m.data) o += e.first + "=" + e.second + ";"; o += "|"; for (auto& e : m.lines) o += e.first + ":" + e.second + ";"; return o + "}"; }

static bool expired(const string& line, const string& key) {
	// name=; ...; some attribute expires the cookie: Max-Age<=0 or Expires in the past in a standard date form
	vector<string> p; size_t a = 0; while (a <= line.size()) { size_t b = line.find("; ", a); if (b == string::npos) b = line.size(); p.push_back(line.substr(a, b - a)); a = b + 2; }
	if (p.empty() || p[0].substr(0, p[0].find('=')) != key || p[0].find('=') == string::npos) return false;
	for (size_t i = 1; i < p.size(); i++) {
		string l = lower(p[i]);
		if (l.rfind("max-age=", 0) == 0 && atoi(l.c_str() + 8) <= 0) return true;
		if (l.rfind("expires=", 0) == 0) {
			int d, y, H, M, S; char mon[8], w[8];
			string v = p[i].substr(8);
			if (sscanf(v.c_str(), "%3[A-Za-z], %d %3[A-Za-z] %d %d:%d:%d GMT", w, &d, mon, &y, &H, &M, &S) == 7 && y < 2000) return true;
		}
	}
	return false;
}
static void same(const Cookies& c, const Model& m, const string& h) {
	static const vector<string> probe = {"a", "A", "sid", "SID", "Sid", "zz"};
	string why;
	if (c.size() != m.data.size()) why = "size";
	for (auto& k : probe) { auto it = m.data.find(lower(k)); bool has = it != m.data.end(); if (c.has(k) != has) why = "has(" + k + ")"; if (c.get(k) != (has ? it->second : "")) why = "get(" + k + ")=" + c.get(k); }
	std::map<string, string> e; for (auto& x : c.entries()) e[lower(x.first)] = x.second; if (e != m.data) why = "entries()";
	auto l = c.serialize();
	if (l.size() != m.lines.size()) why = "serialize() gives " + std::to_string(l.size()) + " lines";
	else for (auto& w : m.lines) {
		int n = 0; for (auto& x : l) {
			if (lower(x.substr(0, x.find('='))) != w.first) continue;
			n++;
			if (w.second == "?") { if (!expired(x, w.first)) why = "deletion line \"" + x + "\" does not expire the cookie"; }
			else if (x.substr(x.find('=') == string::npos ? x.size() : x.find('=')) != w.second) why = "line \"" + x + "\" instead of \"" + w.first + w.second + "\"";
		}
		if (n != 1) why = std::to_string(n) + " lines for " + w.first;
	}
	if (!why.empty()) { string all; for (auto& x : l) all += " [" + x + "]"; violate("cookies", "after " + h + ": " + why + "; model " + sh1(m) + "; lines" + all); }
	mc::step(mc::hash_str(sh1(m)));
}
static void history(int depth) {
	static const vector<string> START = {"", "a=1", "SID=x=y; a=2", "a=1; b2=zz; sid=3", "Sid=\"q\""};
	const string st = pick(START); Cookies c[2]; Model m[2]; string h = "\"" + st + "\""; int cur = 0;
	if (st.size()) c[0] = Cookies(st);
	size_t p = 0; while (p < st.size()) { size_t e = st.find("; ", p); if (e == string::npos) e = st.size(); string t = st.substr(p, e - p); p = e + 2; m[0].data[lower(t.substr(0, t.find('=')))] = t.substr(t.find('=') + 1); }
	same(c[0], m[0], h);
	int n = mc::choose(depth + 1); static const vector<string> K = {"a", "A", "sid", "Sid"};
	for (int i = 0; i < n; i++) {
		int op = mc::choose(13); string v = "v" + std::to_string(i);
		if (op < 3) { auto& k = K[op]; c[cur].set(k, v); m[cur].data[lower(k)] = v; m[cur].lines[lower(k)] = "=" + v; h += " set(" + k + ")"; }
		else if (op < 6) { auto& k = K[op - 3]; c[cur].set(k, v, {"Secure", {"Path", "/p"}, {"HttpOnly"}}); m[cur].data[lower(k)] = v; m[cur].lines[lower(k)] = "=" + v + "; Secure; Path=/p; HttpOnly"; h += " setp(" + k + ")"; }
		else if (op < 9) { auto& k = K[op - 5]; bool had = m[cur].data.erase(lower(k)); c[cur].del(k); if (had) m[cur].lines[lower(k)] = "?"; else if (m[cur].lines.count(lower(k)) == 0 && c[cur].serialize().size() == m[cur].lines.size() + 1) m[cur].lines[lower(k)] = "?"; h += " del(" + k + ")"; }
		else if (op == 9) { c[1 - cur] = c[cur]; m[1 - cur] = m[cur]; cur = 1 - cur; h += " copy-assign"; }
		else if (op == 10) { Cookies t(c[cur]); c[cur].set("a", "other"); m[1 - cur] = m[cur]; m[cur].data["a"] = "other"; m[cur].lines["a"] = "=other"; c[1 - cur] = std::move(t); cur = 1 - cur; h += " copy,change-original,move-assign"; }
		else if (op == 11) { Cookies t(std::move(c[cur])); c[cur] = t; h += " move-out-and-back"; }
		else { Response r; r.setCookies(c[cur]); auto a = r.headers.getAll("set-cookie"); auto b = c[cur].serialize(); if (a != b) violate("response", "after " + h + ": response carries " + std::to_string(a.size()) + " Set-Cookie headers instead of " + std::to_string(b.size())); h += " to-response"; }
		same(c[0], m[0], h); same(c[1], m[1], h);
	}
	mc::outcome(mc::hash_str(sh1(m[0]) + sh1(m[1]))); if (n) mc::nontrivial();
	if (mc::tracing()) mc::note(h + " -> " + sh1(m[0]));
}
static void parse() {
	static const vector<string> K = {"a", "A1", "sid", "__Host-x", "Z"}, V = {"1", "x=y", "\"q\"", "a%20b", "=", "v,w", "a:b/c?d"};
	int n = mc::choose(4); string s; std::map<string, string> want;
	for (int i = 0; i < n; i++) { auto k = pick(K), v = pick(V); if (want.count(lower(k))) return; want[lower(k)] = v; s += (i ? "; " : "") + k + "=" + v; }
	Request r; if (n) r.headers.set("Cookie", s);
	auto c = r.getCookies();
	if (c.size() != want.size()) violate("parse", "Cookie: " + s + " gives " + std::to_string(c.size()) + " cookies");
	for (auto& w : want) { string up = w.first; for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32; if (!c.has(w.first) || c.get(w.first) != w.second || c.get(up) != w.second) violate("parse", "Cookie: " + s + ": " + w.first + " = \"" + c.get(w.first) + "\""); }
	if (c.serialize().size()) violate("parse", "reading cookies queues Set-Cookie lines");
	mc::step(mc::hash_str(s)); mc::outcome(mc::hash_str(s)); if (n) mc::nontrivial();
	if (mc::tracing()) mc::note("Cookie: " + s);
}
static void garbage() {
	string t = picktok({"a", "=", ";", "; ", " ", "b"}, mc::thorough() ? 7 : 6);
	throws([&] { Cookies c(t); (void)c.entries(); (void)c.serialize(); (void)c.get("a"); }, "Cookies");
	mc::step(mc::hash_str(t));
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C30"; c.hang_s = 10;
	c.rule = "from five received Cookie headers, every history of set (plain / with attributes), del, copy, move and transfer to a response up to depth 4, checked after each operation against a model; 150 cookies at once; every Cookie header of up to 3 cookies over key and value alphabets, and of up to 4 pieces of which some are not name=value; every list of up to 3 attributes from 10; every list of up to 4 cookies put straight into a response; non-trivial = at least one operation or cookie";
	c.assumptions = {"cookie names differing only in letter case are one cookie in this library", "clients separate cookies by '; ' (RFC 6265) and an empty cookie value cannot be told from an absent cookie"};
	std::vector<mc::Scenario> s;
	s.push_back({"history", 0, [] { history(mc::thorough() ? 5 : 4); }});
	s.push_back({"parse", 0, parse});
	s.push_back({"many", 0, [] { // many cookies, long values
		int n = 1 + mc::choose(150), L = mc::choose(4); string hdr; Model m; auto val = [&](int i) { return "v" + std::to_string(i) + string(L * 700 * (i % 3 == 1), 'x'); }; for (int i = 0; i < n; i++) { string k = "Ck" + std::to_string(i); hdr += (i ? "; " : "") + k + "=" + val(i); m.data[lower(k)] = val(i); }
		Request r; r.headers.set("Cookie", hdr); auto c = r.getCookies(); same(c, m, "many"); for (int i = 0; i < n; i += 3) { string k = "ck" + std::to_string(i), v = val(i + 1); c.set(k, v); m.data[k] = v; m.lines[k] = "=" + v; } for (int i = 1; i < n; i += 3) { string k = "CK" + std::to_string(i); c.del(k); m.data.erase(lower(k)); m.lines[lower(k)] = "?"; } same(c, m, "many"); Cookies d(c); same(d, m, "many copy"); mc::nontrivial(); mc::outcome(n * 4 + L);
	}});
	s.push_back({"direct", 0, [] { // cookies put straight into a response
		static const vector<Lambda::HTTP::KVpair> P = {{"a", "1"}, {"Sid", "x=y"}, {"zz", "\"q\""}, {"", "v"}, {"a", "2"}, {"flag", "0; Path=/"}};
		int n = 1 + mc::choose(4); vector<Lambda::HTTP::KVpair> v; vector<string> want; for (int i = 0; i < n; i++) { v.push_back(pick(P)); if (v[i].first.size()) want.push_back(lower(v[i].first) + "=" + v[i].second); }
		Response r; int pre = mc::choose(2); if (pre) { r.headers.append("Set-Cookie", "first=1"); want.insert(want.begin(), "first=1"); }
		if (n == 1) r.setCookies({v[0]}); else if (n == 2) r.setCookies({v[0], v[1]}); else if (n == 3) r.setCookies({v[0], v[1], v[2]}); else r.setCookies({v[0], v[1], v[2], v[3]});
		auto h = r.headers.getAll("set-cookie"); for (auto& x : h) x = lower(x.substr(0, x.find('='))) + x.substr(std::min(x.size(), x.find('='))); std::sort(h.begin(), h.end()); std::sort(want.begin(), want.end());
		if (h != want) { string s; for (auto& x : h) s += "[" + x + "]"; violate("direct", "the response carries " + s); } mc::nontrivial(); mc::step(mc::path_hash()); mc::outcome(h.size());
	}});
	s.push_back({"odd-pieces", 0, [] { // pieces that are not name=value cannot hide the cookies around them
		static const vector<string> P = {"a=1", "Sid=x=y", "zz=\"q\"", "flag", "=v", "e=", "=", ""};
		int n = 1 + mc::choose(mc::thorough() ? 5 : 4); string h; std::map<string, string> want;
		for (int i = 0; i < n; i++) { auto p = pick(P); h += (i ? "; " : "") + p; size_t e = p.find('='); if (e != string::npos && e && e + 1 < p.size()) want[lower(p.substr(0, e))] = p.substr(e + 1); }
		Request r; r.headers.set("Cookie", h); auto c = r.getCookies();
		for (auto& w : want) if (!c.has(w.first) || c.get(w.first) != w.second) violate("parse", "Cookie: " + h + ": " + w.first + " = \"" + c.get(w.first) + "\"");
		for (auto& e : c.entries()) if (!want.count(lower(e.first)) && (lower(e.first) != "e" && lower(e.first) != "flag" || e.second.size())) violate("parse", "Cookie: " + h + ": invented " + e.first + " = \"" + e.second + "\"");
		if (c.serialize().size()) violate("parse", "reading cookies queues Set-Cookie lines");
		mc::step(mc::hash_str(h)); mc::outcome(mc::hash_str(h)); mc::nontrivial(); if (mc::tracing()) mc::note("Cookie: " + h);
	}});
	s.push_back({"attributes", 0, [] { // every list of up to three attributes in every way to write one
		struct Open : Cookies { using P = CookieParams; }; using P = Open::P; static const vector<std::pair<string, P>> A = {{"; Secure", P("Secure")}, {"; HttpOnly", P(string("HttpOnly"))}, {"; Path=/a b", P({"Path", "/a b"})}, {"; Max-Age=0", P({"Max-Age", "0"})}, {"; SameSite=Lax", P({string("SameSite"), string("Lax")})}, {"; Partitioned", P({"Partitioned"})}, {"; Expires=Wed, 21 Oct 2099 07:28:00 GMT", P({"Expires", "Wed, 21 Oct 2099 07:28:00 GMT"})}, {"", P("")}, {"", P({"", "v"})}, {"; Domain=", P({"Domain", ""})}};
		int n = mc::choose(4); vector<int> k; string want = "=v"; for (int i = 0; i < n; i++) { k.push_back(mc::choose(10)); want += A[k[i]].first; } Cookies c; if (mc::choose(2)) c.set("Id", "old", {"Secure", {"Path", "/old"}}); auto a = [&](int i) -> const P& { return A[k[i]].second; };
		if (n == 0) c.set("id", "v", {}); else if (n == 1) c.set("id", "v", {a(0)}); else if (n == 2) c.set("id", "v", {a(0), a(1)}); else c.set("id", "v", {a(0), a(1), a(2)});
		auto check = [&](const Cookies& x, const char* how) { auto l = x.serialize(); string got = l.size() == 1 ? l[0].substr(std::min(l[0].size(), l[0].find('='))) : ""; string alt = want; for (size_t p; (p = alt.find("; Domain=")) != string::npos;) alt.erase(p + 8, 1); if (l.size() != 1 || lower(l[0].substr(0, 2)) != "id" || (got != want && got != alt)) violate("attributes", string(how) + ": " + std::to_string(l.size()) + " lines, [" + (l.empty() ? "" : l[0]) + "] instead of id" + want); };
		check(c, "set"); Cookies d(c); check(d, "copy"); Cookies e; e = std::move(d); check(e, "move"); Response r; r.setCookies(e); auto h = r.headers.getAll("set-cookie"); if (h != e.serialize()) violate("response", "the response carries other Set-Cookie lines than the cookie set"); mc::step(mc::hash_str(want)); mc::outcome(mc::hash_str(want)); mc::nontrivial();
	}});
	s.push_back({"garbage", 0, garbage});
	return mc::run(argc, argv, c, s);
}
