#include "core/http/http.hpp"
#include "seq.hpp"
#include <map>
#include <algorithm>
#include <memory>
using namespace seq;
using namespace Lambda::HTTP;
using mc::violate;
using std::string; using std::vector;
typedef std::map<string, vector<string>> Model;

static string shm(const Model& m) { string o; for (auto& e : m) { o += e.first + "=["; for (auto& v : e.second) o += v + ","; o += "] "; } return o; }
template <class C> static void same(const C& c, const Model& m, const string& hist) {
	static const vector<string> probe = {"a", "A", "ab", "aB", "AB", "x-y", "X-Y", "q", ""};
	string why;
	if (c.size() != m.size()) why = "size() = " + std::to_string(c.size());
	for (auto& k : probe) {
		auto it = m.find(lower(k)); bool h = it != m.end();
		if (c.has(k) != h) why = "has(" + k + ")";
		if (c.get(k) != (h && it->second.size() ? it->second[0] : "")) why = "get(" + k + ") = " + c.get(k);
		if (c.getAll(k) != (h ? it->second : vector<string>{})) why = "getAll(" + k + ")";
	}
	vector<std::pair<string, string>> e1, e2; for (auto& e : c.entries()) e1.push_back({lower(e.first), e.second});
	for (auto& e : m) for (auto& v : e.second) e2.push_back({e.first, v});
	if (e1.size() != e2.size()) why = "entries() has " + std::to_string(e1.size()) + " items";
	else { // order matters only among the values of one key
		std::stable_sort(e1.begin(), e1.end(), [](auto& a, auto& b) { return a.first < b.first; });
		std::stable_sort(e2.begin(), e2.end(), [](auto& a, auto& b) { return a.first < b.first; });
		if (e1 != e2) why = "entries() differ";
	}
	if (!why.empty()) violate("container", "after " + hist + ": " + why + "; should hold " + shm(m));
	mc::step(mc::hash_str(shm(m) + std::to_string(hist.size())));
}

template <class C> static void history(int depth) {
	C c[2]; Model m[2]; string hist; int cur = 0; int n = 1 + mc::choose(depth);
	static const vector<string> K = {"a", "A", "aB", "X-Y"};
	for (int i = 0; i < n; i++) {
		int op = mc::choose(13); string k, v = "v" + std::to_string(i);
		if (op < 4) { k = K[op]; c[cur].set(k, v); m[cur][lower(k)] = {v}; hist += "set(" + k + "," + v + ") "; }
		else if (op < 7) { k = K[op - 4]; c[cur].append(k, v); m[cur][lower(k)].push_back(v); hist += "append(" + k + "," + v + ") "; }
		else if (op < 10) { k = K[op - 6]; c[cur].del(k); m[cur].erase(lower(k)); hist += "del(" + k + ") "; }
		else if (op == 10) { c[1 - cur] = c[cur]; m[1 - cur] = m[cur]; cur = 1 - cur; hist += "copy-assign,switch "; }
		else if (op == 11) { C t(c[cur]); m[1 - cur] = m[cur]; c[1 - cur] = std::move(t); cur = 1 - cur; hist += "copy+move-assign,switch "; }
		else { C t(std::move(c[cur])); c[cur] = t; hist += "move-out-and-back "; }
		same(c[0], m[0], hist); same(c[1], m[1], hist);
	}
	mc::outcome(mc::hash_str(shm(m[0]) + shm(m[1]))); if (m[cur].size()) mc::nontrivial();
	if (mc::tracing()) mc::note(hist + "-> " + shm(m[0]) + "/ " + shm(m[1]));
}

static void init_list() {
	static const vector<string> K = {"A", " a ", "aB", "X-Y\t"};
	static const vector<string> V = {"1", " 2 ", ""};
	int n = mc::choose(4); Model m; string h = "init "; vector<KVpair> l;
	auto tr = [](string s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == string::npos) return string(); return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1); };
	for (int i = 0; i < n; i++) { auto k = pick(K), v = pick(V); l.push_back({k, v}); m[lower(tr(k))].push_back(tr(v)); h += k + "=" + v + "; "; }
	Headers c = n == 0 ? Headers(std::initializer_list<KVpair>{}) : n == 1 ? Headers({l[0]}) : n == 2 ? Headers({l[0], l[1]}) : Headers({l[0], l[1], l[2]});
	same(c, m, h); mc::outcome(mc::hash_str(h)); mc::nontrivial();
	if (mc::tracing()) mc::note(h);
}

static void refquery(const string& q, Model& m, bool& simple) {
	size_t p = 0;
	while (p <= q.size()) {
		size_t e = q.find('&', p); if (e == string::npos) e = q.size();
		string t = q.substr(p, e - p); p = e + 1;
		size_t s = t.find('=');
		if (s == string::npos || s == 0 || s + 1 == t.size()) continue; // keys without a value are not kept
		m[lower(t.substr(0, s))].push_back(t.substr(s + 1)); simple = true;
	}
}
static void query(const string& q) {
	Model m; bool any = false; refquery(q, m, any);
	string h = "query \"" + q + "\"";
	URLSearchParams a("?" + q); same(a, m, h);
	if (q.find('?') == string::npos) { URLSearchParams b(q); same(b, m, h + " without ?"); }
	URL u("http://h/p?" + q); same(u.searchParams, m, h + " in URL");
	if (u.pathname != "/p") violate("url", h + ": pathname " + u.pathname);
	string s = a.stringify(); Model m2; bool x; refquery(s, m2, x);
	if (m2 != m) violate("stringify", h + ": stringify() = \"" + s + "\"");
	mc::outcome(mc::hash_str(s)); if (any) mc::nontrivial();
	if (mc::tracing()) mc::note(h + " -> " + shm(m));
}
static void url() {
	static const vector<string> PR = {"http", "https", "ws"}, US = {"", "u:p@", "user:pa:ss@", "me@"}, HO = {"h", "example.com", "127.0.0.1", "[::1]", "[2001:db8::7]"},
		PO = {"", ":80", ":65535"}, PA = {"", "/", "/a", "/a/b.c", "/a@b:c", "//x"}, QU = {"", "?a=1", "?a=1&A=2", "?x-y=/z?w", "?q=a:b@c"}, FR = {"", "#f", "#", "#a?b/c#d"};
	auto pr = pick(PR); auto us = pick(US), ho = pick(HO), po = pick(PO), pa = pick(PA), qu = pick(QU), fr = pick(FR);
	string t = pr + "://" + us + ho + po + pa + qu + fr;
	string got, want, user, pass; size_t c = us.find(':');
	if (!us.empty()) { if (c != string::npos) { user = us.substr(0, c); pass = us.substr(c + 1, us.size() - c - 2); } else user = us.substr(0, us.size() - 1); }
	URL u; string err;
	if (throws([&] { u = URL(t); }, "URL", &err)) violate("url-parse", "URL(\"" + t + "\") throws " + err);
	Model m; bool any; if (qu.size()) refquery(qu.substr(1), m, any);
	auto desc = [](const URL& x, bool nohash) { return x.protocol + " | " + x.username + " | " + x.password + " | " + x.hostname + " | " + x.port + " | " + x.host + " | " + x.pathname + " | " + (nohash && x.hash == "#" ? "" : x.hash) + " | "; };
	want = pr + " | " + user + " | " + pass + " | " + ho + " | " + (po.size() ? po.substr(1) : "") + " | " + ho + po + " | " + (pa.size() ? pa : "/") + " | " + (fr == "#" ? "" : fr) + " | ";
	got = desc(u, true);
	if (got != want) violate("url-components", "URL(\"" + t + "\") has components " + got + " expected " + want);
	same(u.searchParams, m, "URL " + t);
	string h; if (throws([&] { h = u.href(); }, "href", &err)) violate("url-href", "href() of URL(\"" + t + "\") throws " + err);
	URL v; if (throws([&] { v = URL(h); }, "URL", &err)) violate("url-href", "href() of \"" + t + "\" = \"" + h + "\" does not parse: " + err);
	if (desc(v, true) != want) violate("url-href", "href() of \"" + t + "\" = \"" + h + "\", components " + desc(v, true));
	same(v.searchParams, m, "re-parsed " + h);
	mc::outcome(mc::hash_str(got)); mc::nontrivial();
	if (mc::tracing()) mc::note(t + " -> " + got + " -> " + h);
}
static void relative() {
	static const vector<string> PA = {"/", "/a", "/a/b", "/a//b", "/%20", "/a:b@c", "/a=b&c"}, QU = {"", "?", "?a=1", "?a=1&b=2", "?a=/x?y"}, FR = {"", "#z", "#z?a=3"};
	auto pa = pick(PA), qu = pick(QU), fr = pick(FR); string t = pa + qu + fr; URL u(t); Model m; bool any; if (qu.size()) refquery(qu.substr(1), m, any);
	if (u.pathname != pa || (fr.size() && u.hash != fr) || (!fr.size() && u.hash.size()) || u.host.size() || u.protocol.size()) violate("url-relative", "URL(\"" + t + "\"): pathname " + u.pathname + " hash " + u.hash);
	same(u.searchParams, m, "URL " + t); mc::nontrivial(); mc::outcome(mc::hash_str(t));
}
static void garbage() {
	string t = pickstr("h:/?#@[]&=", mc::thorough() ? 7 : 6); URL u; bool th = throws([&] { u = URL(t); (void)URLSearchParams(t).stringify(); }, "URL");
	if (!th) throws([&] { u.href(); }, "href");
	mc::step(mc::hash_str(t)); if (!th) mc::nontrivial(); mc::outcome(mc::hash_str(u.hostname + "|" + u.pathname));
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C29"; c.hang_s = 10;
	c.rule = "every history of set/append/del/copy/move up to depth 4 (thorough 5) on two containers with mixed-case keys, checked against a map after each operation; every query string of up to 5 tokens; every URL over a product of components; every short string over URL punctuation; texts without a scheme or host; up to 300 parameters, components of up to 500 characters; request objects over every constructor, copy and move; non-trivial = non-empty result";
	c.assumptions = {"query parameters without a value are not kept (as documented by the code)", "query components are not percent-decoded"};
	std::vector<mc::Scenario> s;
	s.push_back({"headers", 0, [] { history<Headers>(mc::thorough() ? 5 : 4); }});
	s.push_back({"params", 0, [] { history<URLSearchParams>(mc::thorough() ? 5 : 4); }});
	s.push_back({"init-list", 0, init_list});
	s.push_back({"query", 0, [] { static const vector<string> T = {"a", "A", "aB", "=", "&", "1", "?"}; query(picktok(T, mc::thorough() ? 7 : 6)); }});
	s.push_back({"query-pairs", 0, [] { static const vector<string> T = {"a=1", "A=2", "aB=3", "ab=4", "q=", "=5", "x-y=%20=", "q"}; int n = mc::choose(5); string q; for (int i = 0; i < n; i++) q += (i ? "&" : "") + pick(T); query(q); }});
	s.push_back({"url", 0, url});
	s.push_back({"url-relative", 0, relative});
	s.push_back({"many", 0, [] { int n = 1 + mc::choose(300), k = mc::choose(3); string q; for (int i = 0; i < n; i++) { string a = (i % 2 ? "Key" : "kEY") + std::to_string(k ? i % (7 * k) : i); q += (i ? "&" : "") + a + "=v" + std::to_string(i); } query(q); }});
	s.push_back({"long-parts", 0, [] { int n = mc::choose(40) * 13, w = mc::choose(5); string x = pattern(n, 2) , a; for (char c : x) a += (c >= 'a' && c <= 'z') ? c : 'k'; string host = w == 0 && n ? a : "h", path = w == 1 ? "/" + a + "/" + a : "/p", qk = w == 2 ? "K" + a : "k", qv = w == 3 ? a + "1" : "v", fr = w == 4 ? "#" + a : ""; if (fr == "#") fr = ""; URL u("http://" + host + path + "?" + qk + "=" + qv + fr); if (u.host != host || u.pathname != path || u.hash != fr || u.searchParams.get(lower(qk)) != qv) violate("url-long", "long URL component " + std::to_string(w) + " of " + std::to_string(n)); URL v(u.href()); if (v.host != host || v.pathname != path || v.hash != fr || v.searchParams.get(lower(qk)) != qv) violate("url-long", "href of long URL"); mc::nontrivial(); mc::step(mc::hash_str(u.href())); }});
	s.push_back({"requests", 0, [] { // request objects made by a program
		static const vector<string> U = {"http://u:p@h:8/p?a=1#f", "https://h", "/x/y?q=2&Q=3"}, M = {"GET", "POST", "DELETE", "PATCH"}, BD = {"", "x", string("\0\xff", 2), pattern(5000, 1)};
		auto t = pick(U), m = pick(M), b = pick(BD); int how = mc::choose(7), hd = mc::choose(3); Headers h; if (hd) h.append("X-A", "1"); if (hd == 2) h.append("x-a", "2"), h.set("Host", "z"); BodyBuffer bb(b); std::unique_ptr<Request> r; bool hasm = true, hash = true, hasb = true;
		switch (how) {
			case 0: r = std::make_unique<Request>(t); hasm = hash = hasb = false; break;
			case 1: r = std::make_unique<Request>(t, Method(m)); hash = hasb = false; break;
			case 2: r = std::make_unique<Request>(t, h); hasm = hasb = false; break;
			case 3: r = std::make_unique<Request>(t, Method(m), BodyBuffer(b)); hash = false; break;
			case 4: r = std::make_unique<Request>(t, Method(m), h, bb); break;
			case 5: { Request q(t, Method(m), h, bb); r = std::make_unique<Request>(q); q = Request("http://other/"); q.body = "other"; break; }
			case 6: { Request q(t, Method(m), h, bb); r = std::make_unique<Request>("http://other/?z=1", Method("PUT")); *r = std::move(q); break; }
		}
		bb = "later"; h.set("x-a", "later"); URL u(t); string hs; for (auto& e : r->headers.entries()) hs += e.first + "=" + e.second + ";"; string want; if (hash && hd) want = hd == 1 ? "x-a=1;" : "host=z;x-a=1;x-a=2;";
		if (r->url.pathname != u.pathname || r->url.host != u.host || r->url.username != u.username || r->url.password != u.password || r->url.searchParams.stringify() != u.searchParams.stringify() || r->url.hash != u.hash || (u.host.size() && r->url.href() != u.href())) violate("request", "a request made for " + t + " has URL " + r->url.pathname + " of " + r->url.host);
		if (r->method.toString() != (hasm ? m : "GET")) violate("request", "a request made for " + m + " says " + r->method.toString()); if (hs != want) violate("request", "a request made with headers " + want + " has " + hs); if (r->body.text() != (hasb ? b : "")) violate("request", "a request made with body " + show(b) + " has " + show(r->body.text()));
		mc::nontrivial(); mc::step(mc::path_hash()); mc::outcome(mc::hash_str(hs + m + t));
	}});
	s.push_back({"url-literal", 0, [] { // a character string gives the same URL, and what is no URL is refused
		static const vector<string> T = {"http://u:p@h:8/p?a=1#f", "https://h", "ws://[::1]:9", "/x/y?q=2", "/"}, BAD = {"", "h", "h/p", "example.com:80/a", "http:/h/p", "http//h", "?a=1", "#f", "http://", "http:///p", "http://:80/", "https://u:p@/x", "http://?a=1"};
		int k = mc::choose(T.size() + BAD.size()); mc::step(k); mc::nontrivial(); mc::outcome(k);
		if (k < (int)T.size()) { auto d = [](const URL& x) { return x.protocol + "|" + x.username + "|" + x.password + "|" + x.hostname + "|" + x.port + "|" + x.host + "|" + x.pathname + "|" + x.hash + "|" + x.searchParams.stringify(); }; URL a(T[k]), b(T[k].c_str()); if (d(a) != d(b)) violate("url-literal", "URL(const char*) of " + T[k] + " is " + d(b)); if (T[k][0] == '/') { string h; if (!throws([&] { h = b.href(); }, "href")) violate("url-href", "href() of a URL without a host gives " + h); } return; }
		auto& t = BAD[k - T.size()]; URL u; if (!throws([&] { u = URL(t); }, "URL")) violate("url-refused", "URL(\"" + t + "\") was accepted with host " + u.host + " and path " + u.pathname);
	}});
	s.push_back({"url-garbage", 0, garbage});
	return mc::run(argc, argv, c, s);
}
