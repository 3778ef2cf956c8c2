// C24: the static file server serves exactly the files under its root
#include "seq.hpp"
#include "fsim.hpp"
#include <extra/staticserver/staticserver.hpp>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
using namespace seq; namespace fs = std::filesystem;
static std::string base, root; static bool made = false;
struct File { std::string data, mime; };
static std::map<std::string, File> inside;        // path below the root, without leading slash -> file
static std::map<std::string, std::string> outside;
static std::string LONG(255, 'n');
static void put(const std::string& p, const std::string& d) { fs::create_directories(fs::path(p).parent_path()); std::ofstream f(p, std::ios::binary); f.write(d.data(), d.size()); }
static void setup() {
	if (made) return; made = true; fs::remove_all(base); root = base + "/pub.dir/root";
	auto in = [&](const std::string& p, const std::string& mime, const std::string& d = "") { inside[p] = {d.empty() && p != "empty.txt" ? "content of " + p : d, mime}; put(root + "/" + p, inside[p].data); };
	auto out = [&](const std::string& p) { outside[p] = "SECRET at " + p; put(base + "/" + p, outside[p]); };
	in("index.html", "text/html"); in("a.txt", "text/plain"); in("empty.txt", "text/plain"); in("noext", ""); in("dir/index.html", "text/html"); in("dir/index.htm", "text/html"); in("dir/f.css", "text/css"); in("dir/a.txt", "text/plain"); in("dir/deep/x/y.json", "application/json"); in("old/index.htm", "text/html"); in("v1.2/index.html", "text/html"); in("trap/index.html/inner.txt", "text/plain"); in("sp ace.html", "text/html"); in("\xc3\xa9.html", "text/html"); in("FILE.HTML", "text/html"); in("many.dots.in.txt", "text/plain"); in("%2e%2e/odd.txt", "text/plain"); in("...", ""); in(".dot", ""); in("..b", ""); in("b..", ""); in("c./d.txt", "text/plain"); in(LONG.substr(0, 250) + ".html", "text/html"); in("secret", ""); in("bin.bin", "", pattern(300000, 1)); in("zeros.bin", "", std::string(5000, '\0')); in("crlf.txt", "text/plain", "a\r\nb\x1a\xff\n"); in("<script>.html", "text/html"); in("a.txt.bak", ""); in("q?x=1.html", "text/html"); in("h#h.html", "text/html"); fs::create_directories(root + "/nothing");
	for (int n : {1, 4095, 4096, 8190, 8191, 8192, 65536}) in("size" + std::to_string(n) + ".txt", "text/plain", pattern(n, 0));
	out("secret.txt"); out("index.html"); out("a.txt"); out("pub.dir/secret.txt"); out("pub.dir/index.html"); out("pub.dir/index.htm"); out("pub.dir/rootsecret.txt"); out("pub.dir/root.txt"); out("pub.dir/root2/index.html"); out("pub.dir/dir/index.html"); out("dir/f.css"); out("pub.dir/secret/index.html");
}
static std::string q(const std::string& s) { return "\"" + mc::show(s, 80) + "\""; }
static std::string mime(const Lambda::HTTP::Response& r) { return r.headers.get("content-type"); }
// lexical resolution of a path: the components below the root; false when a component contains something a plain path has not,
// or when "up" steps are mixed with empty or single-dot steps (which implementations resolve in different ways)
static bool plain(const std::string& p, std::vector<std::string>& comps, bool& slash) {
	std::string s = p; for (auto& c : s) if (c == '\\') c = '/'; slash = s.empty() || s.back() == '/'; bool ok = true, up = false, odd = false; std::string cur; s += '/'; size_t at = 0;
	for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c != '/') { cur += c; continue; } at++; if (cur == "..") up = true; if (cur == "." || (cur.empty() && at > 1 && i + 1 < s.size())) odd = true; if (cur.empty() || cur == ".") { if (cur == ".") slash = true; } else if (cur == "..") { if (comps.size()) comps.pop_back(); slash = true; } else { if (cur.back() == '.' || cur.find('\0') != std::string::npos) ok = false; comps.push_back(cur); slash = false; } cur.clear(); }
	if (s.size() >= 2 && s[s.size() - 2] == '/') slash = true; return ok && !(up && odd);
}
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& c : v) s += (s.empty() ? "" : "/") + c; return s; }
static void check(const std::string& p, const Lambda::HTTP::Response& r, bool must_find) {
	std::string body = S(r.body.buffer()); int code = r.status.code(); mc::step(mc::mix(mc::hash_str(body), code)); mc::outcome(mc::mix(mc::hash_str(body), code));
	for (auto& o : outside) if (body.find(o.second) != std::string::npos) mc::violate("outside", "the path " + q(p) + " gave the file " + o.first + " from outside the root");
	if (code != 200) { if (code != 404) mc::violate("status", "the path " + q(p) + " gave status " + std::to_string(code)); for (auto& f : inside) if (f.second.data.size() > 12 && body.find(f.second.data) != std::string::npos) mc::violate("404-content", "the path " + q(p) + " gave 404 with the content of " + f.first); if (must_find) mc::violate("not-found", "the path " + q(p) + " gave 404"); return; }
	const std::string* hit = nullptr; std::vector<std::string> comps; bool slash; bool ok = plain(p, comps, slash); std::string want = join(comps);
	auto match = [&](const std::string& n) { auto f = inside.find(n); if (f == inside.end() || f->second.data != body) return false; if (f->second.mime.size() && mime(r) != f->second.mime) mc::violate("mime", "the path " + q(p) + " gave the file " + n + " as " + q(mime(r))); hit = &f->first; return true; };
	if (ok) { // the path designates one file or directory
		std::string pre = want.empty() ? "" : want + "/"; if (inside.count(want)) { if (!match(want)) mc::violate("wrong-content", "the path " + q(p) + " gave something else than the file " + q(want) + ": " + std::to_string(body.size()) + " bytes " + q(body.substr(0, 40))); }
		else if (inside.count(pre + "index.html")) { if (!match(pre + "index.html")) mc::violate("wrong-index", "the path " + q(p) + " did not give the index file " + q(pre + "index.html")); }
		else if (inside.count(pre + "index.htm")) { if (!match(pre + "index.htm")) mc::violate("wrong-index", "the path " + q(p) + " did not give the index file " + q(pre + "index.htm")); }
		else mc::violate("wrong-file", "the path " + q(p) + " gave a file although there is none: " + q(body.substr(0, 40)));
	} else { for (auto& f : inside) if (f.second.data == body && match(f.first)) break; if (!hit) mc::violate("invented", "the path " + q(p) + " gave " + std::to_string(body.size()) + " bytes which are no file of the root: " + q(body.substr(0, 40))); }
	mc::nontrivial();
}
static std::unique_ptr<Lambda::StaticServer> server(const std::string& r) { std::unique_ptr<Lambda::StaticServer> s; std::string why; if (throws([&] { s = std::make_unique<Lambda::StaticServer>(r); }, "StaticServer", &why)) mc::violate("startup", "a server for " + q(r) + " does not start: " + why); return s; }
static void serve(Lambda::StaticServer& s, const std::string& p, bool must_find, bool both = false) {
	check(p, s.serve(p), must_find); if (both) { Lambda::HTTP::Request req; req.url.pathname = p; check(p, s.serve(req), must_find); }
}
static Lambda::StaticServer& shared() { static std::unique_ptr<Lambda::StaticServer> s; if (!s) s = server(root); return *s; }
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C24"; bool th = mc::thorough(); cfg.leak_check = false;
	cfg.rule = "every path of up to 5 (thorough 7) tokens over 11 tokens (slash, backslash, single and double dots, names of files and directories inside and outside the root), of up to 4 (5) over 20 tokens with encodings, NUL, over-long and dotted names, of up to 7 (9) characters over / . \\ and the letter of a file; every byte as a file name of one and in a path; every file by its plain path, with leading slash or without, and by every insertion of one redundant step; every spelling of the root (relative, trailing slash, dots, current directory); file sizes around the stream buffer; missing permissions, exhausted descriptors and every failing file operation";
	cfg.assumptions = {"the files do not change while they are served", "there are no symbolic links in the root", "a name whose last character is a dot, or which contains a backslash, is not a plain path"};
	base = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/www"; cfg.worker_init = [] { base += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc;
	static const std::vector<std::string> T1 = {"/", "\\", ".", "..", "a.txt", "dir", "secret.txt", "index.html", "root2", "old", "f.css"};
	static const std::vector<std::string> T2 = {"/", "..", "dir", "a.txt", "../", "..\\", "%2e%2e", "%2f", std::string("\0", 1), "...", "....//", "c.", "~", "noext", "secret", "..b", "b..", "rootsecret.txt", LONG + "n", "//", ":"};
	sc.push_back({"tokens", 0, [=] { setup(); serve(shared(), picktok(T1, th ? 7 : 5), false); }});
	sc.push_back({"slashed", 0, [=] { setup(); static const std::vector<std::string> C = {"", ".", "..", "dir", "deep", "x", "a.txt", "index.html", "secret.txt", "pub.dir", "root"}; int n = 1 + mc::choose(th ? 6 : 5); std::string p; int sep = mc::choose(2); for (int i = 0; i < n; i++) p += (sep && i % 2 ? "\\" : "/") + pick(C); serve(shared(), p, false); }});
	sc.push_back({"odd-tokens", 0, [=] { setup(); serve(shared(), picktok(T2, th ? 5 : 4), false); }});
	sc.push_back({"characters", 0, [=] { setup(); serve(shared(), pickstr("/.\\d", th ? 9 : 8), false); }});
	sc.push_back({"bytes", 0, [] { setup(); char a = (char)mc::choose(256), b = (char)mc::choose(256); int k = mc::choose(4); std::string s{a, b}; serve(shared(), k == 0 ? s : k == 1 ? "/" + s + "/secret.txt" : k == 2 ? "/dir/" + s + "/a.txt" : "/a.txt" + s, false); }});
	sc.push_back({"files", 0, [] {
		setup(); std::vector<std::string> F; for (auto& f : inside) F.push_back(f.first); std::string f = pick(F), p; int k = mc::choose(9); std::vector<std::string> c; bool sl; bool plainname = plain(f, c, sl) && f.find('\\') == std::string::npos; size_t cut = f.rfind('/'); std::string d = cut == std::string::npos ? "" : f.substr(0, cut + 1), n = cut == std::string::npos ? f : f.substr(cut + 1);
		switch (k) { case 0: p = "/" + f; break; case 1: p = f; break; case 2: p = "//" + d + "/" + n; break; case 3: p = "/./" + d + "./" + n; break; case 4: p = "/nothing/../" + f; break; case 5: p = "/" + d + "zzz/../" + n; break; case 6: p = "/../../" + f; break; case 7: p = "\\" + f; break; case 8: p = "/dir/deep/../../" + f; break; }
		serve(shared(), p, plainname && n[0] != '.' , true);
	}});
	sc.push_back({"directories", 0, [] { // served by their index files; without a trailing slash when there is no dot in the name
		setup(); static const std::vector<std::pair<std::string, std::string>> D = {{"", "index.html"}, {"dir", "dir/index.html"}, {"old", "old/index.htm"}, {"v1.2", "v1.2/index.html"}, {"nothing", ""}, {"trap", ""}, {"dir/deep", ""}, {"secret", "secret"}}; auto& d = pick(D); static const std::vector<std::string> X = {"", "/", "//", "/.", "/./", "/x/../"}; auto x = pick(X); int lead = mc::choose(2); std::string p = (lead ? "/" : "") + d.first + x; bool must = d.second.size() && d.second != "secret" && (x == "/" || x == "//" || x == "/./" || x == "/x/../" || (x == "" && d.first != "v1.2")); if (d.first.empty() && !lead && x != "" && x[0] != '/') must = false;
		auto r = shared().serve(p); check(p, r, must); if (must && S(r.body.buffer()) != inside[d.second].data) mc::violate("wrong-index", "the directory " + q(p) + " did not give " + d.second); if (d.second.empty() && r.status.code() != 404) mc::violate("no-index", "the directory " + q(p) + " without an index file gave status " + std::to_string(r.status.code()));
	}});
	sc.push_back({"roots", 0, [] {
		setup(); int k = mc::choose(10); static const std::vector<std::string> P = {"/a.txt", "/", "/dir", "/dir/", "/../secret.txt", "/../../secret.txt", "/v1.2", "/dir/deep/x/y.json", "/noext", "/../root2/", "/../root/a.txt", "/root/../../a.txt", "/..", "", "/../pub.dir/secret.txt", "..\\..\\secret.txt"}; std::string r, back = fs::current_path().string();
		switch (k) { case 0: r = root; break; case 1: r = root + "/"; break; case 2: fs::current_path(base); r = "pub.dir/root"; break; case 3: fs::current_path(base); r = "./pub.dir/root/"; break; case 4: fs::current_path(root); r = "."; break; case 5: fs::current_path(root); r = "./"; break; case 6: fs::current_path(root + "/dir"); r = ".."; break; case 7: fs::current_path(root + "/dir"); r = "../"; break; case 8: r = root + "/dir/../"; break; case 9: r = root + "\\"; break; }
		auto s = server(r); int i = mc::choose((int)P.size()); serve(*s, P[i], i < 4 || i == 7 || i == 8, true); fs::current_path(back);
	}});
	sc.push_back({"bad-roots", 0, [] { setup(); static const std::vector<std::string> R = {"missing", "a.txt", "a.txt/", "", std::string(300, 'x')}; auto r = pick(R); bool th = throws([&] { Lambda::StaticServer s(r.empty() ? r : root + "/" + r); }, "StaticServer"); if (!th && r.size()) mc::violate("bad-root", "a server for the root " + q(r) + " which is no directory starts"); mc::step(mc::hash_str(r)); mc::outcome(th); mc::nontrivial(); }});
	sc.push_back({"gone", 0, [] { // the working directory disappeared, descriptors are exhausted, the file may not be read
		setup(); int k = mc::choose(3), f = mc::choose(4); static const std::vector<std::string> P = {"/a.txt", "/", "/dir/f.css", "/missing"}; std::string back = fs::current_path().string(); auto s = server(root);
		if (k == 0) { std::string d = base + "/gone"; fs::create_directories(d); fs::current_path(d); fs::remove(d); serve(*s, P[f], f < 3); fs::current_path(back); }
		if (k == 1) { std::vector<int> fd; struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &lim); int x; while ((x = open("/dev/null", O_RDONLY)) >= 0) fd.push_back(x); auto r = s->serve(P[f]); for (int y : fd) close(y); setrlimit(RLIMIT_NOFILE, &old); check(P[f], r, false); serve(*s, P[f], f < 3); }
		if (k == 2) { std::string p = root + "/a.txt"; uid_t u = geteuid(); if (u == 0) { chmod(p.c_str(), 0); if (seteuid(65534) == 0) { auto r = s->serve(P[f]); (void)!seteuid(0); chmod(p.c_str(), 0644); check(P[f], r, false); } chmod(p.c_str(), 0644); } serve(*s, P[f], f < 3); }
	}});
	sc.push_back({"faults", 0, [] { // every file operation fails once
		setup(); static bool inst = false; if (!inst) { inst = true; fsim::install(root); } static const std::vector<std::string> P = {"/a.txt", "/bin.bin", "/dir", "/size8192.txt", "/empty.txt"}; auto p = pick(P); int at = mc::choose(48), how = mc::choose(3), seen = 0; bool hit = false;
		fsim::start([&](fsim::Kind k, const std::string&, size_t n) -> long { if (k == fsim::CLOSE || seen++ != at) return 0; if (how == 2 && (k != fsim::READ || n < 2)) return 0; hit = true; return how == 0 ? -EIO : how == 1 ? -EACCES : (long)n / 2; });
		auto r = shared().serve(p); fsim::stop(); check(p, r, !hit || how == 2);
	}});
	return mc::run(argc, argv, cfg, sc);
}
