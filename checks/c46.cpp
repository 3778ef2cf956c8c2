// C46: setting the system clock changes nothing but dates
#include "ws_common.hpp"
#include <core/sse/sse.hpp>
#include <extra/vfs/vfs.hpp>
#include <extra/kvstorage/kvstorage.hpp>
#include <core/polyfill/polyfill.hpp>
#include <filesystem>
#include <unistd.h>
using namespace wsx;
using std::string;
static string dir;
struct Step { const char* name; std::vector<int64_t> ms; };
static const int64_t H = 3600000, Y = 365 * 24 * H;
static const std::vector<Step> STEPS = {{"back 1 s", {-1000}}, {"forward 1 s", {1000}}, {"back 6 s", {-6000}}, {"forward 6 s", {6000}}, {"forward 17 s", {17000}}, {"back an hour", {-H}}, {"forward an hour", {H}}, {"back 20 years", {-20 * Y}}, {"forward 60 years", {60 * Y}}, {"forward an hour and back", {H, -H}}, {"back an hour and forward", {-H, H}}, {"forward 4 s thrice", {4000, 4000, 4000}}};

// ---- what happened, with the time (of the clock nobody sets) of each event
static string record; static int64_t t0;
static void ev(const string& s) { Rt g; record += "@" + std::to_string(sched::now_ms() - t0) + " " + s + "\n"; }
static string date() { time_t t = time(nullptr); struct tm m; gmtime_r(&t, &m); static const char* D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; char b[64]; snprintf(b, sizeof b, "%s, %02d %s %d %02d:%02d:%02d GMT", D[m.tm_wday], m.tm_mday, M[m.tm_mon], m.tm_year + 1900, m.tm_hour, m.tm_min, m.tm_sec); return b; }
static void response(const Resp& r) { string s = std::to_string(r.status) + " " + r.reason; for (auto& h : r.headers) { auto k = seq::lower(h.first); if (k == "date") { if (h.second != date()) mc::violate("date", "a response sent at " + date() + " is dated " + h.second); } else if (k != "x-request-id") s += "; " + k + "=" + h.second; } ev("response " + s + " | " + mc::show(r.body, 200)); }
static void await(Client& c, int64_t ms, const char* what) { Resp r; if (c.next(r, false, ms)) response(r); else ev(string(what) + (net::server_closed(c.c) ? ": closed" : ": nothing") + (c.rest().empty() ? "" : " after " + mc::show(c.rest()))); }
static void bytes(Client& c, const char* what, int64_t until) { while (sched::now_ms() - t0 < until) { bool to = false; string s; { Rt g; s = net::recv(c.c, until - (sched::now_ms() - t0), &to); } if (s.empty()) { ev(string(what) + (to ? ": still open" : ": end")); return; } ev(string(what) + ": " + mc::show(s, 200)); } }

static HandlerResponse handle(const HTTP::Request& q, const RequestContext& x) {
	string p; { Rt g; p = string(q.url.pathname.data(), q.url.pathname.size()); }
	if (p == "/ws") { auto ws = x.upgrateToWebsocket(); try { while (ws.awaitMessage()) { auto m = ws.nextMessage(); { Rt g; ev("handler got " + m.text()); } ws.sendMessage(m); } } catch (const std::exception& e) { Rt g; ev(string("handler sees ") + e.what()); } { Rt g; ev("websocket handler ends"); } return {}; }
	if (p == "/push") { auto ws = x.upgrateToWebsocket(); try { for (int i = 0; i < 30; i++) { ws.sendMessage(string("tick ") + std::to_string(i)); Rt g; sched::sleep_ms(1733); } } catch (const std::exception&) { Rt g; ev("push fails"); } return {}; }
	if (p == "/sse") { auto w = x.startEventStream(); int i = 0; while (w.connected() && i < 40) { try { SSE::EventMessage m; m.data = "event " + std::to_string(i++); w.push(m); } catch (const std::exception&) { break; } Rt g; sched::sleep_ms(913); } { Rt g; ev("stream handler ends"); } return {}; }
	if (p == "/work") { Rt g; sched::sleep_ms(9000); }
	if (p == "/throw") throw std::runtime_error("no");
	return HTTP::Response(200, {{"content-type", "image/x"}}, "for " + p);
}
static string get(const string& p) { return "GET " + p + " HTTP/1.1\r\nHost: h\r\n\r\n"; }
static void at(int64_t t) { int64_t d = t - (sched::now_ms() - t0); if (d > 0) sched::sleep_ms(d); }
static ServerConfig conf() { auto c = config(); c.service.connectionTimeouts.receive = 15000; c.service.connectionTimeouts.send = 8000; c.loglevel.requests = c.loglevel.transportEvents = true; return c; }
struct Script { const char* name; int64_t length; std::function<void()> f; };
static void ends(Server& sv) { ev("stopping"); sv.shutdown(); sv.await(); ev("stopped"); sv.destroy(); ev("gone"); }
static const std::vector<Script>& scripts() {
	static const std::vector<Script> S = {
		{"websocket-echo", 32000, [] { Server sv(handle, conf()); { wsx::Conn c; c.autopong = true; c.open(); Mask m = MASKS_1(); size_t seen = 0; for (int i = 0; i < 8; i++) { c.send(frame(0x81, "message " + std::to_string(i), &m)); c.until([] { return false; }, 4001); for (; seen < c.rd.frames.size(); seen++) ev("frame " + std::to_string(c.rd.frames[seen].op) + " " + c.rd.frames[seen].data); if (c.rd.closed || net::server_closed(c.c)) { ev("closed"); break; } } c.send(frame(0x88, string("\x03\xe8", 2), &m)); ev(c.finish(3000) ? "closed in the end" : "open"); c.close(); } sched::sleep_ms(500); ends(sv); }},
		{"websocket-silent", 34000, [] { Server sv(handle, conf()); { Client c; c.send(upgrade()); bytes(c, "silent", 34000); c.close(); } sched::sleep_ms(500); ends(sv); }},
		{"websocket-late-pongs", 34000, [] { Server sv(handle, conf()); { Client c; c.send(upgrade()); Mask m = MASKS_1(); bytes(c, "a", 11500); c.send(frame(0x8a, "ping/lambda/ws", &m)); bytes(c, "b", 29500); c.send(frame(0x8a, "ping/lambda/ws", &m)); bytes(c, "c", 34000); c.close(); } sched::sleep_ms(500); ends(sv); }},
		{"websocket-push", 26000, [] { Server sv(handle, conf()); { Client c; c.send("GET /push" + upgrade().substr(7)); bytes(c, "pushed", 26000); c.close(); } net::wait_closed(0, 5000); ends(sv); }},
		{"keep-alive", 30000, [] { Server sv(handle, conf()); { Client c; c.send(get("/a")); await(c, 1000, "a"); at(7001); c.send(get("/throw")); await(c, 1000, "throw"); at(20005); c.send(get("/b") + get("/c")); await(c, 1000, "b"); await(c, 1000, "c"); bytes(c, "idle", 45000); c.close(); } ends(sv); }},
		{"slow-requests", 30000, [] { Server sv(handle, conf()); { Client c, d; string w = "POST /p HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\nbody"; for (int i = 0; i < 10; i++) { sched::sleep_ms(1301); c.send(w.substr(i * w.size() / 10, (i + 1) * w.size() / 10 - i * w.size() / 10)); } await(c, 1000, "slow"); sched::sleep_ms(57); d.send(w.substr(0, w.size() - 2)); bytes(d, "stalled", 40000); c.close(); d.close(); } ends(sv); }},
		{"slow-reader", 24000, [] { net::opt.send_capacity = 40; Server sv(handle, conf()); { Client c; c.send(get("/a")); sched::sleep_ms(3000); { Rt g; ev(net::server_closed(c.c) ? "closed" : "open"); } if (!net::wait_closed(c.c, 20000)) ev("kept"); else ev("dropped"); c.close(); } net::opt.send_capacity = 1u << 30; ends(sv); }},
		{"event-stream", 26000, [] { Server sv(handle, conf()); { Client c; c.send(get("/sse")); string s; while (sched::now_ms() - t0 < 26000) { string x; { Rt g; x = net::recv(c.c, 26000 - (sched::now_ms() - t0)); } if (x.empty()) break; size_t h = x.find("HTTP/1.1"); if (h == string::npos) ev(mc::show(x, 100)); } c.close(); } sched::sleep_ms(2000); ends(sv); }},
		{"shutdown", 12000, [] { Server sv(handle, conf()); Client idle, busy, half; wsx::Conn w; w.open(); idle.send(get("/a")); await(idle, 1000, "idle"); busy.send(get("/work")); half.send("GET /x HT"); at(6003); ends(sv); bytes(busy, "busy", 30000); bytes(idle, "idle", 30000); idle.close(); busy.close(); half.close(); w.close(); }},
		{"files", 9000, [] { string d; { Rt g; d = dir; std::filesystem::create_directories(d); }
			auto look = [](VFS::Interface& v, const char* what) { string s = what; std::vector<VFS::VirtualFileInfo> l; { Lib k; l = v.listAll(); } Rt g; std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.name < b.name; }); for (auto& f : l) { std::optional<VFS::VirtualFile> r; std::optional<VFS::VirtualFileInfo> i; { Lib k; r = v.read(f.name); i = v.fileInfo(f.name); } if (!r || !i) mc::violate("lost-file", "file " + f.name + " is listed but cannot be read"); if (i->modified != f.modified || i->created != f.created || r->modified != f.modified || r->created != f.created) mc::violate("times", "the times of " + f.name + " differ between list, information and content"); s += "; " + f.name + "=" + r->text(); } ev(s); return l; };
			std::optional<VFS::Interface> v, w; { Lib k; v.emplace(); v->write("a.txt", string("one")); } auto before = look(*v, "start"); sched::sleep_ms(3001); time_t now = time(nullptr); { Lib k; v->write("b.txt", string("two")); v->write("a.txt", string("three")); } auto after = look(*v, "later");
			for (auto& f : after) { if (f.modified != now) mc::violate("modified", "a file written at " + std::to_string(now) + " says it was modified at " + std::to_string(f.modified)); if (f.name == "a.txt" && f.created != before.at(0).created) mc::violate("created", "rewriting a file changes when it was created"); }
			sched::sleep_ms(3001); bool ok = true; try { Lib k; v->saveSnapshot(d + "/s.tar.gz"); v->move("b.txt", "c.txt"); w.emplace(); w->loadSnapshot(d + "/s.tar.gz"); } catch (const std::exception& e) { Rt g; ok = false; ev(string("snapshot fails: ") + e.what()); }
			if (ok) { look(*v, "moved"); auto l = look(*w, "loaded"); for (size_t i = 0; i < l.size() && i < after.size(); i++) if (l[i].modified != after[i].modified) mc::violate("snapshot-times", l[i].name + " was modified at " + std::to_string(after[i].modified) + " but at " + std::to_string(l[i].modified) + " once loaded"); }
			{ Lib k; v.reset(); w.reset(); } sched::sleep_ms(1001);
			{ string f = d + "/kv"; { Rt g; std::filesystem::remove(f); } { Lib k; Lambda::Storage::KVStorage::StorageInterface s(f); s.setItem("k", "1"); s.setItem("gone", "x"); { Rt g; sched::sleep_ms(1001); } s.setItem("k", "2"); s.removeItem("gone"); } string got; { Lib k; Lambda::Storage::KVStorage::StorageInterface s(f); got = s.getItem("k") + "/" + std::to_string(s.size()) + (s.hasItem("gone") ? "/gone" : ""); Rt g; ev("store " + got); } }
			{ Rt g; std::error_code e; std::filesystem::remove_all(d, e); } }},
	};
	return S;
}
static string play(int s, int k, int64_t when, string& log) {
	record.clear(); log.clear(); auto o = quiet(); o.max_points = 20000000; o.max_virtual_ms = 1ll << 40; net::reset(); services = 0; sched::capture_output(&log);
	sched::run(o, [&] { Rt g; t0 = sched::now_ms();
		if (k >= 0 && when < 0) sched::step_clock(STEPS[k].ms[0]);
		services++; // this thread is not one of the server's
		std::optional<std::thread> th; th.emplace([&] { Rt g; if (when >= 0) sched::sleep_ms(when); for (size_t i = when < 0; i < (k < 0 ? 1 : STEPS[k].ms.size()); i++) { if (i) sched::sleep_ms(2500); if (k >= 0) sched::step_clock(STEPS[k].ms[i]); } services--; });
		scripts()[s].f(); th->join(); });
	sched::capture_output(nullptr); net::check_closed();
	// identifiers in the log are random, and so is the order of what happens at the same time
	for (size_t p = 0; (p = log.find_first_of("0123456789abcdef", p)) != string::npos;) { size_t e = log.find_first_not_of("0123456789abcdef", p); if (e == string::npos) e = log.size(); if (e - p == 8) { log.replace(p, 8, "*"); e = p + 1; } p = e; }
	std::vector<string> ls = Lambda::Strings::split(log, "\n"); std::sort(ls.begin(), ls.end()); log.clear(); for (auto& l : ls) log += l + "\n";
	string r = record; size_t p = 0; while ((p = r.find("date: ", p)) != string::npos) { size_t e = r.find("\\r", p); r.replace(p, (e == string::npos ? r.size() : e) - p, "*"); } p = 0; while ((p = r.find("x-request-id: ", p)) != string::npos) { size_t e = r.find("\\r", p); r.replace(p, (e == string::npos ? r.size() : e) - p, "*"); }
	return r;
}
static void check(int s) {
	static std::map<int, std::pair<string, string>> ref; auto& S = scripts()[s]; int gap = mc::thorough() ? 250 : 1000;
	int k = mc::choose(STEPS.size()); int64_t when = (int64_t)mc::choose(S.length / gap + 2) * gap - gap; if (when >= 0) when += 3 + (when / gap % 7) * 31; string log;
	int key = s * 2 + detached;
	if (!ref.count(key)) { string l, r = play(s, -1, 0, l); ref[key] = {r, l}; }
	string got = play(s, k, when, log); auto differ = [&](const string& a, const string& b, const char* what) { if (a == b) return; size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) d++; size_t f = a.rfind('\n', d ? d - 1 : 0); f = f == string::npos ? 0 : f + 1; f = std::min({f, a.size(), b.size()}); mc::violate(string("clock-") + S.name, string(what) + " with the clock set " + STEPS[k].name + " at " + std::to_string(when) + " ms is " + mc::show(a.substr(f), 200) + " instead of " + mc::show(b.substr(f), 200)); };
	differ(got, ref[key].first, "what happens"); differ(log, ref[key].second, "the log");
	mc::step(mc::mix(mc::hash_str(got), k * 131 + when)); mc::outcome(mc::hash_str(got)); mc::nontrivial();
	if (mc::tracing()) mc::note("clock set " + string(STEPS[k].name) + " at " + std::to_string(when) + " ms:\n" + got);
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C46"; cfg.hang_s = 60; cfg.warmup = false;
	cfg.rule = "12 ways of setting the system clock (seconds, hours, decades, forwards, backwards, several times) x every second (thorough: quarter of a second) of 10 scripts of up to 34 s (WebSocket echo, silent and late peers, pushes; keep-alive, slow and stalled requests, slow readers, event streams, shutdown; virtual files, snapshots and the key-value store); the bytes every client gets, the calls of the handlers, the log and the times of all of them by a clock nobody sets are compared with those of an undisturbed run; dates are compared with the system clock";
	cfg.assumptions = {"the clock stays between 1970 and 2242, the range of the archive format"};
	dir = string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/c46_"; cfg.worker_init = [] { dir += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc; for (size_t i = 0; i < scripts().size(); i++) sc.push_back({scripts()[i].name, 0, [i] { check(i); }});
	both_modes(sc, {"websocket", "keep", "slow", "event"});
	return mc::run(argc, argv, cfg, sc);
}
