// C23: virtual file system operations and snapshots are thread-safe
#include "sched.hpp"
#include "tar_common.hpp"
#include <extra/vfs/vfs.hpp>
#include <memory>
#include <algorithm>
#include <filesystem>
using sched::Rt; using sched::Lib; using Lambda::VirtualFilesystem;
typedef std::map<std::string, std::string> Model;
static std::string dir; static const char* EXT = ".tar";
enum { WA, WA2, WB, RMA, MVAB, MVBA, RDA, RDB, STATS, LIST, INFO, SAVE, LOAD, LOADBAD, SAVEBAD, NOPS };
static const char* NAME[] = {"write(a,1)", "write(A,333)", "write(b,22)", "remove(a)", "move(a,b)", "move(b,a)", "read(a)", "read(b)", "stats", "list", "info(a)", "save", "load(a=44,c=5)", "load(a=44,damage)", "save(no such directory)"};
struct Ev { int op; long call = 0, ret = 0; std::string res; };
static std::string show(const Model& m) { std::string s = "{"; for (auto& e : m) s += mc::show(e.first, 12) + "=" + mc::show(e.second, 8) + " "; return s + "}"; }
static size_t total(const Model& m) { size_t n = 0; for (auto& e : m) n += e.first.size() + e.second.size(); return n; }
static std::string stat(size_t f, size_t t) { return std::to_string(f) + " files, " + std::to_string((long)t) + " bytes"; }
// what each operation does and answers; loads are split into the writes of their files
enum { LW_A = 100, LW_C };
static bool apply(Model& m, const Ev& e) {
	switch (e.op) {
		case WA: m["a"] = "1"; return true; case WA2: m["a"] = "333"; return true; case WB: m["b"] = "22"; return true; case RMA: m.erase("a"); return true; case LW_A: m["a"] = "44"; return true; case LW_C: m["c"] = "5"; return true;
		case MVAB: case MVBA: { std::string f = e.op == MVAB ? "a" : "b", t = e.op == MVAB ? "b" : "a"; bool has = m.count(f); if (e.res != (has ? "moved" : "not found")) return false; if (has) { std::string d = m[f]; m.erase(f); m[t] = d; } return true; }
		case RDA: return e.res == (m.count("a") ? m["a"] : "-"); case RDB: return e.res == (m.count("b") ? m["b"] : "-"); case STATS: return e.res == stat(m.size(), total(m));
		case LIST: { std::string s; for (auto& x : m) s += x.first + ":" + std::to_string(x.second.size()) + " "; return e.res == s; } case INFO: return e.res == (m.count("a") ? std::to_string(m["a"].size()) : "-"); case SAVE: return e.res == show(m); default: return true;
	}
}
static bool lin(const std::vector<std::vector<Ev>>& ev, std::vector<size_t>& at, const Model& m, const Model& fin) {
	long minret = 1l << 60; bool done = true; for (size_t t = 0; t < ev.size(); t++) if (at[t] < ev[t].size()) { minret = std::min(minret, ev[t][at[t]].ret); done = false; } if (done) return m == fin;
	for (size_t t = 0; t < ev.size(); t++) if (at[t] < ev[t].size() && ev[t][at[t]].call < minret) { Model c = m; if (!apply(c, ev[t][at[t]])) continue; at[t]++; if (lin(ev, at, c, fin)) return true; at[t]--; }
	return false;
}
static std::string copy(const std::string& s) { Rt g; return std::string(s.data(), s.size()); }
static std::string call(VirtualFilesystem* v, int op, int id, const std::string& ld) { // in library context
	switch (op) {
		case WA: v->write("a", std::string("1")); return std::string(); case WA2: { std::vector<uint8_t> b(3, '3'); v->write("A", b); return std::string(); } case WB: v->write("b", std::string("22")); return std::string(); case RMA: v->remove("a"); return std::string();
		case MVAB: case MVBA: { bool ok = false; try { v->move(op == MVAB ? "a" : "b", op == MVAB ? "b" : "a"); ok = true; } catch (const std::exception&) {} Rt g; return std::string(ok ? "moved" : "not found"); }
		case RDA: case RDB: { auto r = v->read(op == RDA ? "a" : "b"); if (!r.has_value()) { Rt g; return std::string("-"); } Rt g; return std::string((const char*)r->buffer.data(), r->buffer.size()); }
		case STATS: { auto s = v->stats(); Rt g; return stat(s.totalFiles, s.totalSize); } case LIST: { auto l = v->listAll(); Rt g; Model m; for (auto& i : l) { if (m.count(std::string(i.name.data(), i.name.size()))) mc::violate("list", "a file is listed twice"); m[std::string(i.name.data(), i.name.size())] = std::to_string(i.size); } std::string s; for (auto& x : m) s += x.first + ":" + x.second + " "; return s; }
		case INFO: { auto i = v->fileInfo("a"); Rt g; return i.has_value() ? std::to_string(i->size) : std::string("-"); }
		case SAVE: {
			std::string p; { Rt g; p = dir + "/save" + std::to_string(id) + EXT; } bool ok = false; std::string why; try { std::string lp(p.data(), p.size()); v->saveSnapshot(lp); ok = true; } catch (const std::exception& e) { Rt g; why = e.what(); }
			Rt g; if (!ok) mc::violate("save-failed", "saving failed: " + why); std::string raw = tar::read_file(p), t = raw; if (strcmp(EXT, ".tar") && !tar::gunzip(raw, t, why)) mc::violate("image", "the saved image is damaged: " + why); std::map<std::string, tar::Entry> es; why = tar::parse(t, es); if (why.size()) mc::violate("image", "the saved image is damaged: " + why); Model m; for (auto& e : es) m[e.first] = e.second.data; return show(m);
		}
		case LOAD: case LOADBAD: { bool ok = false; try { std::string lp(ld.data(), ld.size()); v->loadSnapshot(lp); ok = true; } catch (const std::exception&) {} Rt g; if (ok != (op == LOAD)) mc::violate("load", op == LOAD ? "loading a sound image failed" : "loading a damaged image did not report it"); return std::string(ok ? "ok" : "failed"); }
		case SAVEBAD: { std::string p; { Rt g; p = dir + "/none/x" + EXT; } bool ok = false; try { std::string lp(p.data(), p.size()); v->saveSnapshot(lp); ok = true; } catch (const std::exception&) {} Rt g; if (ok) mc::violate("save-unreported", "saving into a missing directory did not report it"); return std::string(); }
	}
	return std::string();
}
static Model contents(VirtualFilesystem* v) {
	Model m; Lib l; auto li = v->listAll(); for (auto& i : li) { auto r = v->read(i.name); Rt g; if (!r.has_value()) mc::violate("lost", "a listed file cannot be read"); m[copy(i.name)] = std::string((const char*)r->buffer.data(), r->buffer.size()); } auto s = v->stats(); Rt g; if (stat(s.totalFiles, s.totalSize) != stat(m.size(), total(m))) mc::violate("totals", "afterwards the totals are " + stat(s.totalFiles, s.totalSize) + " but the files are " + show(m)); return m;
}
static void body(const std::vector<std::vector<int>>& prog, int prior, bool early, const char* x) {
	EXT = x;
	std::string img = dir + "/img" + EXT, bad = dir + "/bad" + EXT; static bool made = false; static const char* ext; if (!made || ext != EXT) { made = true; ext = EXT; std::filesystem::create_directories(dir); tar::Entry a, c; a.name = "a"; a.data = "44"; c.name = "c"; c.data = "5"; std::string t = tar::build({a, c}), d = tar::build({a}, 0) + std::string(512, 'x'); bool z = strcmp(EXT, ".tar"); tar::write_file(img, z ? tar::gz(t, 6) : t); tar::write_file(bad, z ? tar::gz(d, 6) : d); }
	sched::Options o; o.prune = true; o.early_timers = early;
	sched::run(o, [&] {
		Rt g; sched::quiet(true); VirtualFilesystem* v; Model start; { Lib l; v = new VirtualFilesystem; if (prior & 1) v->write("a", std::string("0")); if (prior & 2) v->write("b", std::string("00")); if (prior & 4) v->write("k", std::string("kkk")); } if (prior & 1) start["a"] = "0"; if (prior & 2) start["b"] = "00"; if (prior & 4) start["k"] = "kkk"; sched::quiet(false);
		std::vector<std::vector<Ev>> ev(prog.size()); static long clk; clk = 0; std::vector<int> t; int id = 0;
		for (size_t i = 0; i < prog.size(); i++) for (int op : prog[i]) ev[i].push_back({op});
		auto user = [&](std::vector<Ev>* e, int base) { int n = base; for (auto& x : *e) { x.call = ++clk; sched::point("call", nullptr); std::string r; { Lib l; r = call(v, x.op, n++, x.op == LOADBAD ? bad : img); } x.res = r; sched::point("return", nullptr); x.ret = ++clk; } };
		for (size_t i = 1; i < prog.size(); i++) { auto* e = &ev[i]; int b = (id += 10); t.push_back(sched::spawn("user", [&user, e, b] { Rt g; user(e, b); })); }
		user(&ev[0], 0); for (int x : t) sched::join(x);
		if (sched::live_threads()) mc::violate("thread-left", "a snapshot thread is still running");
		sched::quiet(true); Model fin = contents(v); std::string h; std::vector<std::vector<Ev>> ex(ev.size()); for (size_t i = 0; i < ev.size(); i++) for (auto& x : ev[i]) { if (x.op == LOAD || x.op == LOADBAD) { Ev y = x; y.op = LW_A; y.res = ""; ex[i].push_back(y); y.op = LW_C; if (x.op == LOAD) ex[i].push_back(y); } else ex[i].push_back(x); h += "T" + std::to_string(i) + ": " + NAME[x.op] + (x.res.empty() ? "" : "=" + x.res) + "[" + std::to_string(x.call) + ".." + std::to_string(x.ret) + "] "; }
		std::vector<size_t> at(ex.size()); bool ok = lin(ex, at, start, fin);
		if (!ok && h.find("damage") != std::string::npos) { for (auto& x : ex) { std::vector<Ev> y; for (auto& e : x) if (e.op != LW_A) y.push_back(e); x = y; } at.assign(ex.size(), 0); ok = lin(ex, at, start, fin); } // a failed load may have loaded the file in front of the damage or not
		if (!ok) mc::violate("not-linearizable", "no order of the operations explains " + h + "ending in " + show(fin) + " from " + show(start));
		{ Lib l; delete v; } mc::outcome(mc::mix(mc::hash_str(show(fin)), mc::hash_str(h))); mc::nontrivial();
	});
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C23"; cfg.warmup = true; bool th = mc::thorough();
	cfg.rule = "all schedules with up to 4 (thorough 8) deviations of one snapshot operation (save, load, load of a damaged image, save that cannot start) with its worker thread, also with timeouts that fire early; with up to 3 (thorough 5) of a save or load against one other thread with each of 13 operations and (2, thorough 4) pairs of them, two saves, two loads, a load and a save; 2 (thorough 3) with two other threads; without snapshots every pair of operations from every initial state (4, thorough 8), pairs of pairs (2, thorough 4), three threads (3, thorough 5); plain and compressed images; every load and store checked for races, every call/return history checked for linearizability (a load counts as the writes of its files), saved images decoded by an independent reader, totals compared";
	cfg.assumptions = {"the file system object is created and destroyed while nobody uses it", "file system calls are not scheduling points", "two concurrent saves use different files"};
	dir = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/vfs"; cfg.worker_init = [] { dir += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc; auto add = [&](std::vector<std::vector<int>> p, int prior, int b, bool early = false, const char* x = ".tar") { std::string n; for (auto& t : p) { n += n.empty() ? "" : "/"; for (int x : t) n += std::to_string(x) + "."; } sc.push_back({n + "prior" + std::to_string(prior) + (early ? ".early" : "") + x, b, [=] { body(p, prior, early, x); }}); };
	for (int op : {(int)SAVE, (int)LOAD, (int)LOADBAD, (int)SAVEBAD}) for (int pr : {0, 1, 7}) { add({{op}}, pr, th ? 8 : 4); add({{op}}, pr, th ? 6 : 3, true); }
	for (int op : {(int)SAVE, (int)LOAD, (int)LOADBAD}) add({{op}}, 1, th ? 6 : 3, false, ".tgz");
	const std::vector<int> ALL = {WA, WA2, WB, RMA, MVAB, MVBA, RDA, RDB, STATS, LIST, INFO}, MUT = {WA, WB, RMA, MVAB, WA2}, RD = {RDA, STATS, LIST, INFO, RDB};
	for (int s : {(int)SAVE, (int)LOAD}) { for (int op : ALL) for (int pr : {0, 3, 5}) add({{s}, {op}}, pr, th ? 5 : 3); for (int a : MUT) for (int b : {RMA, WB, MVBA, STATS, LIST}) add({{s}, {a, b}}, 1 + (a + b) % 7, th ? 4 : 2); }
	for (int op : ALL) add({{LOADBAD}, {op}}, 3, th ? 4 : 2);
	for (int pr : {1, 6}) { add({{SAVE}, {SAVE}}, pr, th ? 4 : 2); add({{SAVE}, {LOAD}}, pr, th ? 4 : 2); add({{LOAD}, {LOAD}}, pr, th ? 4 : 2); add({{SAVE}, {SAVEBAD}}, pr, th ? 4 : 2); add({{LOADBAD}, {LOAD}}, pr, th ? 4 : 2); }
	for (int s : {(int)SAVE, (int)LOAD}) for (int a : {WB, RMA, MVAB}) for (int b : {RDA, LIST, STATS, MVBA}) add({{s}, {a}, {b}}, 3, th ? 3 : 2);
	for (size_t i = 0; i < ALL.size(); i++) for (size_t j = i; j < ALL.size(); j++) for (int pr : {0, 1, 3}) add({{ALL[i]}, {ALL[j]}}, pr, th ? 8 : 4);
	for (int a : MUT) for (int b : {WA2, RMA, MVBA}) for (int c : MUT) for (int d : RD) add({{a, b}, {c, d}}, (a + b + c + d) % 4, th ? 4 : 2);
	for (int a : MUT) for (int b : {MVAB, RMA, WA2}) for (int c : {STATS, LIST, MVBA}) add({{a}, {b}, {c}}, 1 + a % 3, th ? 5 : 3);
	return mc::run(argc, argv, cfg, sc);
}
