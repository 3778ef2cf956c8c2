// C19: the key-value store is linearizable
#include "sched.hpp"
#include "seq.hpp"
#include <extra/kvstorage/kvstorage.hpp>
#include <map>
#include <memory>
#include <unistd.h>
#include <algorithm>
using sched::Rt; using sched::Lib; using Lambda::Storage::KVStorage::StorageInterface;
typedef std::map<std::string, std::string> Model;
static std::string db;
enum { SETA, SETB, SETA2, REMA, CLEAR, GETA, GETB, HASA, SIZE, NOPS };
static const char* NAME[] = {"set(a,1)", "set(b,2)", "set(a,3)", "remove(a)", "clear", "get(a)", "get(b)", "has(a)", "size"};
struct Ev { int op; long call = 0, ret = 0; std::string res; };
static std::string model_apply(Model& m, int op) {
	switch (op) { case SETA: m["a"] = "1"; return ""; case SETB: m["b"] = "2"; return ""; case SETA2: m["a"] = "3"; return ""; case REMA: m.erase("a"); return ""; case CLEAR: m.clear(); return ""; case GETA: return m.count("a") ? m["a"] : "-"; case GETB: return m.count("b") ? m["b"] : "-"; case HASA: return m.count("a") ? "1" : "0"; default: return std::to_string(m.size()); }
}
static std::string show(const Model& m) { std::string s = "{"; for (auto& e : m) s += e.first + "=" + e.second + " "; return s + "}"; }
static bool lin(std::vector<Ev>& e, std::vector<char>& used, Model m, size_t n, const Model& fin) {
	if (n == e.size()) return m == fin;
	long minret = 1l << 60; for (size_t i = 0; i < e.size(); i++) if (!used[i]) minret = std::min(minret, e[i].ret);
	for (size_t i = 0; i < e.size(); i++) if (!used[i] && e[i].call < minret) { Model c = m; if (model_apply(c, e[i].op) != e[i].res) continue; used[i] = 1; if (lin(e, used, c, n + 1, fin)) return true; used[i] = 0; }
	return false;
}
static std::string call(StorageInterface* s, int op) { // runs in library context
	auto res = [](const std::string& v) { Rt g; return std::string(v.data(), v.size()); };
	switch (op) {
		case SETA: s->setItem("a", "1"); return std::string(); case SETB: s->setItem("b", "2"); return std::string(); case SETA2: s->setItem("a", "3"); return std::string(); case REMA: s->removeItem("a"); return std::string(); case CLEAR: s->clear(); return std::string();
		case GETA: { auto v = s->getItem("a"); if (v.empty()) return std::string("-"); return res(v); } case GETB: { auto v = s->getItem("b"); if (v.empty()) return std::string("-"); return res(v); }
		case HASA: return std::string(s->hasItem("a") ? "1" : "0"); default: { size_t n = s->size(); Rt g; return std::to_string(n); }
	}
}
static Model contents(StorageInterface* s) { Model m; std::string v; { Lib l; v = call(s, GETA); } if (v != "-") m["a"] = v; { Lib l; v = call(s, GETB); } if (v != "-") m["b"] = v; { Lib l; v = call(s, SIZE); } if (v != std::to_string(m.size())) mc::violate("size", "afterwards size() is " + v + " but the store holds " + show(m)); return m; }
static void body(const std::vector<std::vector<int>>& prog, int prior) {
	unlink(db.c_str()); sched::Options o; o.prune = true;
	sched::run(o, [&] {
		Rt g; sched::quiet(true); StorageInterface* s; { Lib l; s = new StorageInterface(db); if (prior) { s->setItem("a", "0"); if (prior > 1) s->setItem("b", "0"); } } sched::quiet(false);
		Model start; if (prior) start["a"] = "0"; if (prior > 1) start["b"] = "0";
		std::vector<std::vector<Ev>> ev(prog.size()); static long clk; clk = 0; std::vector<int> t;
		for (size_t i = 0; i < prog.size(); i++) { for (int op : prog[i]) ev[i].push_back({op}); }
		for (size_t i = 0; i < prog.size(); i++) { auto* e = &ev[i]; t.push_back(sched::spawn("user", [=] { Rt g; for (auto& x : *e) { x.call = ++clk; sched::point("call", nullptr); std::string r; { Lib l; r = call(s, x.op); } x.res = r; sched::point("return", nullptr); x.ret = ++clk; } })); }
		for (int x : t) sched::join(x);
		sched::quiet(true); Model fin = contents(s); std::string h; std::vector<Ev> all; for (size_t i = 0; i < ev.size(); i++) for (auto& x : ev[i]) { all.push_back(x); h += "T" + std::to_string(i) + ": " + NAME[x.op] + (x.res.empty() ? "" : "=" + x.res) + "[" + std::to_string(x.call) + ".." + std::to_string(x.ret) + "] "; }
		std::vector<char> used(all.size()); if (!lin(all, used, start, 0, fin)) mc::violate("not-linearizable", "no order of the operations explains " + h + "ending in " + show(fin) + " from " + show(start));
		{ Lib l; delete s; s = new StorageInterface(db); } Model again = contents(s); if (again != fin) mc::violate("reopened-differs", "after reopening the store holds " + show(again) + " instead of " + show(fin) + "; " + h); { Lib l; delete s; }
		mc::outcome(mc::mix(mc::hash_str(show(fin)), mc::hash_str(h))); mc::nontrivial();
	});
	unlink(db.c_str());
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C19"; cfg.warmup = true; bool th = mc::thorough();
	cfg.rule = "all schedules with up to 4 (thorough 6; 3 and 4 for larger programs) deviations of 2 threads with one operation each (every pair of 9 operations, from 3 initial states), 2 threads with two operations each (every combination of mutations and reads on colliding keys), 3 threads with one each; every load and store checked for races, every call/return history checked for linearizability, the reopened store compared";
	cfg.assumptions = {"the store is opened and destroyed while nobody uses it", "file system calls are not scheduling points"};
	db = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/kv"; cfg.worker_init = [] { db += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc; auto add = [&](std::vector<std::vector<int>> p, int prior, int b) { std::string n; for (auto& t : p) { n += n.empty() ? "" : "/"; for (int x : t) n += std::to_string(x); } sc.push_back({n + ".prior" + std::to_string(prior), b, [=] { body(p, prior); }}); };
	for (int a = 0; a < NOPS; a++) for (int b = a; b < NOPS; b++) for (int pr = 0; pr < 3; pr++) add({{a}, {b}}, pr, th ? 6 : 4);
	const std::vector<int> M = {SETA, SETB, REMA, CLEAR}, R = {SETA2, GETA, GETB, HASA, SIZE};
	for (int a : M) for (int b : {SETA, SETB, REMA, CLEAR, GETA}) for (int c : R) for (int d : {GETA, SIZE, HASA, REMA}) add({{a, b}, {c, d}}, (a + b + c + d) % 3, th ? 4 : 2);
	for (int a : M) for (int b : {SETA2, REMA, CLEAR}) for (int c : R) add({{a}, {b}, {c}}, (a + b + c) % 3, th ? 4 : 3);
	if (th) for (int a : M) for (int c : R) add({{a, GETA}, {SETA2, c}, {REMA, SIZE}}, 1, 3);
	return mc::run(argc, argv, cfg, sc);
}
