// C18: acknowledged key-value writes survive a process crash or write failure
#include "seq.hpp"
#include "fsim.hpp"
#include <extra/kvstorage/kvstorage.hpp>
#include <memory>
#include <unistd.h>
#include <optional>
using namespace seq; using Lambda::Storage::KVStorage::StorageInterface;
typedef std::map<std::string, std::string> Model;
static std::string dir, db;
static std::string show(const Model& m) { std::string s = "{"; for (auto& e : m) s += mc::show(e.first, 20) + "=" + mc::show(e.second, 12) + "(" + std::to_string(e.second.size()) + ") "; return s + "}"; }
static const std::string K1 = "a", K2("b\0c", 3), K3 = "key-3";
struct Op { int kind; std::string k, v; std::string show() const { return kind == 0 ? "set(" + mc::show(k, 10) + "," + std::to_string(v.size()) + " bytes) " : kind == 1 ? "remove(" + mc::show(k, 10) + ") " : kind == 2 ? "clear " : kind == 3 ? "reopen " : "close "; } };
static std::vector<Op> alphabet() { return {{0, K1, "v1"}, {0, K1, std::string("value\n\0two", 10)}, {0, K2, ""}, {0, K2, pattern(9000, 1)}, {1, K1, ""}, {1, K2, ""}, {2, "", ""}, {3, "", ""}}; }
static void advance(Model& m, const Op& o) { if (o.kind == 0) m[o.k] = o.v; if (o.kind == 1) m.erase(o.k); if (o.kind == 2) m.clear(); }
static Model read(StorageInterface& s) { Model m; for (auto& k : {K1, K2, K3, std::string()}) if (s.hasItem(k)) m[k] = s.getItem(k); if (m.size() != s.size()) mc::violate("invented-key", "the store holds " + std::to_string(s.size()) + " items but only " + std::to_string(m.size()) + " were ever stored"); return m; }
static std::string hist(const std::vector<Op>& ops) { std::string s; for (auto& o : ops) s += o.show(); return s; }
static std::vector<Op> pickops(int n) { auto A = alphabet(); std::vector<Op> v; for (int i = 0; i < n; i++) v.push_back(A[mc::choose((int)A.size())]); return v; }
static void install() { fsim::install(dir); }

struct Trace { fsim::Image from; std::vector<fsim::Ent> log; std::vector<Model> after; std::vector<Op> ops; };  // after[i]: state once i operations were acknowledged
// runs opens + ops, without faults; marks 2i (begins) and 2i+1 (acknowledged); operation 0 is the opening
static Trace record(const std::vector<Op>& ops, const Model& start, bool close) {
	Trace t; t.ops = ops; t.ops.insert(t.ops.begin(), Op{3, "", ""}); if (close) t.ops.push_back(Op{4, "", ""}); Model m = start; t.after.push_back(m);
	fsim::start(); t.from = fsim::initial(); std::unique_ptr<StorageInterface> s;
	for (size_t i = 0; i < t.ops.size(); i++) {
		auto& o = t.ops[i]; fsim::mark(2 * i);
		std::string why; bool th = throws([&] { switch (o.kind) { case 0: s->setItem(o.k, o.v); break; case 1: s->removeItem(o.k); break; case 2: s->clear(); break; case 3: s.reset(); s = std::make_unique<StorageInterface>(db); break; case 4: s.reset(); break; } }, "operation", &why);
		if (th) { fsim::stop(); mc::violate("operation-failed", o.show() + "failed: " + why + " after " + hist(ops)); }
		fsim::mark(2 * i + 1); advance(m, o); t.after.push_back(m);
	}
	t.log = fsim::stop(); s.reset(); return t;
}
static long tear(size_t n) { // every proper prefix of a short write, boundary prefixes of a long one
	if (n < 2) return -1; if (n <= 48) { int k = mc::choose((int)n); return k == 0 ? -1 : k; }
	std::vector<long> c{-1, 1, 2, 7, 8, 9, 10, 11, 12, 13, 16, 19, 20, 100, (long)n / 2, 4096, (long)n - 1}; long k = c[mc::choose((int)c.size())]; return k < (long)n ? k : -1;
}
struct Crash { fsim::Image image; std::vector<Model> allowed; std::string where; };
static Crash crash(const Trace& t) {
	size_t n = mc::choose((int)t.log.size() + 1); long torn = n < t.log.size() && t.log[n].kind == fsim::WRITE ? tear(t.log[n].data.size()) : -1;
	int acked = 0, begun = 0; for (size_t i = 0; i < n; i++) if (t.log[i].kind == fsim::MARK) { if (t.log[i].mark % 2) acked = t.log[i].mark / 2 + 1; else begun = t.log[i].mark / 2 + 1; }
	Crash c; c.image = fsim::rebuild(t.from, t.log, n, torn); c.allowed = {t.after[acked]}; if (begun > acked) c.allowed.push_back(t.after[begun]);
	c.where = "history " + hist(t.ops) + "; crash " + (torn >= 0 ? "after " + std::to_string(torn) + " bytes of " : "before ") + (n < t.log.size() ? fsim::show(t.log[n]) : std::string("the end"));
	if (mc::tracing()) { for (size_t i = 0; i < t.log.size(); i++) mc::note((i == n ? "CRASH " : "      ") + fsim::show(t.log[i])); }
	return c;
}
// opens what a crash left; returns the state found
static Model reopen(const Crash& c, std::unique_ptr<StorageInterface>& s) {
	std::string why; if (throws([&] { s = std::make_unique<StorageInterface>(db); }, "open", &why)) mc::violate("unreadable-after-crash", "the store cannot be opened after a crash: " + why + "; " + c.where + "; files " + c.image.show());
	Model m = read(*s); bool ok = false; for (auto& a : c.allowed) ok |= a == m;
	if (!ok) mc::violate("lost-after-crash", "after a crash the store holds " + show(m) + " but should hold " + show(c.allowed[0]) + (c.allowed.size() > 1 ? " or " + show(c.allowed[1]) : "") + "; " + c.where);
	return m;
}
static uint64_t imhash(const fsim::Image& i) { uint64_t h = 77; for (auto& f : i.files) h = mc::mix(mc::mix(h, mc::hash_str(f.first)), mc::hash_str(f.second)); return h; }
static void usable(std::unique_ptr<StorageInterface>& s, Model m, const std::string& where) { // the recovered store keeps working
	std::string why; if (throws([&] { s->setItem(K3, "after"); s->removeItem(K1); s.reset(); s = std::make_unique<StorageInterface>(db); }, "use", &why)) mc::violate("unusable-after-crash", "the recovered store does not work: " + why + "; " + where);
	m[K3] = "after"; m.erase(K1); Model g = read(*s); if (g != m) mc::violate("lost-after-recovery", "after recovery and further use the store holds " + show(g) + " instead of " + show(m) + "; " + where);
	s.reset();
}
// the store is first filled by a prior session
static fsim::Image prior(int kind, Model& m) {
	fsim::put({}); if (!kind) return {}; StorageInterface s(db); s.setItem(K1, "old"); s.setItem(K2, "gone"); s.removeItem(K2); if (kind == 2) { s.setItem(K2, pattern(9100, 0)); s.setItem(K3, ""); } m[K1] = "old"; if (kind == 2) { m[K2] = pattern(9100, 0); m[K3] = ""; } return {};
}
static void crashes(int nops, int ncrash, int pr) {
	install(); Model m; prior(pr, m); auto ops = pickops(nops); Trace t = record(ops, m, mc::choose(2));
	Crash c = crash(t); mc::step(mc::mix(imhash(c.image), nops)); fsim::put(c.image);
	for (int k = 1; k < ncrash; k++) { // a second crash while the first one is being recovered from, or in the operations behind it
		Trace t2; t2.from = c.image; auto ops2 = k == 1 ? pickops(nops > 1 ? 1 : 1) : std::vector<Op>{};
		// which of the allowed states the store is in shows by opening a copy
		std::unique_ptr<StorageInterface> s; Model now = reopen(c, s); s.reset(); fsim::put(c.image);
		t2 = record(ops2, now, false); Crash d = crash(t2); d.where = c.where + "; then " + d.where; c = d; mc::step(mc::mix(imhash(c.image), nops)); fsim::put(c.image);
	}
	std::unique_ptr<StorageInterface> s; Model g = reopen(c, s); usable(s, g, c.where);
	mc::outcome(mc::mix(imhash(fsim::scan()), c.allowed.size())); if (c.allowed.size() > 1) mc::nontrivial(); fsim::put({});
}
// every file operation may fail
static void faults(int nops, int pr, bool sticky, bool crashing) {
	install(); Model m; prior(pr, m); auto ops = pickops(nops); ops.insert(ops.begin(), Op{3, "", ""}); std::string log; int inop = 0; bool full = false; std::string cur; int injected = 0;
	auto f = [&](fsim::Kind k, const std::string& p, size_t n) -> long {
		if (full) { if (k == fsim::WRITE) { inop++; return -ENOSPC; } return 0; }
		int alt = k == fsim::WRITE ? (n > 1 ? 3 : 2) : 2; if (k == fsim::READ && false) alt = 1;
		int d = mc::deviate(alt); if (!d) return 0; inop++; injected++; if (sticky && k == fsim::WRITE) full = true;
		static const char* N[] = {"open", "read", "write", "truncate", "rename", "unlink", "mkdir", "close", "sync"}; log += std::string(" [") + N[k] + " of " + p + " fails" + (d == 2 ? " after a part" : "") + " during " + cur + "]";
		if (d == 2) { long part = std::vector<long>{1, 8, (long)n / 2, (long)n - 1}[mc::choose(4)]; full = sticky; if (!sticky) { part = part < 1 ? 1 : part; } return std::max(1l, std::min<long>(part, n - 1)); }
		return k == fsim::WRITE ? -ENOSPC : k == fsim::OPEN ? -EMFILE : k == fsim::RENAME || k == fsim::MKDIR ? -ENOSPC : -EIO;
	};
	std::unique_ptr<StorageInterface> s; std::vector<Model> disk{m}; auto bad = [&](const char* k, const std::string& x) { mc::violate(k, x + "; history " + hist(ops) + log); };
	fsim::start(f); size_t acked = 0;
	for (size_t i = 0; i < ops.size(); i++) {
		auto& o = ops[i]; cur = o.show(); inop = 0; std::string why; if (sticky && full && mc::choose(2)) full = false;  // room again
		if (!s && o.kind != 3) continue;
		bool noop = o.kind == 1 && !m.count(o.k);   // has nothing to store
		fsim::mark(2 * i);
		bool th = throws([&] { switch (o.kind) { case 0: s->setItem(o.k, o.v); break; case 1: s->removeItem(o.k); break; case 2: s->clear(); break; case 3: s.reset(); s = std::make_unique<StorageInterface>(db); break; } }, "operation", &why);
		fsim::mark(2 * i + 1);
		if (th && !inop && !injected) bad("spurious-error", o.show() + "reported an error: " + why);
		if (!th) { advance(m, o); if (o.kind != 3 && !noop) disk = {m}; acked++; }
		else if (o.kind != 3 && inop > 1) { auto d2 = disk; for (auto& x : d2) { Model y = x; advance(y, o); disk.push_back(y); } }   // undoing it failed as well
		if (s && !(th && o.kind == 3)) { Model g = read(*s); if (o.kind == 3) { bool ok = false; for (auto& d : disk) ok |= d == g; if (!ok) bad("lost-after-failure", "the reopened store holds " + show(g) + " instead of " + show(disk[0])); m = g; disk = {m}; } else if (g != m) bad(th ? "failed-operation-applied" : "wrong-state", "the store holds " + show(g) + " instead of " + show(m)); }
	}
	auto lg = fsim::stop(); (void)lg;
	if (crashing) { auto im = fsim::scan(); s.reset(); fsim::put(im); } else s.reset();
	std::string why; if (throws([&] { s = std::make_unique<StorageInterface>(db); }, "open", &why)) bad("unreadable-after-failure", "the store cannot be opened after a failed operation: " + why + "; files " + fsim::scan().show());
	Model g = read(*s); bool ok = false; for (auto& d : disk) ok |= d == g; if (!ok) bad("lost-after-failure", "the reopened store holds " + show(g) + " instead of " + show(disk[0]));
	mc::step(mc::path_hash()); usable(s, g, hist(ops) + log); mc::outcome(mc::mix(imhash(fsim::scan()), acked)); if (injected) mc::nontrivial(); fsim::put({});
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C18"; cfg.level = "fault_enumeration"; bool th = mc::thorough();
	cfg.rule = "every crash point (between any two file system calls, and every proper prefix of every write up to 48 bytes, 16 boundary prefixes of longer ones) of every history of up to 2 (on a small store 3; thorough 3 and 4) operations from 8 over a new, a small and a larger store, then a second crash at every point of the recovery and the operation behind it; every single and every pair of failing or short file system calls, and a disk that stays full, in every history of up to 2 (3) operations";
	cfg.assumptions = {"a process crash keeps what the kernel was given (power loss is not covered)", "system calls are atomic except for torn writes"};
	dir = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/kv"; cfg.worker_init = [] { dir += std::to_string(getpid()); db = dir + "/sub/store.db"; };
	std::vector<mc::Scenario> sc;
	for (int pr = 0; pr < 3; pr++) {
		for (int n = 0; n <= (th ? (pr == 1 ? 4 : 3) : pr == 1 ? 3 : 2); n++) sc.push_back({"crash" + std::to_string(n) + ".prior" + std::to_string(pr), 0, [=] { crashes(n, 1, pr); }});
		for (int n = 0; n <= (th ? (pr == 1 ? 2 : 1) : pr == 2 ? 0 : 1); n++) sc.push_back({"crash2." + std::to_string(n) + ".prior" + std::to_string(pr), 0, [=] { crashes(n, 2, pr); }});
		for (int n = 0; n <= (th ? 3 : 2); n++) for (int st = 0; st < 2; st++) for (int cr = 0; cr < 2; cr++) sc.push_back({"fault" + std::to_string(n) + ".prior" + std::to_string(pr) + (st ? ".full" : "") + (cr ? ".crash" : ""), st ? 1 : n < 3 ? 2 : 1, [=] { faults(n, pr, st, cr); }});
	}
	return mc::run(argc, argv, cfg, sc);
}
