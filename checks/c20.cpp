// C20: the virtual file system is a consistent map of files
#include "seq.hpp"
#include <extra/vfs/vfs.hpp>
#include <map>
#include <memory>
#include <set>
using namespace seq; using Lambda::VirtualFilesystem;
static time_t now_;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = now_; return now_; }   // virtual time
struct F { std::string data; time_t created, modified; };
typedef std::map<std::string, F> Model;
static std::string q(const std::string& s) { return "\"" + mc::show(s, 24) + "\""; }
static void check(VirtualFilesystem& v, const Model& m, const std::vector<std::string>& probes, const std::string& hist) {
	size_t total = 0; for (auto& e : m) total += e.first.size() + e.second.data.size();
	auto st = v.stats(); if (st.totalFiles != m.size()) mc::violate("total-files", "totalFiles is " + std::to_string((long)st.totalFiles) + " with " + std::to_string(m.size()) + " files after " + hist); if (st.totalSize != total) mc::violate("total-size", "totalSize is " + std::to_string((long)st.totalSize) + " instead of " + std::to_string(total) + " after " + hist);
	auto all = v.listAll(); std::set<std::string> names;
	for (auto& i : all) { auto it = m.find(i.name); if (it == m.end() || !names.insert(i.name).second) mc::violate("list", "listAll reports " + q(i.name) + " wrongly or twice after " + hist); if (i.size != it->second.data.size() || i.created != it->second.created || i.modified != it->second.modified) mc::violate("list-info", "listAll reports size " + std::to_string(i.size) + ", created " + std::to_string(i.created) + ", modified " + std::to_string(i.modified) + " of " + q(i.name) + " instead of " + std::to_string(it->second.data.size()) + ", " + std::to_string(it->second.created) + ", " + std::to_string(it->second.modified) + " after " + hist); }
	if (names.size() != m.size()) mc::violate("list", "listAll reports " + std::to_string(names.size()) + " of " + std::to_string(m.size()) + " files after " + hist);
	for (auto& p : probes) {
		auto it = m.find(lower(p)); auto r = v.read(p); auto i = v.fileInfo(p);
		if (r.has_value() != (it != m.end()) || i.has_value() != (it != m.end())) mc::violate("found", q(p) + (it != m.end() ? " is missing" : " exists") + " after " + hist); if (it == m.end()) continue;
		auto& f = it->second; if (S(r->buffer) != f.data || r->text() != f.data || r->size() != f.data.size()) mc::violate("content", "reading " + q(p) + " gives " + q(S(r->buffer)) + " instead of " + q(f.data) + " after " + hist);
		if (r->name != it->first || i->name != it->first) mc::violate("name", q(p) + " is reported as " + q(r->name) + "/" + q(i->name) + " after " + hist);
		if (r->created != f.created || i->created != f.created) mc::violate("created", q(p) + " was created at " + std::to_string(f.created) + " but read() says " + std::to_string(r->created) + " and fileInfo() " + std::to_string(i->created) + " after " + hist);
		if (r->modified != f.modified || i->modified != f.modified) mc::violate("modified", q(p) + " was modified at " + std::to_string(f.modified) + " but read() says " + std::to_string(r->modified) + " and fileInfo() " + std::to_string(i->modified) + " after " + hist);
		if (i->size != f.data.size()) mc::violate("info-size", "fileInfo() of " + q(p) + " has a wrong size after " + hist);
	}
}
static uint64_t mh(const Model& m) { uint64_t h = now_; for (auto& e : m) h = mc::mix(mc::mix(mc::mix(h, mc::hash_str(e.first)), mc::hash_str(e.second.data)), e.second.created * 7 + e.second.modified); return h; }
static void history(const std::vector<std::string>& P, const std::vector<std::string>& C, int n, bool dedupe) {
	now_ = 1000; VirtualFilesystem v; Model m; std::string hist; int np = P.size(), nc = C.size(); auto probes = P; probes.push_back("never"); for (auto& p : P) { std::string u = p; for (auto& c : u) c = toupper((unsigned char)c) == c ? c : toupper((unsigned char)c); probes.push_back(u); }
	for (int k = 0; k < n; k++) {
		int op = mc::choose(np * nc + np + np * np + 1); now_ += 1;   // every operation happens at a time of its own
		if (op < np * nc) { auto& p = P[op / nc]; auto& c = C[op % nc]; hist += "write(" + q(p) + "," + std::to_string(c.size()) + " bytes) "; if ((op + k) % 2) v.write(p, c); else v.write(p, B(c)); auto it = m.find(lower(p)); if (it == m.end()) m[lower(p)] = {c, now_, now_}; else it->second = {c, it->second.created, now_}; }
		else if ((op -= np * nc) < np) { hist += "remove(" + q(P[op]) + ") "; v.remove(P[op]); m.erase(lower(P[op])); }
		else if ((op -= np) < np * np) {
			auto &a = P[op / np], &b = P[op % np]; hist += "move(" + q(a) + "," + q(b) + ") "; std::string why; bool th = throws([&] { v.move(a, b); }, "move", &why); auto it = m.find(lower(a));
			if (th != (it == m.end())) mc::violate("move", th ? "moving an existing file failed: " + why + " after " + hist : "moving a missing file succeeded after " + hist);
			if (!th) { F f = it->second; m.erase(it); m[lower(b)] = f; }
		} else { now_ += 3600; hist += "wait "; }
		check(v, m, probes, hist); mc::step(mh(m)); if (dedupe && mc::past_prefix() && mc::seen_state(mc::mix(mh(m), k))) mc::set_prune(true);
	}
	mc::outcome(mh(m)); if (m.size()) mc::nontrivial(); if (mc::tracing()) mc::note(hist);
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C20"; bool th = mc::thorough(); cfg.leak_check = true;
	cfg.rule = "all histories of 4 (thorough 5) operations (write, remove, move between every pair including onto itself, wait) over 3 paths of which two differ only in case, of 3 (4) over 5 paths including the empty one, nested ones and binary ones and 3 contents, of 7 (9) over 2 paths without revisiting states; every path of one or two bytes; files of 0..1200 bytes and 1 MiB; virtual time advances with every operation; after each step read, fileInfo, listAll and stats are compared with a reference map";
	cfg.assumptions = {"std::time is replaced by a virtual clock"};
	std::vector<mc::Scenario> sc;
	sc.push_back({"small", 0, [=] { history({"a", "A", "bb"}, {"", "xyz"}, th ? 5 : 4, false); }});
	sc.push_back({"names", 0, [=] { history({"", "Dir/File.TXT", "dir/file.txt/", std::string("nul\0Byte", 8), "\xc3\x89t\xc3\xa9"}, {"", "1", std::string("\0\xff", 2)}, th ? 4 : 3, false); }});
	sc.push_back({"deep", 0, [=] { history({"k", "kk"}, {"", "xyz"}, th ? 9 : 7, true); }});
	sc.push_back({"bytes", 0, [] { // case folding of every byte
		now_ = 5; int a = mc::choose(256), b = mc::choose(256); VirtualFilesystem v; Model m; std::string p{(char)a}, r{(char)a, (char)b}, t{(char)b}; v.write(p, "1"); m[lower(p)] = {"1", 5, 5}; now_ = 6; v.write(r, std::string("22")); m[lower(r)] = {"22", 6, 6}; now_ = 7; v.write(t, std::string("333")); { auto it = m.find(lower(t)); m[lower(t)] = {"333", it == m.end() ? 7 : it->second.created, 7}; }
		check(v, m, {p, r, t}, "writing the paths " + q(p) + ", " + q(r) + " and " + q(t)); mc::step(mh(m)); mc::outcome(mh(m)); mc::nontrivial();
	}});
	sc.push_back({"sizes", 0, [] {
		now_ = 5; int n = mc::choose(1202); if (n == 1201) n = 1 << 20; int kind = mc::choose(2); std::string c = pattern(n, kind); VirtualFilesystem v; Model m; v.write("f", c); m["f"] = {c, 5, 5}; check(v, m, {"f"}, "writing " + std::to_string(n) + " bytes"); now_ = 6; v.write("F", c + "x"); m["f"] = {c + "x", 5, 6}; check(v, m, {"f"}, "rewriting"); v.write("g", "small"); v.move("f", "g"); m.erase("f"); m["g"] = {c + "x", 5, 6}; check(v, m, {"f", "g"}, "moving over another file"); v.write("g", ""); m["g"] = {"", 5, 6}; check(v, m, {"g"}, "emptying"); v.remove("G"); m.clear(); check(v, m, {"g"}, "removing"); mc::step(mc::mix(n, kind)); mc::outcome(mc::mix(n, kind)); mc::nontrivial();
	}});
	sc.push_back({"many", 0, [] { // hash table growth
		now_ = 1; int n = mc::choose(300), rm = 1 + mc::choose(3); VirtualFilesystem v; Model m; for (int i = 0; i < n; i++) { std::string p = "file" + std::to_string(i); now_++; v.write(p, p); m[p] = {p, now_, now_}; } for (int i = 0; i < n; i += rm) { std::string p = "FILE" + std::to_string(i); if (i % 2) { v.remove(p); m.erase(lower(p)); } else { F f = m[lower(p)]; m.erase(lower(p)); m["moved" + std::to_string(i)] = f; v.move(p, "Moved" + std::to_string(i)); } } std::vector<std::string> pr; for (int i = 0; i < n; i += 17) { pr.push_back("file" + std::to_string(i)); pr.push_back("moved" + std::to_string(i)); } check(v, m, pr, std::to_string(n) + " files"); mc::step(mh(m)); mc::outcome(mh(m)); mc::nontrivial();
	}});
	return mc::run(argc, argv, cfg, sc);
}
