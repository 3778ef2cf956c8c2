// C21: a saved virtual file system image loads back identically everywhere
#include "sched.hpp"
#include "tar_common.hpp"
#include "fsim.hpp"
#include <extra/vfs/vfs.hpp>
#include <filesystem>
#include <set>
using namespace seq; using Lambda::VirtualFilesystem;
struct F { std::string data; long mtime; };
typedef std::map<std::string, F> Files;
static std::string dir; static const char* FMT[] = {".tar", ".tar.gz", ".tgz"};
static std::string q(const std::string& s) { return "\"" + mc::show(s, 40) + "\"" + (s.size() > 40 ? "(" + std::to_string(s.size()) + " bytes)" : ""); }
static void compare(VirtualFilesystem& v, const Files& m, const std::string& what) {
	size_t total = 0; for (auto& e : m) total += e.first.size() + e.second.data.size(); auto all = v.listAll(); std::set<std::string> names; for (auto& i : all) { names.insert(i.name); if (!m.count(i.name)) mc::violate("extra-file", what + ": there is a file " + q(i.name) + " which was never saved"); }
	for (auto& e : m) { auto r = v.read(e.first); auto i = v.fileInfo(e.first); if (!r || !i || !names.count(e.first)) mc::violate("lost-file", what + ": the file " + q(e.first) + " is missing"); if (S(r->buffer) != e.second.data) { std::string g = S(r->buffer); size_t d = 0; while (d < g.size() && d < e.second.data.size() && g[d] == e.second.data[d]) d++; mc::violate("content", what + ": " + q(e.first) + " has " + std::to_string(g.size()) + " bytes instead of " + std::to_string(e.second.data.size()) + ", different from byte " + std::to_string(d)); } if (r->modified != e.second.mtime || i->modified != e.second.mtime) mc::violate("mtime", what + ": " + q(e.first) + " has modification time " + std::to_string(r->modified) + "/" + std::to_string(i->modified) + " instead of " + std::to_string(e.second.mtime)); }
	auto st = v.stats(); if (st.totalFiles != m.size() || st.totalSize != total) mc::violate("totals", what + ": totals are " + std::to_string(st.totalFiles) + " files, " + std::to_string((long)st.totalSize) + " bytes instead of " + std::to_string(m.size()) + ", " + std::to_string(total));
}
static uint64_t fh(const Files& m) { uint64_t h = 5; for (auto& e : m) h = mc::mix(mc::mix(mc::mix(h, mc::hash_str(e.first)), mc::hash_str(e.second.data)), e.second.mtime); return h; }
static void run(const std::function<void()>& f) { sched::Options o; o.preempt = false; sched::run(o, [&] { std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); f(); std::filesystem::remove_all(dir); }); }
static Files fill(VirtualFilesystem& v, const std::vector<std::pair<std::string, std::string>>& fs) { Files m; for (auto& f : fs) { sched::sleep_ms(1000 + 1000 * (f.second.size() % 5)); v.write(f.first, f.second); auto i = v.fileInfo(f.first); if (!i) mc::violate("write", "a written file is missing"); m[lower(f.first)] = {f.second, (long)time(nullptr)}; } sched::sleep_ms(5000); return m; }
static std::string describe(const Files& m) { std::string s; for (auto& e : m) s += q(e.first) + ":" + std::to_string(e.second.data.size()) + " "; return s; }
// save, inspect the image independently, load into an empty and a filled file system
static void roundtrip(const std::vector<std::pair<std::string, std::string>>& fs, int fmt) {
	VirtualFilesystem v; Files m = fill(v, fs); std::string p = dir + "/image" + FMT[fmt], why, what = "saving " + describe(m) + "as " + FMT[fmt];
	if (throws([&] { v.saveSnapshot(p); }, "saveSnapshot", &why)) mc::violate("save-failed", what + " failed: " + why); compare(v, m, what + ", the saved file system");
	std::string raw = tar::read_file(p), t = raw; if (fmt) { if (!tar::gunzip(raw, t, why)) mc::violate("gzip", what + ": " + why); }
	std::map<std::string, tar::Entry> es; why = tar::parse(t, es); if (why.size()) mc::violate("not-a-tar", what + ": other tar implementations cannot read the image: " + why);
	for (auto& e : m) { auto it = es.find(e.first); if (it == es.end()) mc::violate("tar-name", what + ": the image does not hold " + q(e.first)); if (it->second.data != e.second.data) mc::violate("tar-content", what + ": the image holds different contents of " + q(e.first)); if (it->second.mtime != e.second.mtime) mc::violate("tar-mtime", what + ": the image holds a modification time of " + std::to_string(it->second.mtime) + " instead of " + std::to_string(e.second.mtime)); }
	if (es.size() != m.size()) mc::violate("tar-extra", what + ": the image holds " + std::to_string(es.size()) + " entries");
	VirtualFilesystem w; if (throws([&] { w.loadSnapshot(p); }, "loadSnapshot", &why)) mc::violate("load-failed", what + " and loading it back failed: " + why); compare(w, m, what + " and loading it back");
	VirtualFilesystem x; Files mx = fill(x, {{"image-had-this-before", "keep"}, {fs.empty() ? "other" : fs[0].first, "to be replaced"}}); if (throws([&] { x.loadSnapshot(p); }, "loadSnapshot", &why)) mc::violate("load-failed", what + " and loading it over other files failed: " + why); for (auto& e : m) mx[e.first] = e.second; compare(x, mx, what + " and loading it over other files");
	mc::step(mc::mix(fh(m), fmt)); mc::outcome(mc::hash_str(t)); if (m.size()) mc::nontrivial();
}
// an archive made elsewhere
static void foreign(const std::vector<tar::Entry>& es, const Files& m, int wrap, int endblocks, const std::string& what0) {
	std::string t = tar::build(es, endblocks), d = t, p = dir + "/f.tar", what = what0 + (wrap ? ", gzip " + std::to_string(wrap) : ""), why;
	switch (wrap) { case 1: d = tar::gz(t, 0); break; case 2: d = tar::gz(t, 1, 700); break; case 3: d = tar::gz(t, 9, 0, true); break; case 4: d = tar::gz(t, 6, 0, false, Z_HUFFMAN_ONLY); break; } if (wrap) p += ".gz"; tar::write_file(p, d);
	VirtualFilesystem w; if (throws([&] { w.loadSnapshot(p); }, "loadSnapshot", &why)) mc::violate("foreign-load-failed", "loading " + what + " failed: " + why); compare(w, m, "loading " + what); mc::step(mc::mix(mc::hash_str(d), 1)); mc::outcome(fh(m)); mc::nontrivial();
}
static std::string name(size_t n, int kind) { // kinds: plain, one slash in the middle, many slashes, non-ASCII, spaces and line breaks
	std::string s; for (size_t i = 0; i < n; i++) { char c = 'a' + (i * 7 + n) % 26; if (kind == 1 && i == n / 2 && i && i + 1 < n) c = '/'; if (kind == 2 && i % 10 == 9 && i + 1 < n) c = '/'; if (kind == 3) c = (char)(i % 3 == 0 ? 0xe2 : i % 3 == 1 ? 0x82 : 0xac); if (kind == 4) c = " \n\t.-_~'\"\\%:"[i % 12]; s += c; } return s;
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C21"; bool th = mc::thorough(); cfg.leak_check = false; cfg.hang_s = 60;
	cfg.rule = "for .tar, .tar.gz and .tgz: one file with every combination of 21 (thorough 40) name lengths around 100, 155, 256 and 512 x 5 name shapes x 8 content sizes; every content length 0..2100 and every name length 1..700; every size of a list around the tar block, compression chunk and read buffer sizes up to 5 MiB (thorough 20 MiB), compressible and not; all pairs and triples of files over 8 names x 6 sizes; every single-byte name; each saved image is decoded by an independent strict tar/gzip reader and loaded into an empty and into a filled file system. Archives of an independent ustar writer (prefix split at either end, field styles, legacy type, other entry types with contents, missing or many end blocks, stored/flushed/named gzip) are loaded. Extensions, unwritable and unreadable paths, names tar cannot hold, and a failure of every single file operation (error or short count) while saving and loading";
	cfg.assumptions = {"saving and loading run under one fixed schedule here (C23 explores schedules)", "names ending in a slash and files of 8 GiB and more are left out", "libz is correct"};
	dir = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/vfs"; cfg.worker_init = [] { dir += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc;
	std::vector<size_t> NL = {1, 2, 50, 98, 99, 100, 101, 102, 154, 155, 156, 200, 255, 256, 257, 510, 511, 512, 513, 1024, 1025}; if (th) for (size_t x : {3, 10, 97, 103, 110, 153, 157, 158, 254, 258, 300, 499, 500, 509, 514, 1000, 1023, 1026, 2048, 4096}) NL.push_back(x);
	sc.push_back({"names", 0, [=] { run([&] { size_t n = pick(NL); int kind = mc::choose(5); static const std::vector<size_t> SZ = {0, 1, 511, 512, 513, 1024, 1536, 3000}; size_t s = pick(SZ); int f = mc::choose(3); roundtrip({{name(n, kind), pattern(s, 0)}}, f); }); }});
	sc.push_back({"lengths", 0, [=] { run([&] { int n = mc::choose(2101), f = mc::choose(2), kind = mc::choose(2); roundtrip({{"file", pattern(n, kind)}, {"next", "n"}}, f); }); }});
	sc.push_back({"name-lengths", 0, [=] { run([&] { int n = 1 + mc::choose(700), f = mc::choose(2); roundtrip({{name(n, f ? 1 : 2), "content"}, {"other", std::string(n, 'x')}}, f); }); }});
	sc.push_back({"sizes", 0, [=] { run([&] { std::vector<size_t> Z = {8191, 8192, 8193, 32768, 65535, 65536, 131071, 131072, 131073, 130560, 262144, 1 << 20, (2 << 20) - 1024, (2 << 20) - 512, (2 << 20) - 1, 2 << 20, (2 << 20) + 1, (4 << 20) + 7, 5 << 20}; if (th) for (size_t z : {10u << 20, 20u << 20, (3u << 20) + 512, 16384u, 16383u, 131072u - 512, 131072u - 1024}) Z.push_back(z); size_t n = pick(Z); int kind = mc::choose(3), f = mc::choose(3), pos = mc::choose(3); std::vector<std::pair<std::string, std::string>> fs; if (pos) fs.push_back({"a-first", pattern(pos == 1 ? 700 : 40000, 1)}); fs.push_back({"big", pattern(n, kind)}); fs.push_back({"z-last", "end"}); roundtrip(fs, f); }); }});
	static const std::vector<std::string> PN = {"a", "B/c", name(99, 0), name(100, 0), name(101, 1), name(300, 2), "\xd0\xba/\xd0\xbb", "././@LongLink"}; static const std::vector<size_t> PS = {0, 1, 512, 513, 1024, 20000};
	auto subset = [](int n) { std::vector<std::pair<std::string, std::string>> fs; int first = 0; for (int i = 0; i < n; i++) { int k = first + mc::choose((int)PN.size() - n + i + 1 - first); first = k + 1; fs.push_back({PN[k], pattern(pick(PS), 1)}); } return fs; };
	sc.push_back({"pairs", 0, [=] { run([&] { auto fs = subset(2); roundtrip(fs, mc::choose(2)); }); }});
	sc.push_back({"triples", 0, [=] { run([&] { if (th) { auto fs = subset(3); roundtrip(fs, mc::choose(2)); } else { std::vector<std::pair<std::string, std::string>> fs; int first = 0; for (int i = 0; i < 3; i++) { int k = first + mc::choose(6 + i - first); first = k + 1; fs.push_back({PN[k], pattern(PS[mc::choose(3) * 2], 0)}); } roundtrip(fs, mc::choose(2)); } }); }});
	sc.push_back({"bytes", 0, [=] { run([&] { int a = 1 + mc::choose(255), pos = mc::choose(3), f = mc::choose(2); std::string n = pos == 0 ? std::string(1, (char)a) : pos == 1 ? std::string("x") + (char)a + "y" : std::string(120, (char)a) + "y"; if (pos == 0 && a == '/') n = "/x"; roundtrip({{n, "v"}, {"other", "w"}}, f); }); }});
	sc.push_back({"many", 0, [=] { run([&] { int n = std::vector<int>{0, 1, 2, 10, 50, 200}[mc::choose(6)], f = mc::choose(3); std::vector<std::pair<std::string, std::string>> fs; for (int i = 0; i < n; i++) fs.push_back({name(1 + i, 2) + std::to_string(i), pattern(i * 37, i)}); roundtrip(fs, f); }); }});
	// foreign archives
	sc.push_back({"ustar", 0, [=] { run([&] {
		static const std::vector<size_t> L = {1, 99, 100, 101, 110, 155, 156, 157, 200, 255, 256}; size_t n = pick(L); int kind = 1 + mc::choose(2); std::string path = name(n, kind); tar::Entry e; if (!tar::ustar(e, path, mc::choose(3))) { path = name(n > 100 ? 100 : n, 0); e = {}; e.name = path; }
		static const std::vector<size_t> SZ = {0, 1, 511, 512, 513, 1024, 5000}; e.data = pattern(pick(SZ), 0); static const std::vector<long> MT = {0, 1, 1700000000, 077777777777}; e.mtime = pick(MT); e.style = mc::choose(3); e.type = mc::choose(2) ? '0' : '\0'; tar::Entry l; l.name = "last"; l.data = "tail"; l.mtime = 5;
		foreign({e, l}, {{lower(path), {e.data, e.mtime}}, {"last", {"tail", 5}}}, mc::choose(2) * 3, 2, "an ustar archive with " + q(path) + " (prefix " + std::to_string(e.prefix.size()) + " bytes), " + std::to_string(e.data.size()) + " bytes, field style " + std::to_string(e.style) + ", type " + (e.type ? "0" : "NUL"));
	}); }});
	sc.push_back({"other-entries", 0, [=] { run([&] {
		static const char T[] = {'5', 'x', 'g', '2', 'K', 'V', 'S'}; tar::Entry o; o.name = "other/"; o.type = T[mc::choose(7)]; static const std::vector<size_t> SZ = {0, 1, 512, 513, 1024, 3000000}; size_t s = o.type == '5' || o.type == '2' ? 0 : pick(SZ); o.data = pattern(s, 0); tar::Entry a, b; a.name = "a"; a.data = pattern(600, 0); b.name = "b"; b.data = "bb"; int pos = mc::choose(3), wrap = mc::choose(5), end = std::vector<int>{2, 0, 1, 20}[mc::choose(4)]; std::vector<tar::Entry> es = {a, b}; es.insert(es.begin() + pos, o);
		foreign(es, {{"a", {a.data, 0}}, {"b", {"bb", 0}}}, wrap, end, std::string("an archive with an entry of type ") + o.type + " and " + std::to_string(s) + " bytes at position " + std::to_string(pos) + " and " + std::to_string(end) + " end blocks");
	}); }});
	sc.push_back({"foreign-sizes", 0, [=] { run([&] {
		static const std::vector<size_t> Z = {0, 512, 1024, 130048, 131072, 2096128, 2097152, 2097153, 3000000, 4194304}; tar::Entry a, b; a.name = "a"; b.name = "b"; a.data = pattern(pick(Z), mc::choose(3)); b.data = pattern(pick(Z), 1); foreign({a, b}, {{"a", {a.data, 0}}, {"b", {b.data, 0}}}, mc::choose(5), 2, "files of " + std::to_string(a.data.size()) + " and " + std::to_string(b.data.size()) + " bytes");
	}); }});
	sc.push_back({"duplicates", 0, [=] { run([&] { // the last of several entries with the same name counts, as when other implementations extract
		tar::Entry a, b; a.name = "same"; b.name = mc::choose(2) ? "SAME" : "same"; a.data = pattern(mc::choose(3) * 300, 0); b.data = pattern(mc::choose(3) * 400, 1); a.mtime = 1; b.mtime = 2; foreign({a, b}, {{"same", {b.data, 2}}}, mc::choose(2), 2, "two entries of the same name");
	}); }});
	// refusals
	sc.push_back({"extensions", 0, [=] { run([&] {
		static const std::vector<std::pair<std::string, bool>> E = {{"i.tar", true}, {"i.tar.gz", true}, {"i.tgz", true}, {"I.TAR", true}, {"i.Tar.GZ", true}, {"i.TGZ", true}, {"a.b.tar", true}, {"a.tgz.tar", true}, {"i", false}, {"i.zip", false}, {"i.gz", false}, {"tar", false}, {"itar", false}, {"itgz", false}, {"i.tar.bz2", false}, {"i.tar.xz", false}, {"i.tar.", false}, {"i.tar ", false}, {"i.targz", false}, {"i.tar.gzz", false}, {"i.txz", false}, {"i.ar", false}, {"i.r", false}, {".", false}, {"", false}, {"i.tar/x", false}, {"i.tg", false}, {"i.ta", false}};
		auto& e = pick(E); std::string p = dir + "/" + e.first, why; std::filesystem::create_directories(dir + "/i.tar.d"); VirtualFilesystem v; Files m = fill(v, {{"x", "1"}}); bool th = throws([&] { v.saveSnapshot(p); }, "saveSnapshot", &why); if (th == e.second) mc::violate("extension", "saving as " + q(e.first) + (th ? " failed: " + why : " was accepted")); if (!e.second && std::filesystem::is_regular_file(p)) mc::violate("extension-file", "a file was written although " + q(e.first) + " is unsupported"); compare(v, m, "saving as " + q(e.first));
		if (!e.second && std::filesystem::is_directory(dir) && e.first.size() && e.first != "." && e.first.find('/') == std::string::npos) tar::write_file(p, tar::build({})); VirtualFilesystem w; th = throws([&] { w.loadSnapshot(p); }, "loadSnapshot", &why); if (th == e.second) mc::violate("extension", "loading " + q(e.first) + (th ? " failed: " + why : " was accepted")); compare(w, e.second ? m : Files{}, "loading " + q(e.first));
		if (e.second) { std::string raw = tar::read_file(p); bool isgz = raw.size() > 2 && raw[0] == '\x1f' && raw[1] == '\x8b', want = lower(e.first).ends_with("gz"); if (isgz != want) mc::violate("format", q(e.first) + " was written " + (isgz ? "compressed" : "uncompressed")); } mc::step(mc::hash_str(e.first)); mc::outcome(th); mc::nontrivial();
	}); }});
	sc.push_back({"paths", 0, [=] { run([&] {
		int k = mc::choose(8), f = mc::choose(3), n = mc::choose(3); std::string x = FMT[f], p, why; bool save = true; VirtualFilesystem v; Files m = fill(v, n == 0 ? std::vector<std::pair<std::string, std::string>>{} : n == 1 ? std::vector<std::pair<std::string, std::string>>{{"x", "1"}} : std::vector<std::pair<std::string, std::string>>{{"x", "1"}, {"y", pattern(300000, 1)}, {"z", "3"}});
		switch (k) { case 0: p = dir + "/none/i" + x; break; case 1: p = dir + "/i" + x; std::filesystem::create_directories(p); break; case 2: p = dir + "/i" + x; std::filesystem::create_symlink("/dev/full", p); break; case 3: p = dir + "/" + std::string(300, 'n') + x; break; case 4: p = dir + "/none" + x; save = false; break; case 5: p = dir + "/d" + x; std::filesystem::create_directories(p); save = false; break; case 6: p = dir + "/l" + x; std::filesystem::create_symlink(dir + "/l" + x, p); save = false; break; case 7: p = dir + "/file"; tar::write_file(p, "x"); p += "/i" + x; break; }
		bool th = throws([&] { if (save) v.saveSnapshot(p); else v.loadSnapshot(p); }, "snapshot", &why); if (!th) mc::violate("path-error-unreported", std::string(save ? "saving to" : "loading from") + " the " + (k == 0 ? "missing directory" : k == 1 || k == 5 ? "directory" : k == 2 ? "full device" : k == 3 ? "over-long path" : k == 4 ? "missing file" : k == 6 ? "symlink loop" : "path below a file") + " seemed to succeed"); compare(v, m, "failed snapshot");
		std::string p2 = dir + "/again" + x; if (throws([&] { v.saveSnapshot(p2); VirtualFilesystem w; w.loadSnapshot(p2); compare(w, m, "after a failed snapshot"); }, "retry", &why)) mc::violate("stuck", "after a failed snapshot another one fails: " + why); mc::step(k * 100 + f * 10 + n); mc::outcome(mc::hash_str(why)); mc::nontrivial();
	}); }});
	sc.push_back({"bad-names", 0, [=] { run([&] { // either refused, or everything comes back
		static const std::vector<std::string> N = {"", std::string("\0", 1), std::string("a\0b", 3), std::string("a\0", 2), std::string(120, 'q') + std::string("\0z", 2)}; auto n = pick(N); int f = mc::choose(2), others = mc::choose(4); VirtualFilesystem v; std::vector<std::pair<std::string, std::string>> fs = {{n, pattern(mc::choose(3) * 512, 0)}}; for (int i = 0; i < others; i++) fs.push_back({"other" + std::to_string(i), std::to_string(i)}); Files m = fill(v, fs); std::string p = dir + "/i" + FMT[f], why; bool th = throws([&] { v.saveSnapshot(p); }, "saveSnapshot", &why); compare(v, m, "saving the name " + q(n)); if (!th) { VirtualFilesystem w; if (throws([&] { w.loadSnapshot(p); }, "loadSnapshot", &why)) mc::violate("load-failed", "loading the name " + q(n) + ": " + why); compare(w, m, "saving and loading the name " + q(n)); } mc::step(mc::mix(fh(m), f)); mc::outcome(th); mc::nontrivial();
	}); }});
	// every file operation fails once
	sc.push_back({"save-faults", 0, [=] {
		sched::Options o; o.preempt = false; static std::string fdir; if (fdir.empty()) { fdir = dir + "f"; std::filesystem::create_directories(fdir); fsim::install(fdir); } std::string why; bool th_ = false; int f = mc::choose(2), n = mc::choose(3), at = mc::choose(24), how = mc::choose(3); int seen = 0; bool hit = false; Files m; fsim::put({});
		sched::run(o, [&] { VirtualFilesystem v; m = fill(v, n == 0 ? std::vector<std::pair<std::string, std::string>>{} : n == 1 ? std::vector<std::pair<std::string, std::string>>{{"x", "1"}} : std::vector<std::pair<std::string, std::string>>{{"x", "1"}, {"y", pattern(300000, 1)}, {name(150, 0), "3"}}); std::string p = fdir + "/i" + FMT[f];
			fsim::start([&](fsim::Kind k, const std::string&, size_t len) -> long { if (k == fsim::CLOSE) return 0; if (seen++ != at) return 0; if (how == 2 && (k != fsim::WRITE || len < 2)) return 0; hit = true; return how == 0 ? -ENOSPC : how == 1 ? -EIO : (long)len / 2; });
			th_ = throws([&] { v.saveSnapshot(p); }, "saveSnapshot", &why); auto log = fsim::stop(); compare(v, m, "saving with a failing file operation"); if (mc::tracing()) for (auto& e : log) mc::note(fsim::show(e));
			if (hit && how < 2 && !th_) mc::violate("write-error-unreported", "file operation " + std::to_string(at) + " failed while saving " + describe(m) + "but saveSnapshot() did not report it"); if ((!hit || how == 2) && th_) mc::violate("save-failed", "saving failed without a failing file operation: " + why);
			if (!th_) { VirtualFilesystem w; if (throws([&] { w.loadSnapshot(p); }, "loadSnapshot", &why)) mc::violate("load-failed", "loading failed: " + why); compare(w, m, "saving with short writes and loading"); } });
		fsim::put({}); mc::step(mc::mix(mc::mix(fh(m), f), at * 10 + how)); mc::outcome(th_ * 2 + hit); if (hit) mc::nontrivial();
	}});
	sc.push_back({"load-faults", 0, [=] {
		sched::Options o; o.preempt = false; static std::string fdir; if (fdir.empty()) { fdir = dir + "f"; std::filesystem::create_directories(fdir); fsim::install(fdir); } std::string why; bool th_ = false; int f = mc::choose(2), n = mc::choose(3), at = mc::choose(24), how = mc::choose(3); int seen = 0; bool hit = false; Files m; fsim::put({});
		sched::run(o, [&] { VirtualFilesystem v; m = fill(v, n == 0 ? std::vector<std::pair<std::string, std::string>>{} : n == 1 ? std::vector<std::pair<std::string, std::string>>{{"x", "1"}} : std::vector<std::pair<std::string, std::string>>{{"x", "1"}, {"y", pattern(300000, 1)}, {name(150, 0), "3"}}); std::string p = fdir + "/i" + FMT[f]; v.saveSnapshot(p); VirtualFilesystem w;
			fsim::start([&](fsim::Kind k, const std::string&, size_t len) -> long { if (k == fsim::CLOSE) return 0; if (seen++ != at) return 0; if (how == 2 && (k != fsim::READ || len < 2)) return 0; hit = true; return how == 0 ? -EACCES : how == 1 ? -EIO : std::max(1l, (long)len / 3); });
			th_ = throws([&] { w.loadSnapshot(p); }, "loadSnapshot", &why); auto log = fsim::stop(); if (mc::tracing()) for (auto& e : log) mc::note(fsim::show(e));
			if ((!hit || how == 2) && th_) mc::violate("load-failed", "loading failed without a failing file operation: " + why); if (!th_) compare(w, m, "loading with a failing file operation which was not reported"); });
		fsim::put({}); mc::step(mc::mix(mc::mix(fh(m), f), at * 10 + how)); mc::outcome(th_ * 2 + hit); if (hit) mc::nontrivial();
	}});
	return mc::run(argc, argv, cfg, sc);
}
