// C22: damaged virtual file system images are handled safely
#include "sched.hpp"
#include "tar_common.hpp"
#include <extra/vfs/vfs.hpp>
#include <filesystem>
#include <set>
using namespace seq; using Lambda::VirtualFilesystem;
static std::string dir;
static std::string q(const std::string& s) { return "\"" + mc::show(s, 40) + "\"" + (s.size() > 40 ? "(" + std::to_string(s.size()) + " bytes)" : ""); }
static std::string inflate_prefix(const std::string& in) { // what can be decompressed
	z_stream z; memset(&z, 0, sizeof z); if (inflateInit2(&z, 47) != Z_OK) abort(); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); std::string out, buf(1 << 18, '\0'); int r = Z_OK;
	while (r == Z_OK) { z.next_out = (Bytef*)buf.data(); z.avail_out = buf.size(); r = inflate(&z, Z_NO_FLUSH); out.append(buf.data(), buf.size() - z.avail_out); } inflateEnd(&z); return out;
}
// every file any reading of these bytes could justify: a 512-byte aligned header with a valid checksum and the complete content behind it
struct Cand { std::multimap<std::string, std::string> files; };
static Cand candidates(const std::string& a) {
	Cand c; std::vector<std::string> longs; 
	for (size_t p = 0; p + 512 <= a.size(); p += 512) {
		std::string h = a.substr(p, 512); long us = 8 * 32, ss = 8 * 32; for (size_t i = 0; i < 512; i++) if (i < 148 || i >= 156) us += (unsigned char)h[i], ss += (signed char)h[i];
		auto num = [&](size_t o, size_t n, bool& ok) { std::string f(h, o, n); char* e; errno = 0; long v = strtol(f.c_str(), &e, 8); ok = e != f.c_str(); return v; }; bool ok; long sum = num(148, 8, ok); if (!ok || (sum != us && sum != ss)) continue;
		long size = num(124, 12, ok); if (!ok || size < 0 || (size_t)size > a.size() - p - 512) continue; std::string data = a.substr(p + 512, size);
		if (h[156] == 'L') { longs.push_back(data); longs.push_back(data.substr(0, data.find('\0'))); continue; }
		std::string n = h.substr(0, 100); n = n.substr(0, n.find('\0')); std::string pre = h.substr(345, 155); pre = pre.substr(0, pre.find('\0')); c.files.emplace(lower(n), data); if (pre.size()) c.files.emplace(lower(pre + "/" + n), data); for (auto& l : longs) c.files.emplace(lower(l), data);
	}
	return c;
}
typedef std::map<std::string, std::string> Files;
static const Files BEFORE = {{"kept", "still here"}, {"a", "older a"}};
// loads bytes which may be damaged; must: files which stand complete in front of the damage
static void load(const std::string& bytes, const std::string& content, bool gz, const Files& must, const std::string& what) {
	sched::Options o; o.preempt = false;
	sched::run(o, [&] {
		static bool made = false; if (!made) { std::filesystem::create_directories(dir); made = true; } std::string p = dir + (gz ? "/i.tgz" : "/i.tar"), why; tar::write_file(p, bytes); VirtualFilesystem v; for (auto& f : BEFORE) v.write(f.first, f.second);
		bool th = throws([&] { v.loadSnapshot(p); }, "loadSnapshot", &why);
		Cand c = candidates(content); auto all = v.listAll(); size_t total = 0; std::set<std::string> names; uint64_t h = th;
		for (auto& i : all) {
			auto r = v.read(i.name); if (!r || !names.insert(i.name).second) mc::violate("list", what + ": listed file " + q(i.name) + " cannot be read or is listed twice"); std::string d = S(r->buffer); total += i.name.size() + d.size(); h = mc::mix(mc::mix(h, mc::hash_str(i.name)), mc::hash_str(d)); auto b = BEFORE.find(i.name); if (b != BEFORE.end() && b->second == d) continue;
			bool found = false; auto range = c.files.equal_range(i.name); for (auto it = range.first; it != range.second; ++it) found |= it->second == d; if (!found) mc::violate("invented", what + ": the file " + q(i.name) + " with " + std::to_string(d.size()) + " bytes " + q(d.substr(0, 20)) + " was loaded but the image has no such entry");
		}
		for (auto& b : BEFORE) if (!names.count(b.first)) mc::violate("lost-own", what + ": the file " + q(b.first) + " which was in memory before is gone");
		auto st = v.stats(); if (st.totalFiles != all.size() || st.totalSize != total) mc::violate("totals", what + ": totals are " + std::to_string(st.totalFiles) + " files, " + std::to_string((long)st.totalSize) + " bytes instead of " + std::to_string(all.size()) + ", " + std::to_string(total));
		if (!th) for (auto& f : must) { auto r = v.read(f.first); auto bf = BEFORE.find(f.first); if (!r || (bf != BEFORE.end() && bf->second == S(r->buffer))) mc::violate("silently-lost", what + ": no error was reported but the file " + q(f.first) + " in front of the damage was not loaded"); }
		v.write("kept", "new"); if (v.stats().totalSize != total + 3 - 10) mc::violate("unusable", what + ": afterwards writing a file gives wrong totals");
		if (sched::live_threads()) mc::violate("thread-left", what + ": the loader thread is still running"); mc::step(mc::mix(h, mc::hash_str(content))); mc::outcome(h); if (th) mc::nontrivial();
	});
}
struct Base { std::string tar; std::vector<std::pair<size_t, std::pair<std::string, std::string>>> ends; std::vector<size_t> heads; };  // ends: offset behind an entry -> file
static Base base(int k) {
	Base b; auto add = [&](tar::Entry e, const std::string& as, bool file) { b.heads.push_back(b.tar.size()); b.tar += tar::header(e, e.data.size()) + e.data; if (file) b.ends.push_back({b.tar.size(), {lower(as), e.data}}); b.tar = tar::pad(b.tar); };
	tar::Entry e; e.mtime = 1700000000; e.name = "a"; e.data = "short"; add(e, "a", true);
	if (k == 1) { tar::Entry l; l.name = "././@LongLink"; l.type = 'L'; l.data = pattern(130, 0); add(l, "", false); e.name = l.data.substr(0, 99); e.data = pattern(600, 0); add(e, l.data, true); tar::Entry p; p.prefix = "pre/fix"; p.name = "file"; p.data = "p"; add(p, "pre/fix/file", true); }
	if (k == 0) { e.name = "b"; e.data = pattern(1024, 1); add(e, "b", true); e.name = "empty"; e.data = ""; add(e, "empty", true); }
	if (k == 2) { tar::Entry d; d.name = "dir/"; d.type = '5'; add(d, "", false); tar::Entry x; x.name = "pax"; x.type = 'x'; x.data = "20 path=something\n"; add(x, "", false); }
	e.name = "z"; e.data = pattern(513, 0); add(e, "z", true); b.tar += std::string(1024, '\0'); return b;
}
static Files before(const Base& b, size_t off) { Files f; for (auto& e : b.ends) if (e.first <= off) f[e.second.first] = e.second.second; return f; }
static void fix(std::string& t, size_t h) { unsigned sum = 8 * 32; for (size_t i = 0; i < 512; i++) if (i < 148 || i >= 156) sum += (unsigned char)t[h + i]; tar::put(t, h + 148, tar::octal(sum, 6) + std::string("\0 ", 2)); }
static void damaged(const std::string& t, int wrap, const Files& must, const std::string& what) { if (wrap) { std::string g = tar::gz(t, wrap == 1 ? 6 : 0); load(g, t, true, must, what + ", compressed"); } else load(t, t, false, must, what); }
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C22"; bool th = mc::thorough(); cfg.rss_limit_mb = 2000; cfg.hang_s = 40; cfg.leak_check = false;
	cfg.rule = "archives with plain, long-named, prefixed, empty, directory and pax entries: every truncation point (plain and two gzip forms), every header byte x 14 (thorough 256) values with the checksum left alone and recomputed, every gzip byte x 3 (thorough 40) values, number fields (size, mtime, checksum) over every string of up to 3 (4) of 9 characters and a list of hostile ones in every entry, every type flag, all sequences of up to 4 (5) blocks over 13 block kinds with whole and partial ends, compressed bombs, files which are no archives. A load must end with an exception or without, keep files and totals consistent, load only files for which a header with a valid checksum and complete content exists, and not silently lose files in front of the damage; memory is bounded to 2 GB";
	cfg.assumptions = {"loading runs under one fixed schedule (C23 explores schedules)"};
	dir = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/vfs"; cfg.worker_init = [] { dir += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc;
	sc.push_back({"truncated", 0, [] { Base b = base(mc::choose(3)); int n = mc::choose((int)b.tar.size() + 1); load(b.tar.substr(0, n), b.tar.substr(0, n), false, before(b, n), "cut after " + std::to_string(n) + " bytes"); }});
	sc.push_back({"truncated-gz", 0, [] { Base b = base(mc::choose(3)); std::string g = tar::gz(b.tar, mc::choose(2) ? 9 : 0, mc::choose(2) * 512); int n = mc::choose((int)g.size() + 1); std::string cut = g.substr(0, n), in = inflate_prefix(cut); load(cut, in, true, before(b, in.size()), "compressed and cut after " + std::to_string(n) + " of " + std::to_string(g.size()) + " bytes"); }});
	sc.push_back({"header-bytes", 0, [=] {
		Base b = base(mc::choose(3)); size_t h = b.heads[mc::choose((int)b.heads.size())]; static const std::vector<int> V = {0, 1, ' ', '-', '0', '1', '7', '8', '9', 'L', 'x', 0x7f, 0x80, 0xff}; size_t o = mc::choose(512); int v = th ? mc::choose(256) : pick(V), fixit = mc::choose(2); std::string t = b.tar; t[h + o] = (char)v; if (fixit && (o < 148 || o >= 156)) fix(t, h); else if (fixit) return; damaged(t, mc::choose(th ? 2 : 1), before(b, h), "header byte " + std::to_string(o) + " of the entry at " + std::to_string(h) + " set to " + std::to_string(v) + (fixit ? ", checksum adjusted" : ""));
	}});
	sc.push_back({"gz-bytes", 0, [=] {
		Base b = base(mc::choose(3)); std::string g = tar::gz(b.tar, mc::choose(2) ? 6 : 0); size_t o = mc::choose((int)g.size()); static const std::vector<int> X = {1, 0x80, 0xff}; if (th) g[o] = (char)(g[o] ^ (1 + mc::choose(40) * 6)); else g[o] = (char)(g[o] ^ pick(X)); std::string in = inflate_prefix(g); load(g, in, true, {}, "compressed byte " + std::to_string(o) + " changed");
	}});
	sc.push_back({"numbers", 0, [=] {
		Base b = base(mc::choose(3)); size_t h = b.heads[mc::choose((int)b.heads.size())]; int field = mc::choose(3); size_t o = field == 0 ? 124 : field == 1 ? 136 : 148, len = field == 2 ? 8 : 12; std::string v;
		static const std::vector<std::string> L = {"77777777777", "777777777777", "37777777777", "17777777777", "20000000000", "-1", "-1000", "-7777777777", "00000010000", "000001000000", "\x80\0\0\0\0\0\0\0\0\0\2\0", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "99999999999", "0x10", "1e3", "            ", "\t\n1", "+5", "1 1", "888", "0000000000\xff"}; int nl = L.size(); int k = mc::choose(nl + 1); if (k < nl) v = L[k]; else v = pickstr("0157 -+9\xff", th ? 4 : 3); std::string f = v.substr(0, len); f.resize(len, '\0'); std::string t = b.tar; tar::put(t, h + o, f); if (field != 2 && (k >= nl || mc::choose(2))) fix(t, h); damaged(t, k < nl || th ? mc::choose(2) : 0, before(b, h), std::string(field == 0 ? "size" : field == 1 ? "mtime" : "checksum") + " field of the entry at " + std::to_string(h) + " is " + q(f));
	}});
	sc.push_back({"blocks", 0, [=] {
		static std::vector<std::string> K; static bool init = false; if (!init) { init = true; auto hd = [](const char* n, size_t s, char t) { tar::Entry e; e.name = n; e.type = t; return tar::header(e, s); }; std::string big = hd("big", 1 << 30, '0'), neg = hd("neg", 0, '0'); tar::put(neg, 124, "-0000001000"); fix(neg, 0); std::string negx = hd("nx", 0, 'x'); tar::put(negx, 124, "-0000001000"); fix(negx, 0); std::string bad = hd("bad", 3, '0'); bad[150] ^= 1; std::string noname = hd("", 3, '0'); std::string negl = hd("nl", 0, 'L'); tar::put(negl, 124, "-0000000001"); fix(negl, 0);
			K = {hd("e", 0, '0'), hd("f", 600, '0'), hd("g", 512, '0'), hd("././@LongLink", 120, 'L'), hd("d", 0, '5'), hd("x", 700, 'x'), std::string(512, '\0'), pattern(512, 0), big, neg, negx, bad, hd("LL", 1 << 30, 'L')}; (void)noname; (void)negl; }
		int n = 1 + mc::choose(th ? 5 : 4); std::string t, d; for (int i = 0; i < n; i++) { int k = mc::choose((int)K.size()); t += K[k]; d += std::to_string(k) + " "; } static const std::vector<int> CUT = {0, 1, 256, 511}; int cut = n < 4 ? pick(CUT) : 0; t.resize(t.size() - cut); int wrap = n < 4 ? mc::choose(3) : 0; damaged(t, wrap, {}, "blocks " + d + "less " + std::to_string(cut) + " bytes");
	}});
	sc.push_back({"bombs", 0, [] { // small files which unpack to a lot
		int k = mc::choose(5); size_t n = 300u << 20; tar::Entry e; e.name = "bomb"; std::string t; if (k == 0) t = std::string(n, '\0'); if (k == 1) t = tar::header(e, n) + std::string(1 << 20, '\0'); if (k == 2) { t = tar::header(e, (size_t)7 << 30) + std::string(64 << 20, '\0'); } if (k == 3) { e.type = 'x'; t = tar::header(e, (size_t)7 << 30) + std::string(64 << 20, '\0'); } if (k == 4) { e.type = 'L'; t = tar::header(e, (size_t)7 << 30) + std::string(1 << 20, 'n'); } int wrap = mc::choose(2); if (k == 0 && !wrap) return; damaged(t, wrap, {}, "bomb " + std::to_string(k));
	}});
	sc.push_back({"not-archives", 0, [] { int gz = mc::choose(2); std::string d; int k = mc::choose(6); if (k == 0) d = ""; else if (k == 1) d = pattern(mc::choose(1200), 1); else if (k == 2) d = std::string(mc::choose(3) * 511, '\0'); else if (k == 3) d = "PK\x03\x04" + pattern(600, 1); else if (k == 4) d = tar::gz("", 6) + pattern(mc::choose(3), 0); else d = tar::gz(tar::gz(base(0).tar, 6), 6).substr(0, 10 + mc::choose(12)); load(d, gz ? inflate_prefix(d) : d, gz, {}, "a file which is no archive (" + std::to_string(k) + ")"); }});
	sc.push_back({"behind-gz", 0, [] { // something behind the end of the compressed stream
		Base b = base(mc::choose(3)); std::string g = tar::gz(b.tar, 6), tail = std::vector<std::string>{"", std::string(1, '\0'), std::string(600, '\0'), "garbage", tar::gz("more", 6), pattern(3 << 20, 1)}[mc::choose(6)]; load(g + tail, b.tar, true, before(b, b.tar.size()), std::to_string(tail.size()) + " bytes behind the compressed stream"); }});
	return mc::run(argc, argv, cfg, sc);
}
