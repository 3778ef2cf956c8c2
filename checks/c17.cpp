// C17: the key-value store is a durable map
#include "seq.hpp"
#include <extra/kvstorage/kvstorage.hpp>
#include <map>
#include <memory>
#include <unistd.h>
#include <filesystem>
#include <sys/stat.h>
using namespace seq; using Lambda::Storage::KVStorage::StorageInterface; using Lambda::Storage::LocalStorage;
typedef std::map<std::string, std::string> Model;
static std::string dir, db; static std::vector<std::string> probes;
static void check(StorageInterface& s, const Model& m, const std::string& hist) {
	if (s.size() != m.size()) mc::violate("size", "size() is " + std::to_string(s.size()) + " instead of " + std::to_string(m.size()) + " after " + hist);
	for (auto& k : probes) {
		auto it = m.find(k); bool has = s.hasItem(k); if (has != (it != m.end())) mc::violate("has", "hasItem(" + mc::show(k, 20) + ") is wrong after " + hist);
		std::string v = s.getItem(k); if (v != (it == m.end() ? std::string() : it->second)) mc::violate("get", "getItem(" + mc::show(k, 20) + ") returned " + mc::show(v, 40) + " (" + std::to_string(v.size()) + " bytes) instead of " + (it == m.end() ? std::string("nothing") : mc::show(it->second, 40) + " (" + std::to_string(it->second.size()) + " bytes)") + " after " + hist);
	}
}
static uint64_t mh(const Model& m) { uint64_t h = 9; for (auto& e : m) h = mc::mix(mc::mix(h, mc::hash_str(e.first)), mc::hash_str(e.second)); return h; }
static void start() { std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); db = dir + "/store.db"; }
static void history(const std::vector<std::string>& K, const std::vector<std::string>& V, int n) {
	start(); probes = K; probes.push_back("never"); Model m; std::string hist; auto s = std::make_unique<StorageInterface>(db); int nk = K.size(), nv = V.size();
	for (int i = 0; i < n; i++) {
		int op = mc::choose(nk * nv + nk + 2); std::string why; bool th = false;
		if (op < nk * nv) { auto& k = K[op / nv]; auto& v = V[op % nv]; hist += "set(" + mc::show(k, 10) + (k.size() > 10 ? ":" + std::to_string(k.size()) : "") + "," + mc::show(v, 10) + ":" + std::to_string(v.size()) + ") "; th = throws([&] { s->setItem(k, v); }, "setItem", &why); if (th) { if (k.size() <= 65535) mc::violate("refused", "storing failed: " + why + " after " + hist); } else { if (k.size() > 65535 && false) {} m[k] = v; } }
		else if (op < nk * nv + nk) { auto& k = K[op - nk * nv]; hist += "remove(" + mc::show(k, 10) + ") "; s->removeItem(k); m.erase(k); }
		else if (op == nk * nv + nk) { hist += "clear "; s->clear(); m.clear(); }
		else { hist += "reopen "; s.reset(); if (throws([&] { s = std::make_unique<StorageInterface>(db); }, "open", &why)) mc::violate("reopen", "reopening failed: " + why + " after " + hist); }
		check(*s, m, hist); mc::step(mc::mix(mh(m), i));
	}
	for (int i = 0; i < 2; i++) { s.reset(); std::string why; if (throws([&] { s = std::make_unique<StorageInterface>(db); }, "open", &why)) mc::violate("reopen", "reopening failed: " + why + " after " + hist); check(*s, m, hist + "reopen "); }
	s.reset(); mc::outcome(mh(m)); if (m.size()) mc::nontrivial(); if (mc::tracing()) mc::note(hist);
	std::filesystem::remove_all(dir);
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C17"; bool th = mc::thorough(); cfg.leak_check = true;
	cfg.rule = "all histories of 4 (thorough 5) operations (set, remove, clear, reopen) over 3 colliding keys and 3 values, of 3 (4) over empty and binary keys and values, of 2 (3) over keys of 0, 255, 256, 65534..65537 and 131072 bytes and values around the stream buffer sizes; every pair of value lengths 0..700; every single-byte key and value; histories of up to 5000 records; file names without and with new directories, the default file; every answer compared after each step and after reopening twice";
	cfg.assumptions = {"values of 4 GiB and more are not exercised"};
	dir = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/kv"; cfg.worker_init = [] { dir += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc;
	sc.push_back({"small", 0, [=] { history({"a", "ab", "A"}, {"1", "22", ""}, th ? 5 : 4); }});
	sc.push_back({"binary", 0, [=] { history({"", std::string("\0", 1), std::string("\0\0a\xff", 4), "mlkvdb\x03"}, {"", std::string("\0\0\0\0\0\0\0\0\0", 9), "\n\r\x1a\xff"}, th ? 4 : 3); }});
	sc.push_back({"sizes", 0, [=] { history({"", pattern(255, 0), pattern(256, 0), pattern(65534, 1), pattern(65535, 1), pattern(65536, 1), pattern(65537, 1), pattern(131072, 1), "k"}, {"", "v", pattern(8190, 1), pattern(8191, 1), pattern(65536, 0)}, th ? 3 : 2); }});
	sc.push_back({"lengths", 0, [] { // many records of every length behind each other
		start(); probes.clear(); Model m; int base = mc::choose(70) * 10; auto s = std::make_unique<StorageInterface>(db); for (int i = 0; i < 10; i++) { std::string k = pattern(base + i, 0) + std::to_string(i), v = pattern(base + i, 1); s->setItem(k, v); m[k] = v; probes.push_back(k); } int drop = mc::choose(11); if (drop < 10) { s->removeItem(probes[drop]); m.erase(probes[drop]); }
		for (int i = 0; i < 2; i++) { check(*s, m, "lengths"); s.reset(); s = std::make_unique<StorageInterface>(db); } check(*s, m, "lengths"); mc::step(mh(m)); mc::outcome(mh(m)); mc::nontrivial(); s.reset(); std::filesystem::remove_all(dir);
	}});
	sc.push_back({"bytes", 0, [] { start(); int k = mc::choose(256), v = mc::choose(256); std::string K(1, (char)k), V(1, (char)v); probes = {K, V, K + V}; Model m; auto s = std::make_unique<StorageInterface>(db); s->setItem(K, V); m[K] = V; s->setItem(K + V, V + K); m[K + V] = V + K; check(*s, m, "bytes"); s.reset(); s = std::make_unique<StorageInterface>(db); check(*s, m, "bytes, reopen"); mc::step(mh(m)); mc::outcome(mh(m)); mc::nontrivial(); s.reset(); std::filesystem::remove_all(dir); }});
	sc.push_back({"big", 0, [=] { // total sizes around buffer and page multiples
		start(); size_t n = std::vector<size_t>{511, 512, 1023, 1024, 4095, 4096, 8189, 8191, 8192, 8193, 16384, 65535, 65536, 1 << 20, (16u << 20) + 1}[mc::choose(15)]; int kind = mc::choose(3), pos = mc::choose(3); probes = {"x", "y", "big"}; Model m; auto s = std::make_unique<StorageInterface>(db); auto big = [&] { s->setItem("big", pattern(n, kind)); m["big"] = pattern(n, kind); };
		if (pos == 0) big(); s->setItem("x", "1"); m["x"] = "1"; if (pos == 1) big(); s->setItem("y", "2"); m["y"] = "2"; if (pos == 2) big(); int after = mc::choose(3); if (after == 1) { s->removeItem("big"); m.erase("big"); } if (after == 2) { s->setItem("big", "small"); m["big"] = "small"; }
		check(*s, m, "big"); s.reset(); s = std::make_unique<StorageInterface>(db); check(*s, m, "big, reopen"); mc::step(mh(m)); mc::outcome(mh(m)); mc::nontrivial(); s.reset(); std::filesystem::remove_all(dir);
	}});
	sc.push_back({"long-history", 0, [] { // thousands of records and long histories, with reopening in between
		int n = std::vector<int>{100, 1000, 5000}[mc::choose(3)], st = 1 + mc::choose(3), mode = mc::choose(4); start(); probes.clear(); Model m; auto s = std::make_unique<StorageInterface>(db); auto key = [](int i) { return "key" + std::to_string(i) + std::string(i % 40, 'k'); };
		for (int i = 0; i < n; i++) { int j = (int)((long long)i * (st * 2 + 1) % n); std::string k = key(j), v = pattern(j % 97, 1) + std::to_string(i); s->setItem(k, v); m[k] = v; if (i % 3 == 1 && mode) { k = key((j * 7) % n); s->removeItem(k); m.erase(k); } if (mode == 2 && i % 5 == 4) { k = key(j); s->setItem(k, ""); m[k] = ""; } if (mode == 3 && i == n / 2) { s->clear(); m.clear(); } if (i % (n / 3) == n / 3 - 1) { s.reset(); s = std::make_unique<StorageInterface>(db); } }
		for (int i = 0; i < n; i++) probes.push_back(key(i)); for (int i = 0; i < 2; i++) { check(*s, m, "long"); s.reset(); s = std::make_unique<StorageInterface>(db); } check(*s, m, "long, reopened"); mc::step(mh(m)); mc::outcome(mh(m)); mc::nontrivial(); s.reset(); std::filesystem::remove_all(dir);
	}});
	sc.push_back({"names", 0, [] {
		start(); std::filesystem::current_path(dir); static const std::vector<std::string> N = {"bare.db", "./dot.db", "sub/one.db", "sub/a/b/c.db", "sub//two.db", "no_extension", "with space.db", "\xc3\xa9.db", "sub/../up.db", "*"}; std::string n = pick(N); if (n == "*") n = ""; else if (mc::choose(2)) n = dir + "/" + n; probes = {"a", "b"}; Model m; std::string why; std::unique_ptr<StorageInterface> s;
		if (n.find("..") != std::string::npos) std::filesystem::create_directories(dir + "/sub");
		for (int i = 0; i < 3; i++) { if (throws([&] { s = n.empty() ? std::make_unique<LocalStorage>() : std::make_unique<LocalStorage>(n); }, "open", &why)) mc::violate("open", "opening a store named " + n + " failed: " + why); check(*s, m, "names " + n); s->setItem(i % 2 ? "a" : "b", std::to_string(i)); m[i % 2 ? "a" : "b"] = std::to_string(i); check(*s, m, "names " + n); s.reset(); }
		mc::step(mc::hash_str(n)); mc::outcome(mh(m)); mc::nontrivial(); std::filesystem::current_path("/"); std::filesystem::remove_all(dir);
	}});
	sc.push_back({"two", 0, [=] { // two stores do not share anything
		start(); probes = {"a", "b"}; Model m[2]; std::unique_ptr<StorageInterface> s[2]; std::string h; for (int i = 0; i < 2; i++) s[i] = std::make_unique<StorageInterface>(db + std::to_string(i));
		for (int i = 0; i < (th ? 5 : 4); i++) { int w = mc::choose(2), op = mc::choose(4); if (op == 0) { s[w]->setItem("a", "v" + std::to_string(i)); m[w]["a"] = "v" + std::to_string(i); } else if (op == 1) { s[w]->setItem("b", ""); m[w]["b"] = ""; } else if (op == 2) { s[w]->clear(); m[w].clear(); } else { s[w].reset(); s[w] = std::make_unique<StorageInterface>(db + std::to_string(w)); } h += std::to_string(w) + ":" + std::to_string(op) + " "; check(*s[0], m[0], h); check(*s[1], m[1], h); mc::step(mc::mix(mh(m[0]), mh(m[1]))); }
		mc::outcome(mc::mix(mh(m[0]), mh(m[1]))); mc::nontrivial(); s[0].reset(); s[1].reset(); std::filesystem::remove_all(dir);
	}});
	return mc::run(argc, argv, cfg, sc);
}
