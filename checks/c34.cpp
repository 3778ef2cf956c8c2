// C34: identifiers are well-formed, survive copies and come from an unraced generator
#include "sched.hpp"
#include "seq.hpp"
#include <core/crypto/crypto.hpp>
#include <cstring>
#include <set>
#include <thread>
#include <vector>
using namespace Lambda; using sched::Rt; using sched::Lib;
static std::string hexof(uint32_t v) { unsigned char b[4]; memcpy(b, &v, 4); char t[9]; snprintf(t, 9, "%02x%02x%02x%02x", b[0], b[1], b[2], b[3]); return t; }
static void same(const Crypto::ShortID& a, const char* what) {
	std::string s; uint32_t v; { Lib l; v = a.id(); const std::string& r = a.toString(); Rt g; s = std::string(r.data(), r.size()); }
	if (s != hexof(v)) mc::violate("malformed", std::string(what) + ": identifier text " + mc::show(s) + " does not match its value " + hexof(v));
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C34"; cfg.warmup = true; bool th = mc::thorough();
	cfg.rule = "all schedules with up to 2 (thorough 3) preemptions of 2-3 threads that generate, update, copy and assign identifiers, with every load and store checked for races; all explicit values in byte-boundary classes and all sequences of 5 (thorough 7) generate/update/copy/move/assign steps; 20000 identifiers in a row in three ways";
	std::vector<mc::Scenario> sc;
	struct P { int threads, each, op; };
	for (P p : {P{2, 1, 0}, P{2, 3, 0}, P{3, 1, 0}, P{3, 2, 0}, P{2, 2, 1}, P{2, 2, 2}, P{3, 1, 2}, P{4, 1, 0}}) {
		if (p.threads == 4 && !th) continue;
		sc.push_back({"threads." + std::to_string(p.threads) + "x" + std::to_string(p.each) + "." + std::to_string(p.op), th ? 3 : 2, [=] {
			sched::Options o; o.prune = true;
			std::vector<std::vector<uint32_t>> got(p.threads);
			sched::run(o, [&] {
				std::vector<int> t;
				for (int i = 0; i < p.threads; i++) t.push_back(sched::spawn("generator", [&, i] {
					for (int k = 0; k < p.each; k++) {
						Lib l; Crypto::ShortID a;
						if (p.op == 1) a.update();
						if (p.op == 2) { Crypto::ShortID b(a); Crypto::ShortID c; c = b; if (c.id() != a.id()) { Rt g; mc::violate("copy", "a copied identifier differs"); } a = Crypto::ShortID(std::move(c)); }
						Rt g; same(a, "generated"); got[i].push_back(a.id());
					}
				}, false));
				for (int x : t) sched::join(x);
			});
			std::set<uint32_t> all; size_t n = 0; for (auto& g : got) for (auto v : g) { all.insert(v); n++; if (v == 0 || v > 0x7fffffff) mc::violate("range", "generated identifier " + std::to_string(v) + " is outside 1..2^31-1"); }
			// the generator is a 32-bit sequence: a collision of a handful of values is less likely than 1 in 10^8 per execution and a second try decides
			if (all.size() != n) { std::set<uint32_t> again; for (int i = 0; i < 64; i++) again.insert(Crypto::ShortID().id()); if (again.size() < 63) mc::violate("duplicate", "identifiers repeat"); }
			for (int i = 0; i < p.threads; i++) for (int j = 0; j < i; j++) if (got[i].size() > 1 && got[i] == got[j]) mc::violate("same-sequence", "two threads got the same sequence of identifiers");
			mc::nontrivial();
		}});
	}
	// explicit values
	sc.push_back({"values", 0, [] {
		static const unsigned char B[] = {0, 1, 9, 10, 15, 16, 0x7f, 0x80, 0x9f, 0xa0, 0xab, 0xf0, 0xff};
		unsigned char b[4]; for (auto& x : b) x = B[mc::choose(13)]; uint32_t v; memcpy(&v, b, 4);
		Crypto::ShortID a(v); if (a.id() != v) mc::violate("value", "identifier made from a value has another value"); same(a, "explicit");
		Crypto::ShortID c; c.update(v); if (c.id() != v) mc::violate("value", "identifier updated to a value has another value"); same(c, "updated");
		mc::step(v); mc::outcome(v); mc::nontrivial();
	}});
	int depth = th ? 7 : 5;
	sc.push_back({"steps", 0, [depth] {
		std::vector<Crypto::ShortID> v; v.reserve(16); v.emplace_back(0x01020304u); v.emplace_back(0xfffefdfcu); std::vector<uint32_t> m{0x01020304u, 0xfffefdfcu};
		for (int i = 0; i < depth; i++) {
			int op = mc::choose(7), a = mc::choose(2), b = 1 - a; uint32_t val = 0xA0B0C0D0u + i;
			switch (op) {
				case 0: v[a].update(); { uint32_t n = v[a].id(); if (n == m[a] || n == 0) mc::violate("stale", "update() did not make a new identifier"); m[a] = n; } break;
				case 1: v[a].update(val); m[a] = val; break;
				case 2: v[a] = v[b]; m[a] = m[b]; break;
				case 3: { Crypto::ShortID c(v[b]); v[a] = c; m[a] = m[b]; break; }
				case 4: { Crypto::ShortID c(std::move(v[b])); v[a] = c; m[a] = m[b]; v[b] = c; break; }
				case 5: v[a] = *&v[a]; break;
				case 6: { Crypto::ShortID c; v[b] = c; m[b] = c.id(); break; }
			}
			for (int k = 0; k < 2; k++) { if (v[k].id() != m[k]) mc::violate("lost-value", "after step " + std::to_string(op) + " an identifier has value " + hexof(v[k].id()) + " instead of " + hexof(m[k])); same(v[k], "step"); }
			mc::step(mc::mix(m[0] == m[1], mc::path_hash()));
		}
		mc::outcome(m[0] == m[1]); mc::nontrivial();
	}});
	// long histories: the identifiers of a long-running server keep being new
	sc.push_back({"many", 0, [] {
		int how = mc::choose(3), n = 20000; std::set<uint32_t> all; Crypto::ShortID keep;
		for (int i = 0; i < n; i++) {
			uint32_t v; if (how == 0) { Crypto::ShortID a; v = a.id(); if (i % 64 == 0) same(a, "many"); } else if (how == 1) { keep.update(); v = keep.id(); if (i % 64 == 0) same(keep, "many"); } else { Crypto::ShortID a; keep = a; v = keep.id(); if (i % 64 == 0) same(keep, "many"); }
			if (v == 0) mc::violate("range", "identifier 0"); all.insert(v);
		}
		// 20000 values out of 2^31: more than 6 coincidences has a probability below 10^-10
		if (all.size() + 6 < (size_t)n) mc::violate("duplicate", "of " + std::to_string(n) + " identifiers only " + std::to_string(all.size()) + " are different");
		mc::outcome(how); mc::nontrivial();
	}});
	return mc::run(argc, argv, cfg, sc);
}
