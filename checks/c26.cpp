#include "core/crypto/crypto.hpp"
#include "seq.hpp"
using namespace seq;
using Lambda::Crypto::SHA1;
using mc::violate;

static void feed(SHA1& h, const std::string& part, bool asvec) { if (asvec) h.update(B(part)); else h.update(part); }
static void check(const std::string& m, const std::string& dig, const std::string& how) {
	std::string r = ref_sha1(m);
	if (dig != r) violate("digest", how + " of a " + std::to_string(m.size()) + " byte message: " + show(dig) + " instead of " + show(r));
	mc::step(mc::hash_str(m)); mc::outcome(mc::hash_str(dig)); mc::nontrivial();
	if (mc::tracing()) mc::note(how + ", " + std::to_string(m.size()) + " bytes -> " + show(dig));
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C26";
	c.rule = "every message length 0..420 (and around larger block multiples) with four byte patterns, every 2-way split of lengths up to 200, every composition of boundary chunk sizes, interleaved with reset at every point, copies, assignments and moves of hashers at boundary points; each digest compared with an independent FIPS 180 implementation";
	c.assumptions = {"messages longer than the enumerated lengths behave like them (block-wise algorithm); the digest of 513 MiB (thorough also 4097 MiB) is compared with a constant"};
	std::vector<mc::Scenario> s;
	s.push_back({"lengths", 0, [] { int n = mc::choose(420), k = mc::choose(4); SHA1 h; feed(h, pattern(n, k), mc::choose(2)); check(pattern(n, k), S(h.digest()), "one update"); }});
	s.push_back({"two-chunks", 0, [] { int n = mc::choose(mc::thorough() ? 400 : 200), a = mc::choose(n + 1); auto m = pattern(n, 1); SHA1 h; feed(h, m.substr(0, a), 0); feed(h, m.substr(a), 1); check(m, S(h.digest()), "split at " + std::to_string(a)); }});
	s.push_back({"compositions", 0, [] {
		static const std::vector<int> sz = {0, 1, 7, 8, 54, 55, 56, 57, 63, 64, 65, 119, 128};
		int parts = 1 + mc::choose(mc::thorough() ? 5 : 4); int tot = 0; std::string how = "chunks"; std::string m; SHA1 h; auto src = pattern(1000, 1);
		for (int i = 0; i < parts; i++) { int n = pick(sz); auto p = src.substr(tot, n); tot += n; m += p; feed(h, p, i & 1); how += " " + std::to_string(n); mc::step(mc::hash_str(how)); }
		check(m, S(h.digest()), how); }});
	s.push_back({"reset", 0, [] {
		static const std::vector<int> sz = {0, 1, 55, 56, 63, 64, 65, 130};
		SHA1 h; int n1 = pick(sz); feed(h, pattern(n1, 3), 0); bool d = mc::choose(2); if (d) h.digest();
		int n0 = 0; if (mc::choose(2)) { h.reset(); n0 = pick(sz); feed(h, pattern(n0, 0), 1); if (mc::choose(2)) h.digest(); }
		h.reset(); int n2 = pick(sz), n3 = pick(sz); auto a = pattern(n2, 1), b = pattern(n3, 4); feed(h, a, 0); feed(h, b, 1);
		check(a + b, S(h.digest()), "after reset(s) with " + std::to_string(n1) + "/" + std::to_string(n0) + " stale bytes"); }});
	s.push_back({"copies", 0, [] { // a copied, assigned or moved hasher carries on by itself, as does the one it came from
		static const std::vector<int> sz = {0, 1, 55, 56, 63, 64, 65, 130}; int how = mc::choose(7), n1 = pick(sz), n2 = pick(sz), n3 = pick(sz); auto src = pattern(1000, 1), a = src.substr(0, n1), b = src.substr(300, n2), c = src.substr(600, n3); bool first = mc::choose(2);
		auto two = [&](SHA1& h, SHA1& g, const std::string& pre, const char* w) { if (first) { feed(h, b, 0); feed(g, c, 1); } else { feed(g, c, 0); feed(h, b, 1); } check(pre + b, S(h.digest()), std::string("the original, ") + w); check(pre + c, S(g.digest()), w); };
		switch (how) {
			case 0: { SHA1 h; feed(h, a, 0); SHA1 g(h); two(h, g, a, "copied"); break; }
			case 1: { SHA1 h, g; feed(g, c, 0); feed(h, a, 0); g = h; two(h, g, a, "assigned"); break; }
			case 2: { auto g = SHA1().update(a); feed(g, c, 0); check(a + c, S(g.digest()), "from a chain of calls"); break; }
			case 3: { SHA1 h; feed(h, a, 0); SHA1 g(std::move(h)); feed(g, c, 0); check(a + c, S(g.digest()), "moved"); break; }
			case 4: { SHA1 h; feed(h, a, 1); SHA1& r = h; h = r; feed(h, b, 0); check(a + b, S(h.digest()), "assigned to itself"); break; }
			case 5: { SHA1 g; feed(g, b, 0); { SHA1 h; feed(h, a, 0); g = h; } feed(g, c, 0); check(a + c, S(g.digest()), "assigned from one that is gone"); break; }
			default: { std::vector<SHA1> v; SHA1 h; feed(h, a, 0); for (int i = 0; i < 3; i++) { v.push_back(h); feed(h, b, 0); } for (int i = 0; i < 3; i++) { feed(v[i], c, 1); std::string m = a; for (int k = 0; k < i; k++) m += b; check(m + c, S(v[i].digest()), "kept in a vector"); } }
		} }});
	s.push_back({"one-bit", 0, [] { int n = 1 + mc::choose(130), p = mc::choose(n), bit = mc::choose(8); auto m = pattern(n, 2); m[p] ^= 1 << bit; SHA1 h; h.update(m); check(m, S(h.digest()), "single bit"); }});
	s.push_back({"long", 0, [] { static const std::vector<int> sz = {4095, 4096, 8191, 65535, 65536, 65591, 131072, 1 << 20}; int n = pick(sz) + mc::choose(3); auto m = pattern(n, 1); SHA1 h; int cut = mc::choose(3) * 1000; h.update(m.substr(0, cut)); h.update(m.substr(cut)); check(m, S(h.digest()), "long"); }});
	s.push_back({"huge-length-field", 0, [] { // bit counts beyond 32 bits; digests of 513 MiB and (thorough) 4097 MiB of 'a' from another implementation
		int k = mc::choose(mc::thorough() ? 2 : 1); size_t n = k ? 4097 : 513; SHA1 h; std::string blk(1 << 20, 'a'); for (size_t i = 0; i < n; i++) { h.update(blk); mc::beat(); }
		std::string d; for (unsigned char b : h.digest()) { static const char* X = "0123456789abcdef"; d += X[b >> 4]; d += X[b & 15]; } if (d != (k ? "ec4b300f81180ee6096a5929f81b662031cb32e2" : "5930b5e0918a262af08c30d46df1ae31ca2cf5f4")) violate("digest", std::to_string(n) + " MiB: " + d);
		mc::step(n); mc::outcome(n); mc::nontrivial(); }});
	return mc::run(argc, argv, c, s);
}
