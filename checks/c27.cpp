#include "core/compression/compression.hpp"
#include "comp_common.hpp"
using namespace seq; using namespace comp;
namespace L = Lambda::Compress;
using mc::violate;
enum Fmt { BR, GZ, DF, RAW };
static const char* FN[] = {"brotli", "gzip", "deflate", "raw"};
static Bytes comp_(int f, const Bytes& d, int q) {
	auto Q = (L::Quality)q;
	if (f == BR) return L::brotliCompressBuffer(d, Q);
	return L::zlibCompressBuffer(d, Q, f == GZ ? L::ZlibSetHeader::Gzip : f == DF ? L::ZlibSetHeader::Defalte : L::ZlibSetHeader::Raw);
}
static Bytes dec(int f, const Bytes& d) { return f == BR ? L::brotliDecompressBuffer(d) : L::zlibDecompressBuffer(d); }
static std::string nm(int f, const Bytes& d, int q) { return std::string(FN[f]) + " quality " + std::to_string(q) + " of " + std::to_string(d.size()) + " bytes"; }
static void same(const Bytes& a, const Bytes& b, const std::string& what) {
	if (a == b) return; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	violate("not-lossless", what + ": got " + std::to_string(a.size()) + " bytes instead of " + std::to_string(b.size()) + ", first difference at " + std::to_string(i));
}
static void roundtrip(int f, const Bytes& d, int q) {
	std::string what = nm(f, d, q), m; Bytes c, r;
	if (throws([&] { c = comp_(f, d, q); }, "compress", &m)) violate("compress-throws", what + " threw " + m);
	mc::step(mc::hash_str(what + std::to_string(mc::hash_bytes(d.data(), d.size()))));
	if (d.empty()) { if (throws([&] { r = dec(f, c); }, "decompress", &m)) violate("empty", what + " threw " + m); same(r, d, what); return; }
	if (f == GZ && !starts_gzip(c)) violate("container", what + " is not a gzip stream"); if (f == DF && !starts_zlib(c)) violate("container", what + " is not a zlib stream");
	bool ok = f == BR ? ref_brotli(c, r) : ref_inflate(c, f == GZ ? 31 : f == DF ? 15 : -15, r);
	if (!ok) violate("not-standard", what + " is not one complete standard stream"); same(r, d, what + " (reference decoder)");
	if (f == RAW) return;
	Bytes u; if (throws([&] { u = dec(f, c); }, "decompress", &m)) violate("decompress-throws", what + ": decompressing the result threw " + m);
	same(u, d, what); mc::outcome(mc::hash_bytes(c.data(), c.size())); mc::nontrivial();
	if (mc::tracing()) mc::note(what + " -> " + std::to_string(c.size()) + " bytes -> equal");
}
static void decode_ref(int f, const Bytes& c, const Bytes& d, const std::string& what) {
	Bytes u; std::string m; if (throws([&] { u = dec(f, c); }, "decompress", &m)) violate("valid-rejected", what + ": valid " + FN[f] + " stream rejected: " + m);
	same(u, d, what); mc::step(mc::hash_bytes(c.data(), c.size())); mc::nontrivial(); mc::outcome(mc::hash_bytes(d.data(), d.size()));
}
// damaged: must agree with the reference decoder
static void damaged(int f, const Bytes& c, const Bytes* orig, const std::string& what) {
	Bytes r, u; bool ok = f == BR ? ref_brotli(c, r) : ref_inflate(c, 47, r); std::string m;
	bool t = throws([&] { u = dec(f, c); }, "decompress", &m);
	mc::step(mc::hash_bytes(c.data(), c.size(), 77)); mc::outcome(mc::hash_str(m)); if (!ok) mc::nontrivial();
	if (ok && t) { if (!orig) violate("valid-rejected", what + ": a decodable stream was rejected: " + m); return; }
	if (ok) same(u, r, what); else if (!t) violate("damage-accepted", what + ": " + std::to_string(u.size()) + " bytes returned from a damaged stream instead of an error");
	if (mc::tracing()) mc::note(what + (t ? " -> rejected: " + m : " -> " + std::to_string(u.size()) + " bytes as the reference decoder"));
}
static const int K = 131072;
int main(int argc, char** argv) {
	mc::Config c; c.property = "C27"; c.hang_s = 20; c.rss_limit_mb = 2500;
	c.rule = "every format x quality x content kind x buffer size around the 128 KiB chunk boundaries (input and output side) is compressed, checked with the reference zlib/brotli decoder and restored; reference-made streams (strategies, window sizes, header fields) are decoded; every truncation and every single-byte change of small streams, and all short byte strings, must be rejected exactly when the reference decoder rejects them";
	c.assumptions = {"the installed zlib and brotli libraries are correct", "brotli has no checksum: a changed byte that still decodes cannot be told from valid data, the reference decoder decides"};
	std::vector<mc::Scenario> s;
	s.push_back({"roundtrip-boundaries", 0, [] {
		static const std::vector<int> sz = {0, 1, 2, 3, 17, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 3 * K, 300000};
		int f = mc::choose(4), q = mc::choose(10), n = pick(sz), k = mc::choose(6); roundtrip(f, B(pattern(n, k)), q); }});
	s.push_back({"roundtrip-stored-exact-fill", 0, [] { // compressed size sweeps across the output chunk size
		int f = mc::choose(4), q = mc::choose(3), base = mc::choose(2) ? 2 * K : K, d = mc::choose(mc::thorough() ? 140 : 70); roundtrip(f, B(pattern(base - d, 1)), q ? q * 3 : 0); }});
	s.push_back({"roundtrip-output-exact", 0, [] { // what the compressor emits for the second input chunk sweeps across the output chunk size, one byte at a time
		int f = 1 + mc::choose(3), q = pick(std::vector<int>{6, 9}), n = mc::thorough() ? 6000 + mc::choose(1500) : 6760 + mc::choose(80); auto d = pattern(2 * K + 1000 * mc::choose(2), 1);
		for (int i = K; i < K + n; i++) d[i] = d[i] & 127; roundtrip(f, B(d), q); }});
	s.push_back({"roundtrip-small-all", 0, [] { int f = mc::choose(4); int q = mc::choose(10); auto d = pickstr(std::string("ab\0\xff", 4), mc::thorough() ? 5 : 3); roundtrip(f, B(d), q); }});
	s.push_back({"roundtrip-every-length", 0, [] { int f = mc::choose(4), n = mc::choose(mc::thorough() ? 1500 : 400), k = mc::choose(3); roundtrip(f, B(pattern(n, k)), mc::choose(2) ? 9 : 1); }});
	if (mc::thorough()) s.push_back({"roundtrip-large", 0, [] { int f = mc::choose(4), q = mc::choose(10), m = 4 + mc::choose(5), d = mc::choose(3) - 1; roundtrip(f, B(pattern(m * K + d, mc::choose(3))), q); }});
	s.push_back({"decode-reference-zlib", 0, [] {
		static const std::vector<int> sz = {1, 2, 100, 65535, K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 4 * K};
		int wb = pick(std::vector<int>{15, 31, 9, 25, 12, 28}), lv = pick(std::vector<int>{0, 1, 6, 9}), st = mc::choose(5); auto d = B(pattern(pick(sz), mc::choose(4)));
		decode_ref(wb >= 25 ? GZ : DF, ref_deflate(d, wb, lv, st), d, "reference deflate wbits " + std::to_string(wb) + " level " + std::to_string(lv) + " strategy " + std::to_string(st) + " size " + std::to_string(d.size())); }});
	s.push_back({"decode-reference-gzip-headers", 0, [] {
		gz_header h; memset(&h, 0, sizeof h); h.text = mc::choose(2); h.time = mc::choose(2) * 12345; h.os = mc::choose(2) * 255; std::string name, comm; std::vector<uint8_t> ex;
		int e = mc::choose(3); if (e) { ex.assign(e == 1 ? 1 : 65535, 'x'); h.extra = ex.data(); h.extra_len = ex.size(); } int n = mc::choose(3); if (n) { name.assign(n == 1 ? 0 : 300, 'n'); h.name = (Bytef*)name.c_str(); } if (mc::choose(2)) { comm = "comment"; h.comment = (Bytef*)comm.c_str(); } h.hcrc = mc::choose(2);
		auto d = B(pattern(mc::choose(2) ? 3 : 2 * K, 0));
		z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, 0); deflateSetHeader(&z, &h); Bytes out(deflateBound(&z, d.size()) + 140000); z.next_in = d.data(); z.avail_in = d.size(); z.next_out = out.data(); z.avail_out = out.size(); deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z);
		decode_ref(GZ, out, d, "gzip header fields"); }});
	s.push_back({"decode-exact-input-chunk", 0, [] { // the stream length sweeps across the input chunk size
		int f = mc::choose(3), d = mc::choose(mc::thorough() ? 200 : 60); auto data = B(pattern(K - d, 1)); auto st = f == BR ? ref_brotli_enc(data, 1, 18) : ref_deflate(data, f == GZ ? 31 : 15, 0);
		if (mc::choose(2)) decode_ref(f, st, data, "stream of " + std::to_string(st.size()) + " bytes"); else { st.pop_back(); damaged(f, st, &data, std::string(FN[f]) + " stream of a chunk's size without its last byte"); } }});
	s.push_back({"decode-reference-brotli", 0, [] {
		static const std::vector<int> sz = {1, 2, 100, 65535, K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 4 * K};
		int q = pick(std::vector<int>{0, 1, 5, 9}), w = pick(std::vector<int>{10, 16, 22, 24}); auto d = B(pattern(pick(sz), mc::choose(4)));
		decode_ref(BR, ref_brotli_enc(d, q, w), d, "reference brotli quality " + std::to_string(q) + " window " + std::to_string(w) + " size " + std::to_string(d.size())); }});
	static const std::vector<std::string> smalls = {"a", "hello, hello, hello world", pattern(200, 1), pattern(300, 0), std::string(3000, 'z')};
	s.push_back({"truncate-small", 0, [] { int f = mc::choose(3), i = mc::choose(smalls.size()), q = pick(std::vector<int>{0, 1, 6, 9}); auto d = B(smalls[i]); auto st = comp_(f, d, q); size_t n = 1 + mc::choose(st.size() - 1); st.resize(n); damaged(f, st, &d, nm(f, d, q) + " cut to " + std::to_string(n)); }});
	s.push_back({"truncate-large", 0, [] { int f = mc::choose(3), k = mc::choose(2); auto d = B(pattern(3 * K, k)); auto st = f == BR ? ref_brotli_enc(d, 1, 18) : ref_deflate(d, f == GZ ? 31 : 15, 1);
		std::vector<size_t> cuts; for (size_t b = K; b < st.size(); b += K) for (int o = -2; o <= 2; o++) cuts.push_back(b + o); for (int o = 1; o <= 12; o++) cuts.push_back(st.size() - o); cuts.push_back(st.size() / 2); size_t n = cuts[mc::choose(cuts.size())]; st.resize(n); damaged(f, st, &d, nm(f, d, 1) + " cut to " + std::to_string(n)); }});
	s.push_back({"change-one-byte", 0, [] { int f = mc::choose(3), i = mc::choose(smalls.size()), q = pick(std::vector<int>{0, 1, 9}); auto d = B(smalls[i]); auto st = comp_(f, d, q); size_t p = mc::choose(st.size()); int x = mc::thorough() ? 1 + mc::choose(255) : pick(std::vector<int>{1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff, 0x55}); st[p] ^= x;
		Bytes u; damaged(f, st, &d, nm(f, d, q) + " byte " + std::to_string(p) + " ^ " + std::to_string(x));
		if (f != BR) { bool t = throws([&] { u = dec(f, st); }, "decompress"); if (!t) same(u, d, nm(f, d, q) + " byte " + std::to_string(p) + " changed"); } }});
	s.push_back({"trailing-data", 0, [] { int f = mc::choose(3), big = mc::choose(3); auto d = B(big == 0 ? "hello" : pattern(K - (big == 1 ? 18 : 11) - (f == GZ ? 0 : 0), 1)); auto st = f == BR ? ref_brotli_enc(d, 1, 18) : ref_deflate(d, f == GZ ? 31 : 15, big ? 0 : 6); int n = 1 + mc::choose(3); for (int i = 0; i < n; i++) st.push_back(pick(std::vector<int>{0, 'x', 0x1f})); damaged(f, st, &d, std::string(FN[f]) + " with " + std::to_string(n) + " bytes behind it"); }});
	s.push_back({"garbage", 0, [] { int f = mc::choose(2) ? BR : GZ; int n = 1 + mc::choose(mc::thorough() ? 3 : 2); Bytes b; for (int i = 0; i < n; i++) b.push_back(mc::choose(256)); damaged(f, b, nullptr, "bytes " + show(b)); }});
	s.push_back({"garbage-after-magic", 0, [] { static const std::vector<std::string> m = {std::string("\x1f\x8b\x08\0\0\0\0\0\0\3", 10), std::string("\x1f\x8b\x08\x1f", 4), std::string("\x78\x9c", 2), std::string("\x78\xbb", 2), "\x1f\x8b"}; Bytes b = B(pick(m)); int n = mc::choose(3); for (int i = 0; i < n; i++) b.push_back(mc::choose(256)); damaged(GZ, b, nullptr, "bytes " + show(b)); }});
	s.push_back({"wrong-quality", 0, [] { int f = mc::choose(3); int q = pick(std::vector<int>{-2, 10, 12, 100}); Bytes r, d = B("some data"); bool t = throws([&] { r = comp_(f, d, q); }, "compress"); if (!t) { Bytes u; bool ok = f == BR ? ref_brotli(r, u) : ref_inflate(r, 47, u); if (!ok || u != d) violate("bad-quality", "quality out of range gave a broken stream"); } mc::step(f * 1000 + q); }});
	return mc::run(argc, argv, c, s);
}
