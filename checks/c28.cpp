#include "core/compression/compression.hpp"
#include "comp_common.hpp"
#include <memory>
#include <optional>
using namespace seq; using namespace comp;
namespace L = Lambda::Compress;
using L::GzipStreamCompressor; using L::GzipStreamDecompressor;
using mc::violate;
static const int K = 131072;
static const Bytes& src(int k) { static std::vector<Bytes> v; if (v.empty()) for (int i = 0; i < 3; i++) v.push_back(B(pattern(5 * K, i))); return v[k]; }

// expected life cycle of a compressor
struct Model { Bytes data, out; bool ended = false; std::string hist; };
static void verify(const Model& m) {
	Bytes r; if (!starts_gzip(m.out) || !ref_inflate(m.out, 31, r)) violate("not-standard", m.hist + ": " + std::to_string(m.out.size()) + " bytes of output are not one complete gzip stream");
	if (r != m.data) violate("not-lossless", m.hist + ": the stream holds " + std::to_string(r.size()) + " bytes instead of the " + std::to_string(m.data.size()) + " fed");
	mc::outcome(mc::hash_bytes(m.out.data(), m.out.size())); mc::nontrivial();
}
static void comp_ops(int depth, const std::vector<int>& sizes, int quality, int content) {
	auto c = std::make_unique<GzipStreamCompressor>((L::Quality)quality); Model m; m.hist = "quality " + std::to_string(quality); std::string e; int finished = 0;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(7 + (int)sizes.size() * 2); bool stop = false;
		switch (op) {
			case 0: stop = true; break;
			case 1: { m.hist += " end"; Bytes o; bool t = throws([&] { o = c->end(); }, "end", &e); if (t != m.ended) violate("end", m.hist + (t ? ": end() threw " + e : std::string(": end() of an ended stream did not throw"))); if (!t) { m.out.insert(m.out.end(), o.begin(), o.end()); m.ended = true; verify(m); finished++; } break; }
			case 2: m.hist += " reset"; c->reset(); m.data.clear(); m.out.clear(); m.ended = false; break;
			case 3: m.hist += " move"; c = std::make_unique<GzipStreamCompressor>(std::move(*c)); break;
			case 4: { m.hist += " moveassign-over-fresh"; auto d = std::make_unique<GzipStreamCompressor>(L::Quality::Fast); *d = std::move(*c); c = std::move(d); break; }
			case 5: { m.hist += " moveassign-over-used"; auto d = std::make_unique<GzipStreamCompressor>(L::Quality::Fast); Bytes x = B("other data"); d->nextChunk(x); if (mc::choose(2)) d->end(); *d = std::move(*c); c = std::move(d); break; }
			case 6: m.hist += " self-assign"; { auto& r = *c; r = std::move(*c); } break;
			default: {
				int n = sizes[(op - 7) / 2]; bool fin = (op - 7) & 1; m.hist += " " + std::to_string(n) + (fin ? "F" : "");
				size_t off = m.data.size() % (2 * K); Bytes in(src(content).begin() + off, src(content).begin() + off + n), keep = in, o; bool t = throws([&] { o = fin ? c->nextChunk(in, GzipStreamCompressor::StreamFlush::Finish) : c->nextChunk(in); }, "nextChunk", &e);
				if (t != m.ended) violate("nextChunk", m.hist + (t ? ": nextChunk threw " + e : std::string(": nextChunk on an ended stream did not throw")));
				if (in != keep) violate("input-modified", m.hist);
				if (!t) { m.data.insert(m.data.end(), keep.begin(), keep.end()); m.out.insert(m.out.end(), o.begin(), o.end()); if (fin) { m.ended = true; verify(m); finished++; } }
			}
		}
		mc::step(mc::hash_str(m.hist));
		if (stop) break;
	}
	if (mc::tracing()) mc::note(m.hist + " (" + std::to_string(finished) + " streams finished)");
}
struct DM { Bytes st, data; };
static DM stream(int i) {
	static std::vector<DM> v;
	if (v.empty()) {
		for (auto& d : {B("hello world"), Bytes(), B("a"), B(std::string(500, 'q'))}) v.push_back({ref_deflate(d, 31, 6), d});
		gz_header h; memset(&h, 0, sizeof h); h.name = (Bytef*)"f"; h.hcrc = 1; Bytes d = B("named"); v.push_back({ref_deflate(d, 31, 0, 0, &h), d});
		for (int n : {K - 1, K, K + 1, 2 * K, 3 * K}) { Bytes d = B(pattern(n, 0)); v.push_back({ref_deflate(d, 31, 6), d}); }
		for (int n : {K, 2 * K}) { Bytes d = B(pattern(n, 1)); v.push_back({ref_deflate(d, 31, 0), d}); }
	}
	return v[i];
}
static void feed(GzipStreamDecompressor& g, const DM& s, const std::vector<size_t>& cuts, const std::string& how, std::unique_ptr<GzipStreamDecompressor>* mv = nullptr) {
	Bytes out; size_t pos = 0; std::string e; GzipStreamDecompressor* p = &g;
	for (size_t i = 0; i <= cuts.size(); i++) {
		size_t to = i < cuts.size() ? cuts[i] : s.st.size(); Bytes in(s.st.begin() + pos, s.st.begin() + to), keep = in, o;
		if (p->isDone()) { if (pos < s.st.size()) violate("done-early", how + ": complete after " + std::to_string(pos) + " of " + std::to_string(s.st.size()) + " bytes"); if (!throws([&] { p->nextChunk(in); }, "nextChunk")) violate("after-done", how + ": nextChunk after completion did not throw"); }
		else { if (throws([&] { o = p->nextChunk(in); }, "nextChunk", &e)) violate("valid-rejected", how + ": nextChunk threw " + e + " after " + std::to_string(pos) + " bytes"); out.insert(out.end(), o.begin(), o.end()); }
		if (in != keep) violate("input-modified", how);
		pos = to; mc::step(mc::hash_str(how, pos * 31 + out.size()));
		if (out.size() > s.data.size() || !std::equal(out.begin(), out.end(), s.data.begin())) violate("wrong-data", how);
		if (mv && i < 3 && mc::choose(2)) { auto n = std::make_unique<GzipStreamDecompressor>(); if (mc::choose(2)) { *n = std::move(*p); } else n = std::make_unique<GzipStreamDecompressor>(std::move(*p)); *mv = std::move(n); p = mv->get(); }
	}
	if (!p->isDone()) violate("not-done", how + ": the whole stream was fed and isDone() is false"); if (out != s.data) violate("wrong-data", how + ": " + std::to_string(out.size()) + " of " + std::to_string(s.data.size()) + " bytes");
	mc::outcome(mc::hash_bytes(out.data(), out.size(), cuts.size())); mc::nontrivial(); if (mc::tracing()) mc::note(how + " -> complete");
}
static std::string cutstr(const std::vector<size_t>& c) { std::string s = "cuts"; for (auto x : c) s += " " + std::to_string(x); return s; }
int main(int argc, char** argv) {
	mc::Config c; c.property = "C28"; c.leak_check = true;
	c.rule = "every sequence of nextChunk(size, flush)/end/reset/move/move-assign/self-assign up to a depth over chunk sizes around the 128 KiB buffer, each finished stream checked by the reference decoder against the bytes fed; every 1-, 2- and 3-way cut (and byte-by-byte) of small streams and boundary cuts of large ones through the decompressor with moves, resets and failed chunks in between; histories of 50-1000 chunks through both ends; each execution is repeated and must return all memory it took";
	c.assumptions = {"the installed zlib library is correct"};
	std::vector<mc::Scenario> s; bool T = mc::thorough();
	s.push_back({"compress-small", 0, [] { comp_ops(mc::thorough() ? 5 : 4, {0, 3}, mc::choose(2) ? 6 : 0, 0); }});
	s.push_back({"compress-all-qualities", 0, [] { comp_ops(3, {5, 1000}, mc::choose(10), mc::choose(2)); }});
	s.push_back({"compress-boundaries", 0, [] { comp_ops(mc::thorough() ? 3 : 2, {0, 1, K - 1, K, K + 1, 2 * K}, mc::choose(2) ? 1 : 0, 1); }});
	s.push_back({"compress-exact-fill", 0, [] { // output sizes sweep across the temporary buffer size
		int d = mc::choose(mc::thorough() ? 140 : 64), q = mc::choose(2), how = mc::choose(3), mult = 1 + mc::choose(2); GzipStreamCompressor c((L::Quality)q); Model m; m.hist = "one chunk of " + std::to_string(mult * K - d) + " quality " + std::to_string(q) + " mode " + std::to_string(how); Bytes in(src(1).begin(), src(1).begin() + mult * K - d); m.data = in; std::string e;
		if (throws([&] { m.out = how == 0 ? c.nextChunk(in, GzipStreamCompressor::StreamFlush::Finish) : c.nextChunk(in); if (how == 2) { Bytes z; auto o = c.nextChunk(z); m.out.insert(m.out.end(), o.begin(), o.end()); } if (how) { auto o = c.end(); m.out.insert(m.out.end(), o.begin(), o.end()); } }, "compress", &e)) violate("nextChunk", m.hist + " threw " + e); mc::step(mc::hash_str(m.hist)); verify(m); }});
	s.push_back({"many-chunks", 0, [] { // long histories through both ends
		static const int N[] = {50, 256, 1000}, Q[] = {0, 1, 6, 9}, Z[] = {1, 7, 100, 1024, 4099}; int n = N[mc::choose(3)], z = Z[mc::choose(5)], q = Q[mc::choose(4)], k = mc::choose(3), fl = mc::choose(2); GzipStreamCompressor c((L::Quality)q); GzipStreamDecompressor g; Model m; m.hist = std::to_string(n) + " chunks of " + std::to_string(z) + " at quality " + std::to_string(q); Bytes back; if (n * z > 3000000) n = 3000000 / z;
		for (int i = 0; i < n; i++) { int len = fl ? (i * 37 % (z + 1)) : z; size_t off = (size_t)i * 911 % (4 * K); Bytes in(src(k).begin() + off, src(k).begin() + off + len), o = i + 1 == n && fl ? c.nextChunk(in, GzipStreamCompressor::StreamFlush::Finish) : c.nextChunk(in); m.data.insert(m.data.end(), in.begin(), in.end()); m.out.insert(m.out.end(), o.begin(), o.end()); if (o.size()) { auto b = g.nextChunk(o); back.insert(back.end(), b.begin(), b.end()); } }
		if (!fl) { auto o = c.end(); m.out.insert(m.out.end(), o.begin(), o.end()); auto b = g.nextChunk(o); back.insert(back.end(), b.begin(), b.end()); }
		verify(m); if (!g.isDone() || back != m.data) violate("wrong-data", m.hist + ": streamed through both ends, " + std::to_string(back.size()) + " of " + std::to_string(m.data.size()) + " bytes come back, or other ones"); mc::step(mc::path_hash()); }});
	s.push_back({"compress-bad-quality", 0, [] { int q = pick(std::vector<int>{-2, 10, 55}); if (!throws([&] { GzipStreamCompressor c((L::Quality)q); }, "ctor")) violate("bad-quality", "no error"); mc::step(q + 5); }});
	s.push_back({"decompress-cuts", 0, [] { int i = mc::choose(5); auto d = stream(i); int n = mc::choose(mc::thorough() ? 4 : 3); std::vector<size_t> cuts; size_t lo = 0; for (int k = 0; k < n; k++) { lo += mc::choose(d.st.size() - lo + 1); cuts.push_back(lo); } GzipStreamDecompressor g; feed(g, d, cuts, "stream " + std::to_string(i) + " " + cutstr(cuts)); }});
	s.push_back({"decompress-bytewise", 0, [] { int i = mc::choose(5); auto d = stream(i); int st = 1 + mc::choose(7); std::vector<size_t> cuts; for (size_t k = st; k < d.st.size(); k += st) cuts.push_back(k); GzipStreamDecompressor g; feed(g, d, cuts, "stream " + std::to_string(i) + " in steps of " + std::to_string(st)); }});
	s.push_back({"decompress-moves", 0, [] { int i = pick(std::vector<int>{0, 3, 6}); auto d = stream(i); size_t a = mc::choose(std::min<size_t>(d.st.size(), 40)), b = a + mc::choose(std::min<size_t>(d.st.size() - a, 4)); std::vector<size_t> cuts = {a, b}; GzipStreamDecompressor g; std::unique_ptr<GzipStreamDecompressor> h; feed(g, d, cuts, "moved, stream " + std::to_string(i) + " " + cutstr(cuts), &h); }});
	s.push_back({"decompress-large", 0, [] { int i = 5 + mc::choose(7); auto d = stream(i); std::vector<size_t> cand = {0, 1, 9, 10, 11, d.st.size() / 2, d.st.size() - 9, d.st.size() - 8, d.st.size() - 1, d.st.size()}; for (size_t b = K; b < d.st.size() + 2; b += K) { cand.push_back(b - 1); cand.push_back(b); } size_t a = std::min(pick(cand), d.st.size()), b = std::min(pick(cand), d.st.size()); if (b < a) std::swap(a, b); GzipStreamDecompressor g; feed(g, d, {a, b}, "large stream " + std::to_string(i) + " " + cutstr({a, b})); }});
	s.push_back({"decompress-reuse", 0, [] { GzipStreamDecompressor g; int rounds = 1 + mc::choose(3); std::string how = "reuse";
		for (int r = 0; r < rounds; r++) { int i = pick(std::vector<int>{0, 1, 4, 6}); auto d = stream(i); int mode = mc::choose(4); how += " " + std::to_string(i) + "/" + std::to_string(mode);
			if (mode == 0) feed(g, d, {}, how); else if (mode == 1) feed(g, d, {5, 5, d.st.size() - 3}, how); else if (mode == 2) { Bytes in(d.st.begin(), d.st.begin() + d.st.size() / 2); g.nextChunk(in); if (g.isDone()) violate("done-early", how); } else { Bytes in = d.st; in[in.size() - 6] ^= 0x40; in[0] ^= (mc::choose(2) ? 0x80 : 0); if (!throws([&] { g.nextChunk(in); }, "nextChunk")) violate("damage-accepted", how); if (g.isDone()) violate("done-on-damage", how); }
			g.reset(); if (g.isDone()) violate("reset", how + ": isDone() after reset"); } }});
	s.push_back({"decompress-truncated-damaged", 0, [] { int i = mc::choose(5); auto d = stream(i); GzipStreamDecompressor g; bool cut = mc::choose(2); size_t p = mc::choose(d.st.size()); Bytes in = d.st, o, o2; if (cut) in.resize(p); else in[p] ^= pick(std::vector<int>{1, 0x80, 0xff}); size_t a = mc::choose(2) ? in.size() / 2 : 0; Bytes i1(in.begin(), in.begin() + a), i2(in.begin() + a, in.end());
		bool t = throws([&] { o = g.nextChunk(i1); o2 = g.nextChunk(i2); }, "nextChunk"); o.insert(o.end(), o2.begin(), o2.end()); std::string how = "stream " + std::to_string(i) + (cut ? " cut to " : " changed at ") + std::to_string(p);
		if (cut && t) violate("prefix-rejected", how); if (cut && g.isDone()) violate("done-early", how); if (!cut && !t && g.isDone() && o != d.data) violate("damage-accepted", how + ": completed with wrong data"); mc::step(mc::hash_str(how)); mc::outcome(t * 2 + g.isDone()); mc::nontrivial(); }});
	(void)T;
	return mc::run(argc, argv, c, s);
}
