// reference (de)compression straight on zlib and brotli
#pragma once
#include "seq.hpp"
#include <zlib.h>
#include <brotli/encode.h>
#include <brotli/decode.h>
namespace comp {
using seq::Bytes;
// wbits: 31 gzip, 15 zlib, -15 raw, 47 auto. Strict: the whole input must be exactly one stream.
inline bool ref_inflate(const Bytes& in, int wbits, Bytes& out) {
	z_stream z; memset(&z, 0, sizeof z); if (inflateInit2(&z, wbits) != Z_OK) return false;
	out.clear(); std::vector<uint8_t> tmp(50000); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); int r;
	do { z.next_out = tmp.data(); z.avail_out = tmp.size(); r = inflate(&z, Z_NO_FLUSH); out.insert(out.end(), tmp.data(), tmp.data() + (tmp.size() - z.avail_out)); } while (r == Z_OK);
	bool ok = r == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
}
inline Bytes ref_deflate(const Bytes& in, int wbits, int level, int strategy = 0, gz_header* h = nullptr) {
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, wbits, 8, strategy); if (h) deflateSetHeader(&z, h);
	Bytes out(deflateBound(&z, in.size()) + 400); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); z.next_out = out.data(); z.avail_out = out.size();
	deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
}
inline bool ref_brotli(const Bytes& in, Bytes& out) {
	auto* s = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr); out.clear(); const uint8_t* ni = in.data(); size_t ai = in.size(); std::vector<uint8_t> tmp(50000); BrotliDecoderResult r;
	do { uint8_t* no = tmp.data(); size_t ao = tmp.size(); r = BrotliDecoderDecompressStream(s, &ai, &ni, &ao, &no, nullptr); out.insert(out.end(), tmp.data(), tmp.data() + (tmp.size() - ao)); } while (r == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT);
	BrotliDecoderDestroyInstance(s); return r == BROTLI_DECODER_RESULT_SUCCESS && ai == 0;
}
inline Bytes ref_brotli_enc(const Bytes& in, int q, int lgwin) {
	Bytes out(BrotliEncoderMaxCompressedSize(in.size()) + 100); size_t n = out.size(); BrotliEncoderCompress(q, lgwin, BROTLI_MODE_GENERIC, in.size(), in.data(), &n, out.data()); out.resize(n); return out;
}
inline bool starts_gzip(const Bytes& b) { return b.size() >= 18 && b[0] == 0x1f && b[1] == 0x8b && b[2] == 8; }
inline bool starts_zlib(const Bytes& b) { return b.size() >= 6 && (b[0] & 15) == 8 && (b[0] >> 4) <= 7 && (b[0] * 256 + b[1]) % 31 == 0; }
}
