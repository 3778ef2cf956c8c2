// independent tar writer and reader for the virtual file system checks
#pragma once
#include "seq.hpp"
#include <zlib.h>
#include <map>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
namespace tar {
struct Entry { std::string name, data; long mtime = 0; char type = '0'; int style = 0; std::string prefix; };
inline std::string pad(std::string s) { s.resize((s.size() + 511) / 512 * 512, '\0'); return s; }
inline void put(std::string& h, size_t off, const std::string& v) { h.replace(off, v.size(), v); }
inline std::string octal(unsigned long v, int digits) { std::string s; for (int i = 0; i < digits; i++) { s.insert(s.begin(), '0' + (v & 7)); v >>= 3; } return s; }
// style: 0 "0000644\0", 1 space padded fields as old tars wrote them, 2 fields filled to the last byte where allowed
inline std::string header(const Entry& e, size_t size) {
	std::string h(512, '\0'); put(h, 0, e.name.substr(0, 100)); put(h, 100, "0000644"); put(h, 108, "0001750"); put(h, 116, "0001750");
	std::string sz = octal(size, 11), mt = octal(e.mtime, 11);
	if (e.style == 1) { size_t i = 0; while (i < 10 && sz[i] == '0') sz[i++] = ' '; sz += ' '; mt += ' '; } if (e.style == 2) { sz = octal(size, 12); mt = octal(e.mtime, 12); }
	put(h, 124, sz); put(h, 136, mt); h[156] = e.type; put(h, 257, std::string("ustar\0" "00", 8)); put(h, 265, "user"); put(h, 297, "group"); put(h, 329, "0000000"); put(h, 337, "0000000"); put(h, 345, e.prefix.substr(0, 155));
	unsigned sum = 8 * 32; for (size_t i = 0; i < 512; i++) if (i < 148 || i >= 156) sum += (unsigned char)h[i];
	put(h, 148, e.style == 2 ? octal(sum, 7) : octal(sum, 6) + std::string("\0 ", 2)); return h;
}
inline std::string build(const std::vector<Entry>& es, int endblocks = 2) { std::string s; for (auto& e : es) s += header(e, e.data.size()) + pad(e.data); return s + std::string(512 * endblocks, '\0'); }
// splits a long path the way ustar asks for; false when it does not fit
inline bool ustar(Entry& e, const std::string& path, int which = 0) {
	if (path.size() <= 100 && which == 0) { e.name = path; return true; }
	std::vector<size_t> cuts; for (size_t i = 1; i + 1 < path.size(); i++) if (path[i] == '/' && i <= 155 && path.size() - i - 1 <= 100) cuts.push_back(i);
	if (cuts.empty()) return false; size_t c = which == 1 ? cuts.back() : cuts.front(); e.prefix = path.substr(0, c); e.name = path.substr(c + 1); return true;
}
inline std::string gz(const std::string& in, int level, size_t flush_every = 0, bool zname = false, int strategy = Z_DEFAULT_STRATEGY) {
	z_stream z; memset(&z, 0, sizeof z); if (deflateInit2(&z, level, Z_DEFLATED, 31, 8, strategy) != Z_OK) abort(); gz_header gh; memset(&gh, 0, sizeof gh); if (zname) { gh.name = (Bytef*)"archive.tar"; gh.comment = (Bytef*)"c"; gh.extra = (Bytef*)"extra"; gh.extra_len = 5; gh.time = 77; deflateSetHeader(&z, &gh); }
	std::string out(deflateBound(&z, in.size()) + 4096 + (flush_every ? in.size() / flush_every * 16 : 0), '\0'); z.next_out = (Bytef*)out.data(); z.avail_out = out.size(); size_t pos = 0; int r = Z_OK;
	while (r != Z_STREAM_END) { size_t n = flush_every ? std::min(flush_every, in.size() - pos) : in.size() - pos; z.next_in = (Bytef*)in.data() + pos; z.avail_in = n; pos += n; r = deflate(&z, pos == in.size() ? Z_FINISH : Z_FULL_FLUSH); if (r != Z_OK && r != Z_STREAM_END) abort(); }
	out.resize(z.total_out); deflateEnd(&z); return out;
}
inline bool gunzip(const std::string& in, std::string& out, std::string& why) {
	z_stream z; memset(&z, 0, sizeof z); if (inflateInit2(&z, 31) != Z_OK) abort(); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); out.clear(); std::string buf(1 << 18, '\0'); int r = Z_OK;
	while (r == Z_OK) { z.next_out = (Bytef*)buf.data(); z.avail_out = buf.size(); r = inflate(&z, Z_NO_FLUSH); out.append(buf.data(), buf.size() - z.avail_out); if (r == Z_BUF_ERROR) break; }
	size_t left = z.avail_in; inflateEnd(&z); if (r != Z_STREAM_END) { why = "the gzip stream is incomplete or invalid (zlib " + std::to_string(r) + ")"; return false; } if (left) { why = std::to_string(left) + " bytes behind the gzip stream"; return false; } return true;
}
// strict reader: what any tar implementation makes of these bytes; "" or what is wrong with them
inline std::string parse(const std::string& a, std::map<std::string, Entry>& out) {
	size_t p = 0; std::string longname; bool haslong = false; if (a.size() % 512) return "size " + std::to_string(a.size()) + " is not a multiple of 512";
	for (;;) {
		if (p + 1024 > a.size()) return "no end-of-archive marker";
		std::string h = a.substr(p, 512); p += 512;
		if (h == std::string(512, '\0')) { if (a.substr(p).find_first_not_of('\0') != std::string::npos) return "zero block in front of further entries"; break; }
		unsigned sum = 8 * 32; for (size_t i = 0; i < 512; i++) if (i < 148 || i >= 156) sum += (unsigned char)h[i];
		auto num = [&](size_t o, size_t n, bool& ok) { unsigned long v = 0; size_t i = o; while (i < o + n && h[i] == ' ') i++; size_t st = i; for (; i < o + n && h[i] >= '0' && h[i] <= '7'; i++) v = v * 8 + (h[i] - '0'); ok = i > st && (i == o + n || h[i] == 0 || h[i] == ' '); return v; };
		bool ok; if (num(148, 8, ok) != sum || !ok) return "bad header checksum"; if (h.substr(257, 8) != std::string("ustar\0" "00", 8)) return "not a ustar header";
		for (int f : {100, 108, 116}) { num(f, 8, ok); if (!ok) return "bad number in header field at " + std::to_string(f); }
		unsigned long size = num(124, 12, ok); if (!ok) return "bad size"; unsigned long mt = num(136, 12, ok); if (!ok) return "bad mtime";
		if (p + (size + 511) / 512 * 512 > a.size()) return "entry reaches past the end"; std::string data = a.substr(p, size), rest = a.substr(p + size, (512 - size % 512) % 512); p += (size + 511) / 512 * 512; if (rest.find_first_not_of('\0') != std::string::npos) return "padding is not zero";
		char t = h[156]; if (t == 'L') { if (haslong) return "two long names in a row"; haslong = true; longname = data.substr(0, data.find('\0')); continue; }
		if (t != '0' && t != '\0') return std::string("entry type ") + t; std::string name = haslong ? longname : h.substr(0, 100); name = name.substr(0, name.find('\0')); std::string pre = h.substr(345, 155); pre = pre.substr(0, pre.find('\0')); if (!haslong && pre.size()) name = pre + "/" + name; haslong = false; if (name.empty()) return "entry without a name";
		Entry e; e.name = name; e.data = data; e.mtime = mt; if (!out.emplace(name, e).second) return "two entries named " + mc::show(name, 30);
	}
	return haslong ? "long name without a file" : "";
}
inline void write_file(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }
inline std::string read_file(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
}
