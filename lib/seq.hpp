// helpers for sequential checks
#pragma once
#include "explore.hpp"
#include <string>
#include <vector>
#include <stdexcept>
#include <cstring>
#include <cstdio>

namespace seq {
using Bytes = std::vector<uint8_t>;
inline std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
inline Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline std::string show(const std::string& s) { return mc::show(s, 160); }
inline std::string show(const Bytes& s) { return mc::show(s, 160); }

// every string of length 0..maxlen over the alphabet
inline std::string pickstr(const std::string& alphabet, int maxlen, int minlen = 0) {
	int n = minlen + mc::choose(maxlen - minlen + 1); std::string s; s.reserve(n);
	for (int i = 0; i < n; i++) s.push_back(alphabet[mc::choose((int)alphabet.size())]);
	return s;
}
// every concatenation of 0..maxn tokens
inline std::string picktok(const std::vector<std::string>& toks, int maxn, int minn = 0) {
	int n = minn + mc::choose(maxn - minn + 1); std::string s;
	for (int i = 0; i < n; i++) s += toks[mc::choose((int)toks.size())];
	return s;
}
template <class T> const T& pick(const std::vector<T>& v) { return v[mc::choose((int)v.size())]; }

// calls f; returns true if it threw a standard exception; anything else thrown is a violation
template <class F> bool throws(F&& f, const char* what, std::string* msg = nullptr) {
	try { f(); return false; }
	catch (const mc::Abandon&) { throw; }
	catch (const std::exception& e) { if (msg) *msg = e.what(); return true; }
	catch (...) { mc::violate("non-standard-exception", std::string(what) + " threw something that is not a std::exception"); }
}

inline std::string pattern(size_t n, int kind) {
	std::string s(n, 0); uint32_t x = 0x1234567u + kind * 7919;
	for (size_t i = 0; i < n; i++) {
		switch (kind % 6) {
			case 0: s[i] = 'a' + (i * 7 + i / 26) % 26; break;
			case 1: x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); break;
			case 2: s[i] = (char)0; break;
			case 3: s[i] = (char)0xff; break;
			case 4: s[i] = (char)(i & 0xff); break;
			case 5: s[i] = (i % 61 == 60) ? '\n' : (char)('0' + i % 10); break;
		}
	}
	return s;
}

// ---- reference implementations ----
inline std::string ref_b64(const std::string& in) {
	static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o; size_t i = 0;
	for (; i < in.size(); i += 3) {
		unsigned v = 0; size_t k = std::min<size_t>(3, in.size() - i);
		for (size_t j = 0; j < 3; j++) v = v << 8 | (j < k ? (uint8_t)in[i + j] : 0);
		for (size_t j = 0; j < 4; j++) o.push_back(j <= k ? T[(v >> (18 - 6 * j)) & 63] : '=');
	}
	return o;
}
inline int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline std::string ref_sha1(const std::string& m) {
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	std::string p = m; uint64_t bits = (uint64_t)m.size() * 8; p.push_back((char)0x80);
	while (p.size() % 64 != 56) p.push_back(0);
	for (int i = 7; i >= 0; i--) p.push_back((char)(bits >> (8 * i)));
	auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
	for (size_t o = 0; o < p.size(); o += 64) {
		uint32_t w[80];
		for (int i = 0; i < 16; i++) w[i] = (uint8_t)p[o + 4 * i] << 24 | (uint8_t)p[o + 4 * i + 1] << 16 | (uint8_t)p[o + 4 * i + 2] << 8 | (uint8_t)p[o + 4 * i + 3];
		for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++) {
			uint32_t f, k;
			if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
			else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6;
			uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	std::string r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r.push_back((char)(h[i] >> (8 * j)));
	return r;
}
} // namespace seq
