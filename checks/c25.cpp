#include "core/encoding/encoding.hpp"
#include "seq.hpp"
using namespace seq;
namespace E = Lambda::Encoding;
using mc::violate;

static bool unreserved(unsigned char c) { return isalnum(c) || c == '-' || c == '.' || c == '_' || c == '~'; }

static void enc(const std::string& in) {
	std::string b = E::toBase64(B(in)), r = ref_b64(in);
	if (b != r) violate("base64-encode", "toBase64(" + show(in) + ") = " + show(b) + ", RFC 4648 says " + show(r));
	if (S(E::fromBase64(r)) != in) violate("base64-roundtrip", "fromBase64(" + show(r) + ") = " + show(E::fromBase64(r)));
	std::string h = E::toHex(B(in));
	if (h.size() != in.size() * 2) violate("hex-encode", "toHex length for " + show(in));
	for (size_t i = 0; i < in.size(); i++) if (hexval(h[2 * i]) * 16 + hexval(h[2 * i + 1]) != (uint8_t)in[i]) violate("hex-encode", "toHex(" + show(in) + ") = " + show(h));
	if (S(E::fromHex(h)) != in || S(E::fromHex(lower(h))) != in) violate("hex-roundtrip", "fromHex(" + show(h) + ")");
	if (in.size() == 1) { auto x = E::byteToHex((uint8_t)in[0]); if (std::string(x.string, 3) != h + std::string(1, '\0') || E::hexToByte(x) != (uint8_t)in[0]) violate("hex-byte", "byteToHex(" + show(in) + ") = " + show(std::string(x.string, 2))); }
	std::string u = E::encodeURIComponent(in), d;
	for (size_t i = 0; i < u.size(); i++) {
		if (u[i] == '%') {
			if (i + 2 >= u.size() || hexval(u[i + 1]) < 0 || hexval(u[i + 2]) < 0) violate("uri-encode", "encodeURIComponent(" + show(in) + ") = " + show(u));
			d.push_back((char)(hexval(u[i + 1]) * 16 + hexval(u[i + 2]))); if (unreserved(d.back())) violate("uri-encode-escaped", "encodeURIComponent(" + show(in) + ") escapes an unreserved character: " + show(u)); i += 2;
		} else {
			if (!unreserved(u[i])) violate("uri-encode-unescaped", "encodeURIComponent(" + show(in) + ") leaves reserved or non-ASCII byte: " + show(u));
			d.push_back(u[i]);
		}
	}
	if (d != in) violate("uri-encode", "encodeURIComponent(" + show(in) + ") = " + show(u));
	if (E::decodeURIComponent(u) != in) violate("uri-roundtrip", "decodeURIComponent(" + show(u) + ") = " + show(E::decodeURIComponent(u)));
	mc::step(mc::hash_str(in)); mc::outcome(mc::hash_str(b)); mc::nontrivial();
	if (mc::tracing()) mc::note("encode " + show(in) + " -> " + b + " / " + h + " / " + show(u));
}

static void dec(const std::string& t) {
	Bytes out; std::string so;
	uint64_t oh = mc::hash_str(t);
	bool th = throws([&] { out = E::fromBase64(t); }, "fromBase64");
	if (!th) {
		size_t pads = 0; bool bad = false; std::string core = t;
		while (!core.empty() && core.back() == '=' && pads < 2) core.pop_back(), pads++;
		for (unsigned char c : core) if (!isalnum(c) && c != '+' && c != '/') bad = true;
		if (bad) violate("base64-alphabet", "fromBase64(" + show(t) + ") accepted text outside the alphabet: " + show(out));
		// a decodable text must be decoded to the bytes it stands for (bits beyond the last whole byte are free)
		std::string ref; unsigned acc = 0, have = 0; static const std::string AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		for (char c : core) { acc = (acc << 6 | (unsigned)AL.find(c)) & 0xffff; have += 6; if (have >= 8) have -= 8, ref.push_back((char)(acc >> have)); }
		if (!bad && core.size() % 4 != 1 && S(out) != ref) violate("base64-decode", "fromBase64(" + show(t) + ") = " + show(out) + ", expected " + show(ref));
		oh = mc::mix(oh, mc::hash_bytes(out.data(), out.size()));
	} else {
		bool canon = t.size() % 4 == 0; std::string core = t; while (!core.empty() && core.back() == '=' && t.size() - core.size() < 2) core.pop_back();
		for (unsigned char c : core) if (!isalnum(c) && c != '+' && c != '/') canon = false;
		if (canon) violate("base64-reject", "fromBase64 rejected valid " + show(t));
	}
	th = throws([&] { out = E::fromHex(t); }, "fromHex");
	bool hv = t.size() % 2 == 0; for (unsigned char c : t) if (hexval(c) < 0) hv = false;
	if (th == hv) violate("hex-alphabet", std::string("fromHex(") + show(t) + (th ? ") rejected a valid text" : ") accepted a text that is not hex: " + show(out)));
	if (!th) for (size_t i = 0; i < out.size(); i++) if (out[i] != hexval(t[2 * i]) * 16 + hexval(t[2 * i + 1])) violate("hex-decode", "fromHex(" + show(t) + ") = " + show(out));
	if (t.size() == 2) { E::HexByte x; memcpy(x.string, t.c_str(), 3); uint8_t v = 0; bool no = throws([&] { v = E::hexToByte(x); }, "hexToByte"); if (no == hv || (!no && v != out[0])) violate("hex-byte", "hexToByte(" + show(t) + ") " + (no ? "throws" : "= " + std::to_string(v))); }
	th = throws([&] { so = E::decodeURIComponent(t); }, "decodeURIComponent");
	bool uv = true; std::string ref;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] != '%') { ref.push_back(t[i]); continue; }
		if (i + 2 >= t.size() || hexval(t[i + 1]) < 0 || hexval(t[i + 2]) < 0) { uv = false; break; }
		ref.push_back((char)(hexval(t[i + 1]) * 16 + hexval(t[i + 2]))); i += 2;
	}
	if (uv && (th || so != ref)) violate("uri-decode", "decodeURIComponent(" + show(t) + ") = " + (th ? "throws" : show(so)));
	if (!uv && !th && so != t) { // a malformed escape may be rejected or left alone, but not turned into other bytes
		bool lit = false; for (size_t i = 0; i + 0 < so.size(); i++) if (so[i] == '%') lit = true;
		if (!lit) violate("uri-decode-malformed", "decodeURIComponent(" + show(t) + ") = " + show(so));
	}
	mc::step(mc::hash_str(t, 99)); mc::outcome(oh);
	if (!th) mc::nontrivial();
	if (mc::tracing()) mc::note("decode " + show(t));
}

int main(int argc, char** argv) {
	mc::Config c; c.property = "C25";
	c.rule = "every byte string up to the stated lengths over boundary alphabets, every length up to 1100 and 15 lengths up to 200000 with position-dependent patterns, every text over codec alphabets; non-trivial = accepted input";
	c.assumptions = {"the C locale is in force", "inputs up to the enumerated lengths and alphabets represent longer ones (codecs work on 3/4 and 1/2 byte groups)"};
	std::string all; for (int i = 0; i < 256; i++) all.push_back((char)i);
	std::vector<mc::Scenario> s;
	s.push_back({"encode-all-bytes-2", 0, [=] { enc(pickstr(all, 2)); }});
	std::string b3("\x00\x01\x0f\x10\x1f\x20\x25\x2b\x2d\x2e\x2f\x30\x39\x3a\x3f\x40\x41\x5a\x5f\x60\x61\x7a\x7e\x7f\x80\xbf\xc0\xc3\xfb\xfc\xfe\xff", 32);
	s.push_back({"encode-3", 0, [=] { enc(pickstr(mc::thorough() ? all : b3, 3, 3)); }});
	s.push_back({"encode-6", 0, [=] { enc(pickstr(std::string("\x00 %a\xff", 5), mc::thorough() ? 8 : 6, 4)); }});
	s.push_back({"encode-lengths", 0, [=] { int n = mc::choose(1100), k = mc::choose(6); enc(pattern(n, k)); }});
	s.push_back({"encode-large", 0, [=] { static const int N[] = {2047, 2048, 2049, 4095, 4096, 4097, 16383, 65533, 65534, 65535, 65536, 65537, 65538, 131071, 200000}; int n = N[mc::choose(15)], k = mc::choose(6); enc(pattern(n, k)); }});
	s.push_back({"decode-all-chars-2", 0, [=] { dec(pickstr(all, 2)); }});
	s.push_back({"decode-4-one-odd", 0, [=] { std::string t = "Ab3f"; int p = mc::choose(4); t[p] = all[mc::choose(256)]; int q = mc::choose(4); t[q] = all[mc::choose(256)]; dec(t); }});
	s.push_back({"decode-uri-hex", 0, [=] { std::string t = std::string("%") + all[mc::choose(256)] + all[mc::choose(256)]; dec(t); }});
	s.push_back({"decode-5", 0, [=] { dec(pickstr("AQ+/=-a%4g", mc::thorough() ? 6 : 5, 3)); }});
	s.push_back({"decode-padding-8", 0, [=] { dec(pickstr("A=", mc::thorough() ? 12 : 9)); }});
	s.push_back({"decode-lengths", 0, [=] { int n = mc::choose(300), k = mc::choose(2); std::string t = k ? E::toBase64(B(pattern(n, 1))) : pattern(n, 0); int cut = mc::choose(4); if ((int)t.size() >= cut) t.resize(t.size() - cut); dec(t); }});
	return mc::run(argc, argv, c, s);
}
