// model of JSON values and a strict reference reader
#pragma once
#include "core/json/json.hpp"
#include "seq.hpp"
#include <map>
#include <cmath>
#include <memory>
namespace J = Lambda::JSON;

struct MV {
	enum T { Undef, Null, Bool, Int, Float, Str, Arr, Map } t = Undef;
	bool b = false; int32_t i = 0; long double f = 0; std::string s; std::vector<MV> a; std::map<std::string, MV> m;
	static MV null() { MV v; v.t = Null; return v; } static MV boolean(bool b) { MV v; v.t = Bool; v.b = b; return v; }
	static MV integer(int32_t i) { MV v; v.t = Int; v.i = i; return v; } static MV flt(long double f) { MV v; v.t = Float; v.f = f; return v; }
	static MV str(std::string s) { MV v; v.t = Str; v.s = std::move(s); return v; } static MV arr(std::vector<MV> a = {}) { MV v; v.t = Arr; v.a = std::move(a); return v; }
	static MV map(std::map<std::string, MV> m = {}) { MV v; v.t = Map; v.m = std::move(m); return v; }
};
inline std::string repr(const MV& v) {
	char b[80];
	switch (v.t) {
		case MV::Undef: return "undefined"; case MV::Null: return "null"; case MV::Bool: return v.b ? "true" : "false"; case MV::Int: return std::to_string(v.i);
		case MV::Float: snprintf(b, 80, "%.21Lgf", v.f); return b; case MV::Str: return "\"" + mc::show(v.s) + "\"";
		case MV::Arr: { std::string o = "["; for (auto& e : v.a) o += repr(e) + ","; return o + "]"; }
		case MV::Map: { std::string o = "{"; for (auto& e : v.m) o += "\"" + mc::show(e.first) + "\":" + repr(e.second) + ","; return o + "}"; }
	}
	return "?";
}
inline std::string repr(const J::Property& p) {
	using T = J::JSTypes; char b[80];
	switch (p.type()) {
		case T::Undefined: return "undefined"; case T::Null: return "null"; case T::Boolean: return p.asBool() ? "true" : "false"; case T::Integer: return std::to_string(p.asInt());
		case T::Float: snprintf(b, 80, "%.21Lgf", p.asFloat()); return b; case T::String: return "\"" + mc::show(p.asString()) + "\"";
		case T::Array: { std::string o = "["; for (auto& e : p.asArray()) o += repr(e) + ","; return o + "]"; }
		case T::Map: { std::map<std::string, const J::Property*> s; for (auto& e : p.asMap()) s[e.first] = &e.second; std::string o = "{"; for (auto& e : s) o += "\"" + mc::show(e.first) + "\":" + repr(*e.second) + ","; return o + "}"; }
	}
	return "?";
}
inline bool eq(const J::Property& p, const MV& v) {
	using T = J::JSTypes;
	switch (v.t) {
		case MV::Undef: return p.type() == T::Undefined && p.isUndefined() && p.isNil(); case MV::Null: return p.type() == T::Null && p.isNull() && p.isNil();
		case MV::Bool: return p.type() == T::Boolean && p.asBool() == v.b; case MV::Int: return p.type() == T::Integer && p.asInt() == v.i;
		case MV::Float: return p.type() == T::Float && p.asFloat() == v.f && std::signbit(p.asFloat()) == std::signbit(v.f); case MV::Str: return p.type() == T::String && p.asString() == v.s;
		case MV::Arr: if (p.type() != T::Array || p.asArray().size() != v.a.size()) return false; for (size_t i = 0; i < v.a.size(); i++) if (!eq(p.asArray()[i], v.a[i])) return false; return true;
		case MV::Map: if (p.type() != T::Map || p.asMap().size() != v.m.size()) return false; for (auto& e : v.m) { auto it = p.asMap().find(e.first); if (it == p.asMap().end() || !eq(it->second, e.second)) return false; } return true;
	}
	return false;
}
inline J::Property toProp(const MV& v) {
	switch (v.t) {
		case MV::Null: return J::Property(nullptr); case MV::Bool: return J::Property(v.b); case MV::Int: return J::Property((int32_t)v.i); case MV::Float: return J::Property(v.f); case MV::Str: return J::Property(v.s);
		case MV::Arr: { J::Array a; for (auto& e : v.a) a.push_back(toProp(e)); return J::Property(a); }
		case MV::Map: { J::Map m; for (auto& e : v.m) m.insert({e.first, toProp(e.second)}); return J::Property(m); }
		default: return J::Property();
	}
}
// strict RFC 8259 reader
struct Ref {
	const std::string& t; size_t p = 0; bool range = true;
	struct Bad {};
	explicit Ref(const std::string& s) : t(s) {}
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\r' || t[p] == '\n')) p++; }
	char pk() { return p < t.size() ? t[p] : 0; }
	void need(char c) { if (p >= t.size() || t[p] != c) throw Bad{}; p++; }
	void lit(const char* s) { while (*s) need(*s++); }
	unsigned hex4() { unsigned v = 0; for (int i = 0; i < 4; i++) { int h = p < t.size() ? seq::hexval(t[p]) : -1; if (h < 0) throw Bad{}; v = v * 16 + h; p++; } return v; }
	std::string str() {
		need('"'); std::string o;
		while (true) {
			if (p >= t.size()) throw Bad{};
			unsigned char c = t[p++];
			if (c == '"') return o;
			if (c < 32) throw Bad{};
			if (c != '\\') { o.push_back(c); continue; }
			char e = pk(); p++;
			switch (e) {
				case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
				case 'u': {
					unsigned u = hex4();
					if (u >= 0xD800 && u < 0xDC00) { if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { p += 2; unsigned l = hex4(); if (l < 0xDC00 || l > 0xDFFF) { range = false; } else u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); } else range = false; }
					else if (u >= 0xDC00 && u < 0xE000) range = false;
					if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xC0 | u >> 6); o += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { o += (char)(0xE0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
					else { o += (char)(0xF0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
				} break;
				default: throw Bad{};
			}
		}
	}
	MV val(int depth = 0) {
		ws(); char c = pk();
		if (c == '{') { p++; MV r = MV::map(); ws(); if (pk() == '}') { p++; return r; } while (true) { ws(); auto k = str(); ws(); need(':'); r.m[k] = val(depth + 1); ws(); if (pk() == ',') { p++; continue; } need('}'); return r; } }
		if (c == '[') { p++; MV r = MV::arr(); ws(); if (pk() == ']') { p++; return r; } while (true) { r.a.push_back(val(depth + 1)); ws(); if (pk() == ',') { p++; continue; } need(']'); return r; } }
		if (c == '"') return MV::str(str());
		if (c == 't') { lit("true"); return MV::boolean(true); } if (c == 'f') { lit("false"); return MV::boolean(false); } if (c == 'n') { lit("null"); return MV::null(); }
		size_t s = p; if (pk() == '-') p++;
		auto digs = [&] { if (!isdigit((unsigned char)pk())) throw Bad{}; while (isdigit((unsigned char)pk())) p++; };
		if (pk() == '0') p++; else digs();
		bool fl = false;
		if (pk() == '.') { p++; digs(); fl = true; } if (pk() == 'e' || pk() == 'E') { p++; if (pk() == '+' || pk() == '-') p++; digs(); fl = true; }
		std::string n = t.substr(s, p - s);
		if (fl) { errno = 0; long double v = strtold(n.c_str(), nullptr); if (errno) range = false; return MV::flt(v); }
		if (n.size() > 18) { range = false; return MV::integer(0); }
		long long v = atoll(n.c_str()); if (v < INT32_MIN || v > INT32_MAX) range = false; return MV::integer((int32_t)v);
	}
	MV doc() { MV v = val(); ws(); if (p != t.size()) throw Bad{}; return v; }
};
// 0: not standard JSON, 1: standard, 2: standard but outside the supported value range
inline int refparse(const std::string& t, MV& v) { Ref r(t); try { v = r.doc(); } catch (const Ref::Bad&) { return 0; } return r.range ? 1 : 2; }
