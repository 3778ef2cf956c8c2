#include "json_common.hpp"
#include <cfloat>
using namespace seq;
using mc::violate;
using std::string; using std::vector;

static void roundtrip(const MV& v) {
	J::Property p = toProp(v);
	if (!eq(p, v)) violate("construct", "value built from " + repr(v) + " reads back as " + repr(p));
	string t; string err;
	if (throws([&] { t = J::stringify(p); }, "stringify", &err)) violate("stringify", "stringify(" + repr(v) + ") throws " + err);
	MV r; int k = refparse(t, r);
	if (k == 0) violate("not-standard", "stringify(" + repr(v) + ") = " + show(t) + " is not a JSON document");
	auto same = [](const MV& a, const MV& b) { return repr(a) == repr(b); };
	if (!same(r, v)) violate("wrong-value", "stringify(" + repr(v) + ") = " + show(t) + " denotes " + repr(r));
	J::Property q;
	if (throws([&] { q = J::parse(t); }, "parse", &err)) violate("parse-back", "parse(stringify(" + repr(v) + ")) throws " + err + "; text " + show(t));
	if (!eq(q, v)) violate("parse-back", "parse(stringify(" + repr(v) + ")) = " + repr(q) + "; text " + show(t));
	mc::step(mc::hash_str(repr(v))); mc::outcome(mc::hash_str(t)); mc::nontrivial();
	if (mc::tracing()) mc::note(repr(v) + " -> " + show(t));
}
static MV scalar() {
	static const vector<MV> S = {MV::null(), MV::boolean(true), MV::boolean(false), MV::integer(0), MV::integer(-7), MV::integer(INT32_MIN), MV::integer(INT32_MAX), MV::flt(0.5L), MV::flt(-1e-9L), MV::flt(3), MV::str(""), MV::str("a\"b"), MV::str("\\"), MV::str("[,]{:}"), MV::str("x\ny\t")};
	return pick(S);
}
static MV tree(int depth, int width) {
	int k = depth ? mc::choose(3) : 0;
	if (k == 0) return scalar();
	static const vector<string> K = {"k", "", "a\"", "\\", ":,", "}"};
	int n = mc::choose(width + 1); MV v = k == 1 ? MV::arr() : MV::map();
	for (int i = 0; i < n; i++) { if (k == 1) v.a.push_back(tree(depth - 1, 1)); else v.m[pick(K)] = tree(depth - 1, 1); }
	return v;
}
static void flt() {
	static const vector<long double> F = {0.0L, -0.0L, 1.0L, -1.0L, 0.1L, 1.0L / 3, 2.0L / 3, 12.86, (long double)0.1f, 16.4L, 1e5L, 1e6L, 123456789.0L, 1e15L, 1e16L, 1e17L, 1e20L, 1e21L, 1e22L, 1e100L, 1e300L, 1e-4L, 1e-5L, 1e-6L, 1e-7L, 1e-10L, 1e-300L, 5e-324L,
		DBL_MAX, DBL_MIN, DBL_EPSILON, LDBL_MAX, LDBL_MIN, LDBL_EPSILON, FLT_MAX, FLT_MIN, 3.14159265358979323846264338327950288L, 2147483648.0L, -2147483649.0L, 9007199254740993.0L, 18446744073709551615.0L, 1234567.8901234L};
	long double f = pick(F); int m = mc::choose(6); if (m == 1) f = -f; if (m == 2) f = nextafterl(f, 1e4000L); if (m == 3) f = nextafterl(f, -1e4000L); if (m == 4) f /= 7; if (m == 5) f = f * 3 + 1;
	if (!std::isfinite(f) || (f != 0 && fabsl(f) < LDBL_MIN)) return;
	roundtrip(MV::flt(f)); roundtrip(MV::arr({MV::flt(f), MV::integer(1)}));
	J::Property d((double)f), g((float)f);
	if (std::isfinite((double)f) && d.asFloat() != (long double)(double)f) violate("construct", "double");
	if (std::isfinite((float)f) && g.asFloat() != (long double)(float)f) violate("construct", "float");
}
static void ints() {
	static const vector<int64_t> I = {0, 1, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483646, 2147483647, 2147483648LL, 4294967295LL};
	int64_t v = pick(I) * (mc::choose(2) ? -1 : 1) + mc::choose(3) - 1;
	if (v >= INT32_MIN && v <= INT32_MAX) { roundtrip(MV::integer((int32_t)v)); }
	if (v >= INT16_MIN && v <= INT16_MAX && J::Property((int16_t)v).asInt() != v) violate("construct", "int16");
	if (v >= 0 && v <= UINT16_MAX && J::Property((uint16_t)v).asInt() != v) violate("construct", "uint16");
	if (v >= 0 && v <= UINT32_MAX) { auto p = J::Property((uint32_t)v); auto t = J::stringify(p); if (t != std::to_string(v) && t != std::to_string(v) + ".0" && strtold(t.c_str(), nullptr) != (long double)v) violate("unsigned", "uint32 " + std::to_string(v) + " serialises as " + t); auto q = J::parse(t); if (repr(q) != repr(p)) violate("unsigned", "uint32 " + std::to_string(v) + " parses back as " + repr(q)); }
}
// value semantics: variables and what is done to them
static void semantics(int depth) {
	J::Property v[3]; MV m[3]; string h;
	static const vector<MV> L = {MV::null(), MV::boolean(true), MV::integer(5), MV::flt(2.5L), MV::str("text long enough to live on the heap"), MV::arr({MV::str("e"), MV::arr({MV::integer(1)})}), MV::map({{"k", MV::str("v")}, {"n", MV::map({{"q", MV::null()}})}}), MV()};
	int n = 1 + mc::choose(depth);
	for (int s = 0; s < n; s++) {
		int op = mc::choose(8 + 6 + 2 + 3);
		if (op < 8) { auto src = toProp(L[op]); v[0] = src; m[0] = L[op]; h += "a=" + repr(L[op]) + " "; }
		else if (op < 14) { static const int X[6][2] = {{0, 1}, {1, 0}, {1, 2}, {2, 0}, {0, 0}, {1, 1}}; int d = X[op - 8][0], e = X[op - 8][1]; v[d] = v[e]; MV t = m[e]; m[d] = t; h += string(1, 'a' + d) + "=" + string(1, 'a' + e) + " "; }
		else if (op == 14) { J::Property t(v[0]); J::Property u(std::move(t)); v[1] = u; m[1] = MV(m[0]); h += "b=copy/move of a "; }
		else if (op == 15) { J::Array arr{v[0], v[1]}; v[2] = J::Property(arr); m[2] = MV::arr({m[0], m[1]}); h += "c=[a,b] "; }
		else if (op == 16) { J::Map mp{{"x", v[0]}}; mp["y"] = v[1]; mp["x"] = v[1]; v[2] = J::Property(mp); m[2] = MV::map({{"x", m[1]}, {"y", m[1]}}); h += "c={x:b,y:b} "; }
		else if (op == 17) { if (v[2].type() == J::JSTypes::Array && v[2].asArray().size()) { v[2] = v[2].asArray()[0]; MV t = m[2].a[0]; m[2] = t; h += "c=c[0] "; } }
		else { if (v[0].type() == J::JSTypes::Map) { v[0] = v[0].asMap().begin()->second; } else v[0] = J::parse("{\"z\":[1]}"); if (m[0].t == MV::Map) { string rp = repr(v[0]); MV t; bool f = false; for (auto& e : m[0].m) if (repr(e.second) == rp) { t = e.second; f = true; } if (!f) violate("semantics", h + "a=a.first gives " + rp); m[0] = t; } else m[0] = MV::map({{"z", MV::arr({MV::integer(1)})}}); h += "a=a.first or parsed "; }
		for (int i = 0; i < 3; i++) if (!eq(v[i], m[i])) violate("semantics", "after " + h + ": variable " + string(1, 'a' + i) + " is " + repr(v[i]) + ", expected " + repr(m[i]));
		mc::step(mc::hash_str(repr(m[0]) + repr(m[1]) + repr(m[2])));
	}
	mc::outcome(mc::hash_str(repr(m[0]) + repr(m[1]) + repr(m[2]))); mc::nontrivial();
	if (mc::tracing()) mc::note(h);
}
static void wrongtype() {
	static const vector<MV> L = {MV(), MV::null(), MV::boolean(true), MV::integer(5), MV::flt(2.5L), MV::str("s"), MV::arr(), MV::map()};
	int k = mc::choose(8); auto p = toProp(L[k]); auto t = L[k].t;
	bool r[6] = {throws([&] { p.asBool(); }, "asBool"), throws([&] { p.asInt(); }, "asInt"), throws([&] { p.asFloat(); }, "asFloat"), throws([&] { p.asString(); }, "asString"), throws([&] { p.asArray(); }, "asArray"), throws([&] { p.asMap(); }, "asMap")};
	static const MV::T W[6] = {MV::Bool, MV::Int, MV::Float, MV::Str, MV::Arr, MV::Map};
	for (int i = 0; i < 6; i++) if (r[i] != (t != W[i])) violate("accessor", "accessor " + std::to_string(i) + " on " + repr(L[k]));
	if (p.isUndefined() != (k == 0) || p.isNull() != (k == 1) || p.isNil() != (k < 2)) violate("accessor", "isNull/isUndefined on " + repr(L[k]));
	mc::nontrivial();
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C15"; c.leak_check = true; c.hang_s = 20;
	c.rule = "every string of one and two bytes and every string up to 4 characters over the JSON metacharacters as value and as key, boundary numbers and their neighbours, every Unicode code point, arrays, objects and strings of up to 5000 elements (300000 bytes), every tree up to depth 3 over 15 scalars, values written as literals of every type, every history of assignments, copies, moves and self-nesting up to depth 4; each execution must also return all memory";
	c.assumptions = {"NaN, infinities and undefined have no JSON form and are not claimed", "IEEE x87 long double"};
	string all; for (int i = 0; i < 256; i++) all.push_back((char)i);
	std::vector<mc::Scenario> s;
	s.push_back({"bytes", 0, [=] { int a = mc::choose(256); for (int b = -1; b < 256; b++) { string x(1, (char)a); if (b >= 0) x += (char)b; roundtrip(MV::str(x)); } roundtrip(MV::map({{string(1, (char)a), MV::str(string(3, (char)a))}})); }});
	s.push_back({"strings", 0, [] { auto x = pickstr("\"\\n{},[:u", mc::thorough() ? 5 : 4); roundtrip(MV::str(x)); roundtrip(MV::map({{x, MV::integer(1)}})); roundtrip(MV::arr({MV::str(x), MV::str(x)})); }});
	s.push_back({"lengths", 0, [] { int n = mc::choose(400), k = mc::choose(6); roundtrip(MV::str(pattern(n, k))); }});
	s.push_back({"code-points", 0, [] { // every Unicode code point, as value and as key
		int blk = mc::choose(0x110000 / 64); if (blk * 64 >= 0xD800 && blk * 64 < 0xE000) return; string all;
		for (int i = 0; i < 64; i++) { unsigned cp = blk * 64 + i; string u; if (cp < 0x80) u = string(1, (char)cp); else if (cp < 0x800) u = {(char)(0xC0 | cp >> 6), (char)(0x80 | (cp & 63))}; else if (cp < 0x10000) u = {(char)(0xE0 | cp >> 12), (char)(0x80 | (cp >> 6 & 63)), (char)(0x80 | (cp & 63))}; else u = {(char)(0xF0 | cp >> 18), (char)(0x80 | (cp >> 12 & 63)), (char)(0x80 | (cp >> 6 & 63)), (char)(0x80 | (cp & 63))}; all += u; if (i == 0) { roundtrip(MV::map({{u, MV::str(u)}})); } }
		roundtrip(MV::str(all)); roundtrip(MV::map({{all, MV::boolean(true)}})); }});
	s.push_back({"big", 0, [] { // long arrays, objects and strings
		static const int N[] = {99, 100, 101, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 2000, 4096, 5000}; int n = N[mc::choose(14)], k = mc::choose(5); MV v = k == 1 || k == 3 ? MV::map() : MV::arr();
		if (k == 4) { string t; for (int i = 0; i < n * 60; i++) t += "abc\"\\\n\xc3\xa9 ,[]{}:"[i % 15]; if (t.size() % 15 == 7) t += "\xa9"; roundtrip(MV::str("x" + t + "y")); return; }
		for (int i = 0; i < n; i++) { string id = std::to_string(i); MV e = i % 5 == 0 ? MV::integer(i * 1000 - 7) : i % 5 == 1 ? MV::str("v" + id) : i % 5 == 2 ? MV::flt(i + 0.5L) : i % 5 == 3 ? MV::arr({MV::str(id), MV::null()}) : MV::map({{"i", MV::integer(i)}}); if (k >= 2) e = MV::arr({e, MV::map({{"key" + id, e}})}); if (k == 1 || k == 3) v.m["k" + id] = e; else v.a.push_back(e); }
		roundtrip(v); }});
	s.push_back({"numbers", 0, flt}); s.push_back({"ints", 0, ints});
	s.push_back({"trees", 0, [] { roundtrip(tree(2, 2)); }});
	if (mc::thorough() || getenv("VERIF_TIER") == nullptr || string(getenv("VERIF_TIER")) == "thorough") s.push_back({"trees-3", 0, [] { roundtrip(tree(3, 1)); }});
	s.push_back({"semantics", 0, [] { semantics(mc::thorough() ? 5 : 4); }});
	s.push_back({"accessors", 0, wrongtype});
	s.push_back({"literals", 0, [] { // values the way programs write them
		auto is = [](const J::Property& p, const MV& v, const string& json) { if (!eq(p, v)) violate("construct", repr(v) + " written as a literal reads back as " + repr(p)); string t = J::stringify(p); if (!json.empty() && t != json) { MV r; if (refparse(t, r) == 0 || repr(r) != repr(v)) violate("wrong-value", "a literal " + json + " serialises as " + show(t)); } mc::step(mc::hash_str(t)); };
		string x = pickstr("a\"\\", 3), y = x; is(x.c_str(), MV::str(x), ""); is(J::Property(x), MV::str(x), ""); { J::Property p(x.c_str()); for (auto& c : x) c = 'z'; is(p, MV::str(y), ""); }
		is("text", MV::str("text"), "\"text\""); is("", MV::str(""), "\"\""); is(nullptr, MV::null(), "null"); is(true, MV::boolean(true), "true"); is(false, MV::boolean(false), "false"); is(0, MV::integer(0), "0"); is(-5, MV::integer(-5), "-5"); is(2.5, MV::flt(2.5L), "2.5"); is(2.5f, MV::flt(2.5L), "2.5"); is((int16_t)-300, MV::integer(-300), "-300"); is((uint16_t)65535, MV::integer(65535), "65535"); is(7u, MV::integer(7), "7");
		is(J::Array{1, "two", nullptr, true, 0.5, J::Array{}, J::Map{}}, MV::arr({MV::integer(1), MV::str("two"), MV::null(), MV::boolean(true), MV::flt(0.5L), MV::arr(), MV::map()}), "[1,\"two\",null,true,0.5,[],{}]");
		is(J::Map{{"k", "v"}, {"n", J::Map{{"a", J::Array{"x", 1}}}}}, MV::map({{"k", MV::str("v")}, {"n", MV::map({{"a", MV::arr({MV::str("x"), MV::integer(1)})}})}}), "{\"k\":\"v\",\"n\":{\"a\":[\"x\",1]}}");
		J::Property a; a = "s"; is(a, MV::str("s"), "\"s\""); a = 3; is(a, MV::integer(3), "3"); a = nullptr; is(a, MV::null(), "null"); a = J::Map{{"q", 1}}; is(a, MV::map({{"q", MV::integer(1)}}), ""); a = a.asMap().at("q"); is(a, MV::integer(1), "1"); mc::nontrivial();
	}});
	return mc::run(argc, argv, c, s);
}
