#include "json_common.hpp"
using namespace seq;
using mc::violate;
using std::string; using std::vector;

static void doc(const string& t) {
	MV v; int k = refparse(t, v); J::Property p; string err;
	bool th = throws([&] { p = J::parse(t); }, "parse", &err);
	if (k == 1) {
		if (th) violate("rejects-standard", "parse(" + show(t) + ") throws \"" + err + "\", the text denotes " + repr(v));
		if (!eq(p, v)) violate("wrong-value", "parse(" + show(t) + ") = " + repr(p) + ", the text denotes " + repr(v));
		mc::nontrivial();
	} else if (!th) { throws([&] { J::stringify(p); }, "stringify"); }
	mc::step(mc::hash_str(t)); mc::outcome(mc::hash_str(th ? "throw" : repr(p)));
	if (mc::tracing()) mc::note(show(t) + (k == 1 ? " standard" : k == 2 ? " out of range" : " not standard") + " -> " + (th ? "throws " + err : repr(p)));
}
static string ws() { static const vector<string> W = {"", " ", "\r\n\t "}; return W[mc::choose(3)]; }
static string value(int depth) {
	static const vector<string> S = {"1", "-2", "true", "null", "\"a\"", "\"]\"", "\"{\\\"\"", "\"\\\\\"", "\",:\"", "0.5", "-1e3", "\"\"", "[]", "{}"};
	int n = (int)S.size(); int c = mc::choose(depth ? n + 2 : n);
	if (c < n) return S[c];
	static const vector<string> K = {"\"k\"", "\"\"", "\"a:b\"", "\"\\\"\"", "\"}\"", "\"\\\\\""};
	int w = 1 + mc::choose(2); string o = c == n ? "[" : "{";
	for (int i = 0; i < w; i++) { if (i) o += ","; if (c > n) o += K[mc::choose(6)] + ":"; o += i == 0 ? value(depth - 1) : S[mc::choose(6)]; }
	return o + (c == n ? "]" : "}");
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C16"; c.hang_s = 20; c.rss_limit_mb = 2000;
	c.rule = "every text of up to 6 (thorough 7) tokens over JSON structure, every string literal of up to 5 tokens over escapes and metacharacters in three contexts, every numeral of up to 6 characters, every \\uXXXX escape and surrogate pairs (thorough: all 2^20), every placement of white space between tokens of sample documents, generated nested documents, every truncation and single-byte change of sample documents, deep nesting; oracle is a strict RFC 8259 reader; non-trivial = standard document";
	c.assumptions = {"documents nested deeper than the library's limit (hundreds of levels) and numbers outside its value range may be rejected", "for text that is not standard JSON any value or standard exception is allowed"};
	string all; for (int i = 0; i < 256; i++) all.push_back((char)i);
	std::vector<mc::Scenario> s;
	s.push_back({"tokens", 0, [] { static const vector<string> T = {"{", "}", "[", "]", ",", ":", "\"", "1", "\"a\"", "\\"}; doc(picktok(T, mc::thorough() ? 7 : 6)); }});
	s.push_back({"literals", 0, [] {
		static const vector<string> T = {"a", "\\\"", "\\\\", "\\n", "{", "]", ",", ":", " ", "\\u0041", "\\ud83d\\ude00", "\\/", "\"", "\\u20ac", "\\b\\f"};
		auto b = picktok(T, mc::thorough() ? 5 : 4); static const char* C[4][2] = {{"\"", "\""}, {"[\"", "\",\"z\"]"}, {"{\"", "\":1}"}, {"{\"q\":\"", "\" , \"w\":[]}"}}; for (auto& x : C) doc(x[0] + b + x[1]); }});
	s.push_back({"numbers", 0, [] { auto n = pickstr("0179-.e+", 6, 1); doc(n); }});
	s.push_back({"numbers-in-context", 0, [] { auto n = pickstr("01-.E5", 4, 1); doc("[" + n + "]"); doc("{\"a\":" + n + " ,\"b\":" + n + "}"); }});
	s.push_back({"int-range", 0, [] { static const vector<string> N = {"2147483647", "-2147483648", "2147483646", "0", "-0", "65536", "99999999", "-99999999", "2147483648", "1e400", "1e5000", "0.000001", "123.456e-7", "1E+2", "0e0", "-0.0"}; auto n = pick(N); doc(n); doc("[" + n + "," + n + "]"); }});
	s.push_back({"escapes", 0, [] { // every \\uXXXX escape in four spellings, and surrogate pairs
		int hi = mc::choose(1024); char b[40]; static const char* F[] = {"\"\\u%04x\"", "\"\\u%04X\"", "[\"a\\u%04xb\"]", "{\"\\u%04x\":0}"};
		for (int lo = 0; lo < 64; lo++) for (auto f : F) { unsigned cu = hi * 64 + lo; if (cu >= 0xD800 && cu < 0xE000) continue; snprintf(b, sizeof b, f, cu); doc(b); }
		for (int lo = 0; lo < 1024; lo += mc::thorough() || hi < 2 || hi > 1021 ? 1 : 93) { snprintf(b, sizeof b, "\"\\u%04x\\u%04X\"", 0xD800 + hi, 0xDC00 + lo); doc(b); } }});
	s.push_back({"whitespace", 0, [] { static const vector<vector<string>> D = {{"[", "1", ",", "\"a b\"", "]"}, {"{", "\"k\"", ":", "true", "}"}, {"[", "]"}, {"{", "}"}, {"-5"}, {"\" x \""}, {"[", "{", "}", "]"}, {"null"}}; auto& d = pick(D); string t = ws(); for (auto& x : d) t += x + ws(); doc(t); }});
	s.push_back({"trees", 0, [] { doc(value(mc::thorough() ? 3 : 2)); }});
	s.push_back({"damaged", 0, [=] {
		static const vector<string> D = {"{\"a\":[1,2.5,\"x\\\"y\"],\"b\":{\"c\":null,\"d\":true}}", "[\"\\u20ac\\\\\",-12,{},[[]]]", " { \"k\" : \"v\" , \"l\" : [ ] } ", "\"\\ud83d\\ude00\""};
		string t = pick(D); int p = mc::choose(t.size()); int k = mc::choose(3); if (k == 0) doc(t.substr(0, p)); else if (k == 1) { t.erase(p, 1); doc(t); } else { int a = mc::choose(256); t[p] = (char)a; doc(t); } }});
	s.push_back({"bytes-2", 0, [=] { doc(pickstr(all, 2)); }});
	s.push_back({"string-byte", 0, [=] { int a = mc::choose(256), b = mc::choose(256); doc(string("\"") + (char)a + (char)b + "\""); doc(string("\"\\") + (char)a + (char)b + "x\""); doc(string("[\"\\u0") + (char)a + (char)b + "1\"]"); }});
	s.push_back({"deep", 0, [] {
		static const vector<int> N = {1, 2, 50, 100, 1000, 10000, 200000}; int n = pick(N); int k = mc::choose(6); string t;
		const char* o[] = {"[", "{\"a\":", "[", "[1,", "[", "{\"a\":"}; const char* cl[] = {"]", "}", "", "]", "}", "]"};
		if (n > 20000 && (k == 1 || k == 3 || k == 5)) n = 20000;
		for (int i = 0; i < n; i++) t += o[k]; t += k == 2 ? "" : "1"; for (int i = 0; i < n; i++) t += cl[k];
		if (n <= 100) doc(t); else { J::Property p; throws([&] { p = J::parse(t); }, "parse"); mc::nontrivial(); } }});
	s.push_back({"deep-values", 0, [] { // siblings at every depth: nesting is counted, not guessed
		static const vector<int> N = {3, 15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300}; int n = pick(N), k = mc::choose(5), in = mc::choose(4); string a, b;
		const char* I[] = {"1,2", "[1,2],\"x\"", "{\"p\":1,\"q\":[3,4]}", "[],{}"}; bool obj = k == 1 || k == 4;
		for (int i = 0; i < n; i++) { bool o = obj ? (k == 1 || i % 2) : k == 3 && i % 2 == 0; a += o ? "{\"a\":" : k == 2 ? "[0," : "["; b = (o ? (k == 4 ? ",\"b\":[5,6]}" : "}") : k == 2 ? ",[7,8]]" : "]") + b; }
		bool last_obj = obj ? (k == 1 || (n - 1) % 2) : k == 3 && (n - 1) % 2 == 0; doc(a + (last_obj ? string("[") + I[in] + "]" : string(I[in])) + b); }});
	s.push_back({"long", 0, [] { int n = 1 + mc::choose(60); string t = "["; for (int i = 0; i < n * 20; i++) t += (i ? ",{\"k" : "{\"k") + std::to_string(i) + "\":\"" + string(i % 7, '\\') + string(i % 7, '\\') + "\"}"; doc(t + "]"); }});
	return mc::run(argc, argv, c, s);
}
