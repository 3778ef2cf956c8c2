// C45: the locale the program has chosen changes nothing that the library reads, writes or sends
#include "ws_common.hpp"
#include <core/sse/sse.hpp>
#include <core/json/json.hpp>
#include <core/html/html.hpp>
#include <core/encoding/encoding.hpp>
#include <core/compression/compression.hpp>
#include <core/polyfill/polyfill.hpp>
#include <core/crypto/crypto.hpp>
#include <extra/vfs/vfs.hpp>
#include <extra/kvstorage/kvstorage.hpp>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <locale>
#include <locale.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace wsx;
using std::string;
struct Loc { const char* name; const char* lang; const char* map; };
static const Loc LOCS[] = {{"german-utf8", "de_DE", "UTF-8"}, {"german-latin1", "de_DE", "ISO-8859-1"}, {"turkish-latin5", "tr_TR", "ISO-8859-9"}, {"persian-utf8", "fa_IR", "UTF-8"},
	{"turkish-utf8", "tr_TR", "UTF-8"}, {"russian-cp1251", "ru_RU", "CP1251"}, {"hindi-utf8", "hi_IN", "UTF-8"}, {"french-utf8", "fr_FR", "UTF-8"}, {"lithuanian-latin7", "lt_LT", "ISO-8859-13"}, {"japanese-euc", "ja_JP", "EUC-JP"}};
static std::vector<string> locales; static string dir;
static const char* MODE[] = {"setlocale", "std::locale::global"};
static void enter(int l, int mode) {
	if (mode == 0) { if (!setlocale(LC_ALL, locales[l].c_str())) mc::violate("harness", "locale " + locales[l] + " is not usable"); }
	else try { std::locale::global(std::locale(locales[l])); } catch (const std::runtime_error& e) { mc::violate("harness", "locale " + locales[l] + ": " + e.what()); }
}
static void leave() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
template <class F> static string trap(F&& f) { try { return f(); } catch (const mc::Abandon&) { throw; } catch (const std::exception&) { return "<throws>"; } catch (...) { return "<throws something else>"; } }
static string hex(const string& s) { static const char* H = "0123456789abcdef"; string o; for (unsigned char c : s) o += H[c >> 4], o += H[c & 15]; return o; }

// ---- operations: how many cases, and what each of them gives
struct Action { const char* name; int n; std::function<string(int)> f; };
static string dump(const JSON::Property& p) {
	using T = JSON::JSTypes;
	switch (p.type()) {
		case T::Integer: return "i" + std::to_string(p.asInt()); case T::Boolean: return p.asBool() ? "t" : "f"; case T::String: return "s" + hex(p.asString()); case T::Null: return "n"; case T::Undefined: return "u";
		case T::Float: { long double v = p.asFloat(); char b[16] = {0}; memcpy(b, &v, 10); return "d" + hex(string(b, 10)); }
		case T::Array: { string s = "["; for (auto& e : p.asArray()) s += dump(e) + ","; return s + "]"; }
		case T::Map: { std::map<string, string> m; for (auto& e : p.asMap()) m[e.first] = dump(e.second); string s = "{"; for (auto& e : m) s += hex(e.first) + ":" + e.second + ","; return s + "}"; }
	} return "?";
}
static const std::vector<string> SIGN = {"", "-", "+"}, INT = {"0", "1", "12", "1234", "1234567", "2147483647", "12345678901", "1,5", "1 234", "1'234", "\xd9\xa1", "\xb2"}, FRAC = {"", ".0", ".5", ".25", ".125e", ",5", ".1.2", ".5,25", "."}, EXP = {"", "e3", "E+2", "e-2", "e", "e1,5"}, WRAP = {"%", "[%]", "{\"a\":%}", "[%,%]", "{\"a\":[1.5,%],\"b\":%}"};
static string numeral(int i) { string t = SIGN[i % 3]; i /= 3; t += INT[i % INT.size()]; i /= INT.size(); t += FRAC[i % FRAC.size()]; i /= FRAC.size(); t += EXP[i % EXP.size()]; i /= EXP.size(); string w = WRAP[i], o; for (char c : w) if (c == '%') o += t; else o += c; return o; }
// every byte at the start, in the middle and at the end of a text
static const int BYTES = 256 * 4; static string bytes(int i, const string& a = "Ab", const string& b = "Cd") { string c(1, (char)(i % 256)); switch (i / 256) { case 0: return c; case 1: return c + a + b; case 2: return a + c + b; default: return a + b + c; } }
static const std::vector<string> WORDS = {"title INDIA iodine", "TITLE", "title", "I", "i", "II ii", "\xc4\xb0\xc4\xb1", "\xdd\xfd", "stra\xc3\x9f" "e", "\xe4\xf6\xfc \xc4\xd6\xdc", "\xc0\xe0 \xd0\xf0", "\xa0nbsp\xa0", "\x85nel\x85", " \t\r\n\v\f x \v\f\t ", "a\xa0" "b", "\xff\xff", "\xcf\x80 \xce\xa0", "1,234.5", "\xef\xbc\xa1", "\xe3\x81\x82"};
static string strings(const string& s) {
	namespace St = Lambda::Strings; string o = St::toLowerCase(s) + "|" + St::toUpperCase(s) + "|" + St::toTittleCase(s) + "|" + St::trim(s) + "|"; string m = s; St::toLowerCase(m); o += m; m = s; St::toUpperCase(m); o += m; m = s; St::toTittleCase(m); o += m; m = s; St::trim(m); o += m;
	for (auto& p : St::split(s, ' ')) o += "<" + p + ">"; for (auto& p : St::split(s, "\xa0")) o += "<" + p + ">"; o += St::replaceAll(s, "i", "I") + St::replace(s, "I", "i"); o += St::includes(s, "I") ? "1" : "0"; o += St::startsWith(s, "i") ? "1" : "0"; o += St::endsWith(s, "i") ? "1" : "0"; return o;
}
static string http(const string& s) {
	using namespace Lambda::HTTP; string o;
	o += trap([&] { Headers h; h.set(s, "v1"); h.append(s, "v2"); h.set("CONTENT-ID", "x"); string r = h.get(s) + h.get(seq::lower(s)) + (h.has("content-id") ? "1" : "0") + h.get("Content-Id"); for (auto& e : h.entries()) r += e.first + "=" + e.second + ";"; return r; }) + "|";
	o += trap([&] { URLSearchParams p("q=" + s + "&ITEM=1&" + s + "=2"); string r = p.get("q") + p.get(s) + p.get("ITEM") + p.get("item") + p.stringify(); for (auto& e : p.entries()) r += e.first + "=" + e.second + ";"; return r; }) + "|";
	o += trap([&] { URL u("http://" + s + "@HOST.I:8080/P" + s + "?" + s + "=I#" + s); return u.protocol + "," + u.username + "," + u.password + "," + u.host + "," + u.hostname + "," + u.port + "," + u.pathname + "," + u.hash + "," + u.href(); }) + "|";
	o += trap([&] { URL u("HTTPI://h" + s + "/"); return u.protocol + "," + u.host + "," + u.href(); }) + "|";
	o += trap([&] { Cookies c("SID=" + s + "; I" + s + "=1"); c.set("New" + s, s); c.set("prI", "v", {{"Max-Age", "1234567"}, "HttpOnly"}); c.del("SID"); string r; for (auto& e : c.entries()) r += e.first + "=" + e.second + ";"; for (auto& l : c.serialize()) r += l + ";"; return r; }) + "|";
	o += trap([&] { Response r; r.setCookies({{"I" + s, s}}); string t; for (auto& e : r.headers.entries()) t += e.first + "=" + e.second; return t; }) + "|";
	o += trap([&] { return Lambda::Content::getExtMimetype("f." + s) + Lambda::Content::getMimetypeExt(s) + Lambda::Content::getExtMimetype(s); }) + "|";
	o += trap([&] { auto a = Auth::parseBasicAuth(s); return a ? a->user + ":" + a->password : string("none"); }) + "|";
	o += trap([&] { auto a = Auth::parseBasicAuth("Basic " + s); return a ? a->user + ":" + a->password : string("none"); });
	return o;
}
static string method(const string& s) { return trap([&] { HTTP::Method m(s); return m.toString() + (m == s ? "1" : "0") + (m == "OPTIONS" ? "1" : "0"); }); }
static const std::vector<string> NAMES = {"options", "Options", "OPTIONS", "optIons", "opt\xc4\xb1ons", "OPT\xddONS", "opt\xfdons", "get", "delete", "trace", "patch", "connect", "post", "put", "head"};
static const std::vector<string> EXTS = {"GIF", "gif", "ICO", "ico", "TIFF", "tif", "AVI", "avif", "MIDI", "bin", "BIN", "image/GIF", "IMAGE/gif", "TEXT/HTML", "application/JAVASCRIPT", "Basic dXNlcjpwYXNz", "BASIC dXNlcjpwYXNz", "basic dXNlcjpwYXNz", "BAS\xddC dXNlcjpwYXNz"};
static string decode(const string& s) {
	namespace E = Lambda::Encoding; string o = trap([&] { return hex(seq::S(E::fromBase64(s))); }) + "|" + trap([&] { return hex(seq::S(E::fromHex(s))); }) + "|" + trap([&] { return hex(E::decodeURIComponent(s)); }) + "|" + trap([&] { return hex(E::decodeURIComponent("%" + s)); });
	o += "|" + trap([&] { return E::toBase64(seq::B(s)) + "," + E::toHex(seq::B(s)) + "," + E::encodeURIComponent(s); }); return o + "|" + trap([&] { Crypto::SHA1 h; h.update(s); return hex(seq::S(h.digest())); });
}
static string page(const string& s) { return trap([&] { return HTML::renderTemplate("<p>${" + s + "} ${I} ${i} ${a" + s + "b} $" + s + "{i} " + s + "</p>", {{s, "1"}, {"I", "upper"}, {"i", "lower" + s}, {"a" + s + "b", "both"}}); }); }
static string date(int i) {
	static const std::vector<int64_t> DAY = {0, 1, 30, 31, 58, 59, 364, 365, 789, 11016, 10957, 19000, 19358, 24836}; int64_t t; if (i < 366) t = 1704067200ll + 86400ll * i; else t = DAY[(i - 366) % DAY.size()] * 86400 + std::vector<int64_t>{0, 3661, 43200, 86399}[(i - 366) / DAY.size() % 4];
	Date d((time_t)t); return d.toUTCString() + "|" + d.toHRTString() + "|" + d.getDate() + "|" + std::to_string(d.getDay()) + "." + std::to_string(d.getMonth()) + "." + std::to_string(d.getYear()) + " " + std::to_string(d.getHours()) + ":" + std::to_string(d.getMinutes()) + ":" + std::to_string(d.getSeconds()) + "=" + std::to_string(d.getTime());
}
static string number(int i) {
	static const std::vector<long double> V = {0, 1, -1, 0.5, -0.25, 1.5, 1234.5, 1234567, 1234567.25, 1e6, 1e15, 1e16, 1e21, 1e300, 1e-5, 1e-300, 3.141592653589793, 0.1, 1.0L / 3, 123456789012345.678L};
	static const std::vector<int> N = {0, 1, -1, 999, 1000, -1000, 1234567, 2147483647, -2147483647 - 1};
	auto& v = V[i / N.size()]; int n = N[i % N.size()];
	return JSON::stringify(JSON::Property(JSON::Array{v, (double)v, (float)v, n, JSON::Map{{"a", v}}, JSON::Map{{"b", n}}, true, nullptr, "1,5"}));
}
static string read(const string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s.imbue(std::locale::classic()); s << f.rdbuf(); return s.str(); }
static void files(const std::function<void()>& f) { sched::Options o; o.preempt = false; o.onblock = sched::RoundRobin; net::reset(); sched::run(o, [&] { std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); f(); std::filesystem::remove_all(dir); }); }
static string vfs(int i) {
	static const char* FMT[] = {".tar", ".tar.gz"}; static const std::vector<size_t> SZ = {0, 5, 511, 1000, 1234567}; string o; int fmt = i % 2, z = i / 2 % 5, nm = i / 10; static const std::vector<string> NM = {"I/i.txt", "\xe4\xf6.txt", string(120, 'I') + "/" + string(40, 'i')};
	files([&] { VirtualFilesystem v; sched::sleep_ms(1234567); v.write(NM[nm], seq::pattern(SZ[z], 0)); v.write("second", string("2")); string p = dir + "/x" + FMT[fmt]; v.saveSnapshot(p); o = read(p); VirtualFilesystem w; w.loadSnapshot(p); for (auto& e : w.listAll()) o += e.name + ":" + std::to_string(e.size) + ":" + std::to_string(e.modified) + ";"; });
	return o;
}
static string kv(int i) {
	static const std::vector<string> K = {"I", "i", "\xe4", "\xc4\xb0", "1,5", string(1234, 'k')}; string o, p = dir + "/db";
	files([&] { { Storage::LocalStorage s(p); s.setItem(K[i % 6], K[i / 6]); s.setItem("n", string(1234567, 'v')); s.setItem("gone", "x"); s.removeItem("gone"); } { Storage::LocalStorage s(p); o = s.getItem(K[i % 6]) + "," + std::to_string(s.size()) + (s.hasItem("I") ? "1" : "0") + (s.hasItem("i") ? "1" : "0"); s.setItem("late", "1"); } o += read(p); });
	return o;
}
static string packed(int i) {
	static const std::vector<size_t> SZ = {0, 1, 1234, 70000}; auto in = seq::B(seq::pattern(SZ[i % 4], i / 4 % 2)); std::vector<uint8_t> z; int m = i / 8; return trap([&] { string o;
		if (m == 2) { z = Compress::brotliCompressBuffer(in, Compress::Quality::Noice); o = hex(seq::S(z)) + (Compress::brotliDecompressBuffer(z) == in ? "=" : "!"); }
		else { z = Compress::zlibCompressBuffer(in, Compress::Quality::Noice, m ? Compress::ZlibSetHeader::Gzip : Compress::ZlibSetHeader::Defalte); o = hex(seq::S(z)) + (Compress::zlibDecompressBuffer(z) == in ? "=" : "!"); } return o; });
}
static string logged(int i) {
	string out; sched::capture_output(&out); static const std::vector<string> S = {"I i", "\xe4\xf6", "\xff"}; static const std::vector<long long> N = {0, 999, 1000, -1234567, 9223372036854775807ll};
	net::reset(); sched::Options o; o.preempt = false; sched::run(o, [&] { Lib l; syncout.log({S[i % 3], N[i / 3], (unsigned long)N[i / 3], (int)N[i / 3], (short)N[i / 3], true, 'c'}); syncout.log(N[i / 3]); syncout.error(S[i % 3]); }); sched::capture_output(nullptr); return out;
}
// ---- whole exchanges
static RequestCallback handler() {
	return [](const HTTP::Request& q, const RequestContext& ctx) -> HandlerResponse {
		auto& p = q.url.pathname;
		if (p == "/throw") throw std::runtime_error("I failed \xe4 1,5"); if (p == "/none") return {};
		if (p == "/ws") { auto ws = ctx.upgrateToWebsocket(); while (ws.awaitMessage()) { auto m = ws.nextMessage(); ws.sendMessage(Websocket::Message(string(m.data.begin(), m.data.end()))); } return {}; }
		if (p == "/sse") { auto w = ctx.startEventStream(); SSE::EventMessage m; m.data = "I\n\xe4"; m.event = "tItle"; m.id = "1234567"; m.retry = 1234567; w.push(m); w.close(); return {}; }
		string b = q.method.toString() + " " + p + " " + q.url.host + " " + q.url.username + ":" + q.url.password + " " + q.url.searchParams.get("I") + "," + q.url.searchParams.get("i") + " " + q.getCookies().get("SID") + " " + q.headers.get("x-tItle") + " " + q.body.text();
		for (auto& e : q.headers.entries()) b += e.first + "=" + e.second + "\n"; b += string(p == "/big" ? 12345 : 400, 'I');
		HTTP::Response r(p == "/201" ? 201 : 200, b); auto c = q.getCookies(); c.set("I", "\xe4"); r.setCookies(c); r.headers.set("X-TITLE-\xc4", "1,5"); r.headers.set("Content-Type", "text/HTML"); return r;
	};
}
static const std::vector<string>& requests() {
	static const Mask m = {1, 2, 3, 4}; static const string H = " HTTP/1.1\r\nHost: HOST.I:1234\r\n";
	static const std::vector<string> R = {
		"GET /a?I=1%2C5&i=%c4%b0" + H + "X-TITLE: one\r\nCOOKIE: SID=II; i=2\r\nAUTHORIZATION: BASIC dXNlcjpwYXNz\r\nUSER-AGENT: x\r\n\r\nOPTIONS /I" + H + "CONNECTION: CLOSE\r\n\r\n",
		"POST /p" + H + "CONTENT-LENGTH: 1234\r\nCONTENT-TYPE: text/plaIn\r\nACCEPT-ENCODING: GZIP, DEFLATE\r\nCONNECTION: KEEP-ALIVE\r\n\r\n" + string(1234, 'i') + "options /opt" + H + "Connection: close\r\n\r\n",
		"get /201" + H + "Accept-Encoding: gzip;q=0.5, br;q=0.25\r\n\r\nGET /big" + H + "Accept-Encoding: gzip;q=0,5\r\nX-\xc4\xd6: \xe4\xa0\r\n\r\nGET /c" + H + "Accept-Encoding: deflate\r\nConnection: close\r\n\r\n",
		"GET /throw" + H + "ACCEPT: TEXT/HTML, APPLICATION/JSON\r\n\r\n", "GET /none" + H + "Accept-Encoding: br\r\n\r\n", "GET /x" + H + "Content-Length: 1,000\r\n\r\n", "POST /x" + H + "Content-Length: \xb2\r\n\r\nab", "POST /x" + H + "Content-Length:\xa0" "2\r\n\r\nabGET /y" + H + "\r\n",
		"GET /x HTTP/1,1\r\n\r\n", "GET\xa0/x HTTP/1.1\r\nHost: h\r\n\r\n", "PRINT /x" + H + "\r\n", "OPT\xddONS /x" + H + "\r\n", "HEAD /I" + H + "TRANSFER-ENCODING: IDENTITY\r\n\r\n", "GET /x" + H + "Transfer-Encoding: chunked\r\n\r\n",
		"GET /ws HTTP/1.1\r\nHOST: x\r\nUPGRADE: WEBSOCKET\r\nCONNECTION: UPGRADE, KEEP-ALIVE\r\nSEC-WEBSOCKET-KEY: " + string(KEY) + "\r\nSEC-WEBSOCKET-VERSION: 13\r\n\r\n" + frame(0x81, "I\xc3\xa4", &m) + frame(0x82, "\xe4\xa0", &m) + frame(0x81, string(1234, 'i'), &m) + frame(0x88, string("\x03\xe8", 2), &m),
		"GET /sse" + H + "\r\n", "POST /x" + H + "Content-Length: 1234567\r\n\r\n",
	};
	return R;
}
static string exchange(int i) {
	int n = requests().size(), r = i % n, fmt = i / n % 3, split = i / n / 3; net::reset(); services = 0; string log, s; sched::capture_output(&log); sched::Options o; o.preempt = false; o.onblock = sched::RoundRobin;
	sched::run(o, [&] { Rt g; auto c = config(); c.loglevel.requests = true; c.loglevel.transportEvents = c.loglevel.startMessage = true; c.errorResponseType = (ErrorResponseType[]){ErrorResponseType::Plain, ErrorResponseType::JSON, ErrorResponseType::HTML}[fmt]; c.transport.maxRequestSize = 4321; c.service.port = 12345;
		Server sv(handler(), c); net::opt.peer_port = 54321; Client k(12345); auto& q = requests()[r]; if (split) { for (size_t a = 0; a < q.size(); a += 97) { k.send(q.substr(a, 97)); sched::sleep_ms(1); } } else k.send(q);
		sched::sleep_ms(100); s = net::sent(k.c); s += net::server_closed(k.c) ? "|closed" : "|open"; k.close(); net::wait_closed(k.c, 60000); sched::sleep_ms(50); });
	sched::capture_output(nullptr); net::check_closed();
	// identifiers are random; the log repeats them
	string l = seq::lower(s), id; size_t p = 0; std::vector<string> ids; while ((p = l.find("x-request-id: ", p)) != string::npos) { p += 14; size_t e = l.find("\r\n", p); if (e == string::npos) e = l.size(); ids.push_back(s.substr(p, e - p)); p = e; }
	for (p = 0; (p = log.find_first_of("0123456789abcdef", p)) != string::npos;) { size_t e = log.find_first_not_of("0123456789abcdef", p); if (e == string::npos) e = log.size(); if (e - p == 8) { log.replace(p, 8, "*"); e = p + 1; } p = e; }
	s += "|log " + log; std::vector<string> forms = ids; for (auto& d : ids) { std::stringstream q; q.imbue(std::locale::classic()); q << d; string part; while (std::getline(q, part, '-')) if (part.size() >= 6) forms.push_back(part); }
	for (auto& f : forms) for (p = 0; (p = s.find(f, p)) != string::npos; p++) s.replace(p, f.size(), "*");
	return s;
}
static const std::vector<Action>& ops() {
	static const std::vector<Action> O = {
		{"json-numerals", (int)(3 * INT.size() * FRAC.size() * EXP.size() * WRAP.size()), [](int i) { string t = numeral(i); return trap([&] { auto p = JSON::parse(t); return dump(p) + "|" + JSON::stringify(p); }); }},
		{"json-numbers", 20 * 9, number},
		{"json-texts", BYTES, [](int i) { string s = bytes(i); return trap([&] { string t = JSON::stringify(JSON::Property(s)); return hex(t) + dump(JSON::parse(t)); }) + trap([&] { return dump(JSON::parse("{\"a\":" + s + "}")); }) + trap([&] { return dump(JSON::parse("[1.5" + s + "]")); }) + trap([&] { return dump(JSON::parse("\"\\u" + s + "0\"")); }); }},
		{"dates", 366 + 14 * 4, date},
		{"strings-bytes", BYTES, [](int i) { return strings(bytes(i)); }},
		{"strings-words", (int)WORDS.size() * (int)WORDS.size(), [](int i) { return strings(WORDS[i % WORDS.size()] + WORDS[i / WORDS.size()]); }},
		{"http-bytes", BYTES, [](int i) { return http(bytes(i)); }},
		{"http-words", (int)WORDS.size() + (int)EXTS.size(), [](int i) { return http(i < (int)WORDS.size() ? WORDS[i] : EXTS[i - WORDS.size()]); }},
		{"methods", BYTES + (int)NAMES.size(), [](int i) { return method(i < BYTES ? bytes(i, "OPT", "ONS") : NAMES[i - BYTES]); }},
		{"statuses", 700, [](int i) { return trap([&] { HTTP::Status s((uint32_t)i); return std::to_string(s.code()) + s.text(); }); }},
		{"codecs", BYTES * 2, [](int i) { return i < BYTES ? decode(bytes(i, "4a", "Bc")) : decode(bytes(i - BYTES, "4", "B")); }},
		{"templates", BYTES, [](int i) { return page(bytes(i)); }},
		{"snapshots", 30, vfs}, {"key-value", 36, kv}, {"compression", 24, packed}, {"log", 15, logged},
		{"exchanges", (int)requests().size() * 3 * 2, exchange},
	};
	return O;
}
static void check(const Action& op) {
	int l = mc::choose(locales.size()), mode = mc::choose(2), i = mc::choose(op.n);
	string want = trap([&] { return op.f(i); }); enter(l, mode); string got = trap([&] { return op.f(i); }); leave(); string again = trap([&] { return op.f(i); });
	mc::step(mc::mix(mc::hash_str(got), i * 31 + l)); mc::outcome(mc::hash_str(got)); mc::nontrivial();
	auto differ = [&](const string& a, const string& b, const string& where) { if (a == b) return; size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) d++; size_t f = d > 40 ? d - 40 : 0; mc::violate(string("locale-") + op.name, where + " case " + std::to_string(i) + " of " + op.name + (string(op.name) == "json-numerals" ? " (" + mc::show(numeral(i), 60) + ")" : "") + " gives ..." + mc::show(a.substr(f), 120) + " instead of ..." + mc::show(b.substr(f), 120) + " as in the C locale"); };
	differ(got, want, "under " + locales[l].substr(locales[l].rfind('/') + 1) + " (" + MODE[mode] + ")"); differ(again, want, "after " + locales[l] + " was in force,");
	if (mc::tracing()) mc::note(string(op.name) + " " + std::to_string(i) + " under " + locales[l] + ": " + mc::show(got, 100));
}
// the locales are compiled here: the system has none but C
static void make_locales() {
	string base = string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp"), to = base + "/locales"; int n = mc::thorough() ? 10 : 4; std::filesystem::create_directories(to);
	std::vector<pid_t> kids; for (int i = 0; i < n; i++) { auto& x = LOCS[i]; pid_t p = fork(); if (!p) { string out = to + "/" + x.name; if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(2); execlp("localedef", "localedef", "--no-archive", "-i", x.lang, "-f", x.map, out.c_str(), (char*)nullptr); _exit(127); } kids.push_back(p); }
	for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
	setenv("LOCPATH", to.c_str(), 1);
	for (int i = 0; i < n; i++) { if (setlocale(LC_ALL, LOCS[i].name)) { locales.push_back(LOCS[i].name); } else fprintf(stderr, "C45: locale %s could not be made\n", LOCS[i].name); } setlocale(LC_ALL, "C");
	if (locales.empty()) { fprintf(stderr, "C45: no locale other than C can be made\n"); exit(3); }
	dir = base + "/files";
}
int main(int argc, char** argv) {
	make_locales();
	mc::Config cfg; cfg.property = "C45"; cfg.leak_check = false; cfg.hang_s = 60;
	cfg.rule = "4 (thorough 10) locales with other decimal points, groupings, digits, letters, blanks, case rules and names of days, chosen with setlocale or std::locale::global, x every case of 17 operations: 9720 JSON texts with numerals, 180 rows of numbers, every byte at 4 places in JSON texts, strings, headers, query strings, URLs, cookies, MIME types, credentials, methods, codecs and templates, 422 dates, 700 status codes, snapshots, key-value files, compressed data, log lines, and 17 whole exchanges x 3 error formats x 2 ways of arriving with their log; what each gives is compared with what it gives in the C locale before and after; this run has " + std::to_string(locales.size()) + " locales";
	cfg.assumptions = {"what the C locale gives is judged by the other properties", "the locale does not change while a call is running", "texts of exceptions and logged floating point numbers are left out"};
	cfg.worker_init = [] { dir += std::to_string(getpid()); };
	std::vector<mc::Scenario> sc; for (auto& op : ops()) sc.push_back({op.name, 0, [&op] { check(op); }});
	return mc::run(argc, argv, cfg, sc);
}
