#include "core/polyfill/polyfill.hpp"
#include "core/http/http.hpp"
#include "core/utils/utils.hpp"
#include "seq.hpp"
#include <map>
#include <cstdint>
#include <set>
#include <algorithm>
using namespace seq;
using mc::violate;
using std::string; using std::vector;

// independent civil-from-days
static void civil(int64_t z, int& y, int& m, int& d) {
	z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	int64_t yy = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y = yy + (m <= 2);
}
static void date(int64_t t) {
	static const char* W[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}; static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	int64_t day = t / 86400, sec = t % 86400; if (sec < 0) sec += 86400, day--;
	int y, m, d; civil(day, y, m, d); char b[80], r[80], g[80]; int wd = (int)(((day % 7) + 7) % 7);
	snprintf(b, 80, "%s, %02d %s %04d %02d:%02d:%02d GMT", W[wd], d, M[m - 1], y, (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60));
	snprintf(r, 80, "%02d %s %04d %02d:%02d:%02d", d, M[m - 1], y, (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60));
	snprintf(g, 80, "%s, %02d %s %04d", W[wd], d, M[m - 1], y);
	Lambda::Date x((time_t)t);
	if (x.toUTCString() != b) violate("utc-string", "Date(" + std::to_string(t) + ").toUTCString() = " + x.toUTCString() + ", expected " + b);
	if (x.toHRTString() != r) violate("hrt-string", "Date(" + std::to_string(t) + ").toHRTString() = " + x.toHRTString() + ", expected " + r);
	if (x.getDate() != g) violate("get-date", "Date(" + std::to_string(t) + ").getDate() = " + x.getDate());
	if (x.getTime() != t || x.getHours() != sec / 3600 || x.getMinutes() != sec / 60 % 60 || x.getSeconds() != sec % 60 || x.getDay() != d || x.getMonth() != m - 1 || x.getYear() != y - 1900) violate("date-fields", "fields of Date(" + std::to_string(t) + ")");
	mc::step(mc::hash_str(b)); mc::outcome(mc::hash_str(b)); mc::nontrivial();
	if (mc::tracing()) mc::note(std::to_string(t) + " -> " + b);
}
static const std::map<string, vector<string>> MIME = {
	{"html", {"text/html"}}, {"htm", {"text/html"}}, {"txt", {"text/plain"}}, {"json", {"application/json"}}, {"css", {"text/css"}}, {"js", {"text/javascript", "application/javascript"}},
	{"mjs", {"text/javascript", "application/javascript"}}, {"xml", {"text/xml", "application/xml"}}, {"csv", {"text/csv"}}, {"md", {"text/markdown", "text/x-markdown"}}, {"png", {"image/png"}}, {"jpg", {"image/jpeg"}}, {"jpeg", {"image/jpeg"}},
	{"gif", {"image/gif"}}, {"svg", {"image/svg+xml"}}, {"webp", {"image/webp"}}, {"ico", {"image/vnd.microsoft.icon", "image/x-icon"}}, {"bmp", {"image/bmp", "image/x-ms-bmp"}}, {"tif", {"image/tiff"}}, {"tiff", {"image/tiff"}}, {"avif", {"image/avif"}},
	{"mp3", {"audio/mpeg", "audio/mp3"}}, {"wav", {"audio/wav", "audio/wave", "audio/x-wav"}}, {"ogg", {"audio/ogg"}}, {"mp4", {"video/mp4"}}, {"webm", {"video/webm"}}, {"mpeg", {"video/mpeg"}}, {"mov", {"video/quicktime"}}, {"avi", {"video/x-msvideo"}},
	{"pdf", {"application/pdf"}}, {"zip", {"application/zip"}}, {"gz", {"application/gzip"}}, {"tar", {"application/x-tar"}}, {"7z", {"application/x-7z-compressed"}}, {"rtf", {"text/rtf", "application/rtf"}}, {"doc", {"application/msword"}},
	{"docx", {"application/vnd.openxmlformats-officedocument.wordprocessingml.document"}}, {"xls", {"application/vnd.ms-excel"}}, {"xlsx", {"application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"}}, {"ppt", {"application/vnd.ms-powerpoint"}},
	{"woff", {"font/woff", "application/font-woff"}}, {"woff2", {"font/woff2"}}, {"ttf", {"font/ttf"}}, {"otf", {"font/otf"}}, {"wasm", {"application/wasm"}}, {"yaml", {"text/yaml", "application/yaml"}}, {"atom", {"application/atom+xml"}}, {"rss", {"application/rss+xml"}},
	{"epub", {"application/epub+zip"}}, {"jar", {"application/java-archive"}}, {"xhtml", {"application/xhtml+xml"}}, {"ics", {"text/calendar"}}, {"eot", {"application/vnd.ms-fontobject"}}, {"swf", {"application/x-shockwave-flash"}}, {"bin", {"application/octet-stream"}}};
static void ext(const string& e) {
	using namespace Lambda::Content;
	string up = e; for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32;
	string t = getExtMimetype(e), back = getMimetypeExt(t), t2 = getExtMimetype(back);
	if (getExtMimetype("." + e) != t || getExtMimetype("x.y." + e) != t) violate("mime-dot", "extension ." + e + " maps differently from " + e);
	if (getExtMimetype(up) != t) violate("mime-case", "extension " + up + " maps to " + getExtMimetype(up) + " but " + e + " to " + t);
	if (t2 != t) violate("mime-inverse", e + " -> " + t + " -> " + back + " -> " + t2);
	size_t sl = t.find('/'); if (sl == string::npos || sl == 0 || sl + 1 == t.size() || t.find_first_of(" \r\n") != string::npos) violate("mime-form", e + " -> " + t);
	auto k = MIME.find(e); if (k != MIME.end() && std::find(k->second.begin(), k->second.end(), t) == k->second.end()) violate("mime-standard", e + " -> " + t);
	mc::step(mc::hash_str(e)); mc::outcome(mc::hash_str(t)); if (t != "application/octet-stream") mc::nontrivial();
	if (mc::tracing()) mc::note(e + " -> " + t);
}
static const std::map<int, vector<string>> ST = {
	{100, {"Continue"}}, {101, {"Switching Protocols"}}, {102, {"Processing"}}, {103, {"Early Hints"}}, {200, {"OK"}}, {201, {"Created"}}, {202, {"Accepted"}}, {203, {"Non-Authoritative Information"}}, {204, {"No Content"}}, {205, {"Reset Content"}}, {206, {"Partial Content"}},
	{207, {"Multi-Status"}}, {208, {"Already Reported"}}, {226, {"IM Used"}}, {300, {"Multiple Choices"}}, {301, {"Moved Permanently"}}, {302, {"Found"}}, {303, {"See Other"}}, {304, {"Not Modified"}}, {305, {"Use Proxy"}}, {307, {"Temporary Redirect"}}, {308, {"Permanent Redirect"}},
	{400, {"Bad Request"}}, {401, {"Unauthorized"}}, {402, {"Payment Required"}}, {403, {"Forbidden"}}, {404, {"Not Found"}}, {405, {"Method Not Allowed"}}, {406, {"Not Acceptable"}}, {407, {"Proxy Authentication Required"}}, {408, {"Request Timeout"}}, {409, {"Conflict"}}, {410, {"Gone"}},
	{411, {"Length Required"}}, {412, {"Precondition Failed"}}, {413, {"Payload Too Large", "Content Too Large"}}, {414, {"URI Too Long"}}, {415, {"Unsupported Media Type"}}, {416, {"Range Not Satisfiable"}}, {417, {"Expectation Failed"}}, {418, {"I'm a teapot"}}, {421, {"Misdirected Request"}},
	{422, {"Unprocessable Entity", "Unprocessable Content"}}, {423, {"Locked"}}, {424, {"Failed Dependency"}}, {425, {"Too Early"}}, {426, {"Upgrade Required"}}, {428, {"Precondition Required"}}, {429, {"Too Many Requests"}}, {431, {"Request Header Fields Too Large"}}, {451, {"Unavailable For Legal Reasons"}},
	{500, {"Internal Server Error"}}, {501, {"Not Implemented"}}, {502, {"Bad Gateway"}}, {503, {"Service Unavailable"}}, {504, {"Gateway Timeout", "Gateway Time-out"}}, {505, {"HTTP Version Not Supported"}}, {506, {"Variant Also Negotiates"}}, {507, {"Insufficient Storage"}}, {508, {"Loop Detected"}}, {510, {"Not Extended"}}, {511, {"Network Authentication Required"}}};
static const std::set<int>* optional_codes() { static std::set<int> s = {103, 208, 421, 425, 508, 510}; return &s; }
static void status() {
	using Lambda::HTTP::Status; int code = mc::choose(1100); string txt; uint32_t got = 0; Status::Type ty{};
	bool th = throws([&] { Status s((uint32_t)code); txt = s.text(); got = s.code(); ty = s.type(); }, "Status");
	auto k = ST.find(code);
	if (k == ST.end()) { if (!th) violate("status-unknown", "status " + std::to_string(code) + " has text " + txt); }
	else if (th) { if (!optional_codes()->count(code)) violate("status-missing", "status " + std::to_string(code) + " is rejected"); }
	else if (got != (uint32_t)code || std::find(k->second.begin(), k->second.end(), txt) == k->second.end()) violate("status-text", "status " + std::to_string(code) + " -> " + std::to_string(got) + " " + txt);
	auto want = code < 200 ? Status::Type::Info : code < 300 ? Status::Type::Success : code < 400 ? Status::Type::Redirect : code < 500 ? Status::Type::ClientError : Status::Type::ServerError;
	Status c2(code, "Custom"); if (c2.code() != (uint32_t)code || c2.text() != "Custom" || c2.type() != want || (!th && ty != want)) violate("status-type", "custom status " + std::to_string(code));
	Status d; if (d.code() != 200 || d.text() != "OK") violate("status-default", "default status");
	mc::step(code); mc::outcome(mc::hash_str(txt)); if (!th) mc::nontrivial(); if (mc::tracing()) mc::note(std::to_string(code) + " " + txt);
}
static void method(const string& t) {
	using namespace Lambda::HTTP;
	static const std::map<string, Methods> M = {{"GET", Methods::GET}, {"POST", Methods::POST}, {"PUT", Methods::PUT}, {"DELETE", Methods::DEL}, {"HEAD", Methods::HEAD}, {"OPTIONS", Methods::OPTIONS}, {"TRACE", Methods::TRACE}, {"PATCH", Methods::PATCH}, {"CONNECT", Methods::CONNECT}};
	string up = t; for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32;
	auto k = M.find(up); string back; bool ok = true;
	bool th = throws([&] { Method m(t); back = m.toString(); ok = (Methods)m == (k == M.end() ? Methods::GET : k->second) && m == t && m == t.c_str() && m == Method(t) && string(m) == back; for (auto& o : M) if ((m == o.first) != (o.first == up) || (m == Method(o.first)) != (o.first == up)) ok = false; }, "Method");
	if (th != (k == M.end())) violate("method", "method \"" + show(t) + "\"" + (th ? " rejected" : " accepted as " + back));
	if (!th && (back != up || !ok)) violate("method", "method \"" + show(t) + "\" -> " + back);
	mc::step(mc::hash_str(t)); mc::outcome(mc::hash_str(back)); if (!th) mc::nontrivial(); if (mc::tracing()) mc::note("method " + show(t) + " -> " + back);
}
template <class T> static void swp(uint64_t v) {
	T x = (T)v, r = 0; typedef typename std::make_unsigned<T>::type U; U u = (U)x, o = 0; for (size_t i = 0; i < sizeof(T); i++) { o = (U)(sizeof(T) > 1 ? (o << 8) : 0) | (U)((u >> (8 * i)) & 0xff); } r = (T)o;
	if (Lambda::Bits::netwnormx(x) != r) violate("netwnormx", std::to_string(sizeof(T)) + " byte value " + std::to_string(v) + " -> " + std::to_string(Lambda::Bits::netwnormx(x)));
	if (Lambda::Bits::netwnormx(Lambda::Bits::netwnormx(x)) != x) violate("netwnormx-inverse", std::to_string(v));
	if (Lambda::Bits::storenormx(x) != x) violate("storenormx", std::to_string(v));
	mc::step(mc::mix(v, sizeof(T))); mc::outcome((uint64_t)r); mc::nontrivial();
}
int main(int argc, char** argv) {
	mc::Config c; c.property = "C37"; c.hang_s = 20;
	c.rule = "every day from 1970 to 2400 (thorough: 9999) at four times of day and every second of two days; a year of times under three time zone settings; every extension of up to 3 (thorough 4) letters or digits plus common ones in all letter cases; every status code below 1100; every letter case of each method and near misses; every 16-bit value and structured 32/64-bit values of the byte-order functions";
	c.assumptions = {"little-endian host, C locale", "times outside 1970..9999 are not formatted by the library"};
	static const string an = "abcdefghijklmnopqrstuvwxyz0123456789";
	std::vector<mc::Scenario> s;
	s.push_back({"days", 0, [] { int blk = mc::choose(mc::thorough() ? 1833 : 98), o = mc::choose(1600); int64_t d = (int64_t)blk * 1600 + o; static const int T[] = {0, 43199, 43200, 86399}; for (int t : T) date(d * 86400 + t); }});
	s.push_back({"seconds", 0, [] { int h = mc::choose(24), m = mc::choose(60), x = mc::choose(60); date(951782400 + h * 3600 + m * 60 + x); date(1735603200 + h * 3600 + m * 60 + x); }});
	s.push_back({"timezones", 0, [] { static const vector<string> Z = {"XYZ-5:30", "EST5EDT,M3.2.0,M11.1.0", "UTC"}; setenv("TZ", pick(Z).c_str(), 1); tzset(); int64_t t = 1672531200 + mc::choose(366 * 6) * 14400ll + mc::choose(2) * 14399; date(t); Lambda::Date n; time_t w = time(nullptr); if (n.getTime() > w || n.getTime() < w - 60) violate("now", "Date() is not the current time"); if (n.toUTCString() != Lambda::Date(n.getTime()).toUTCString() || n.toHRTString() != Lambda::Date(n.getTime()).toHRTString() || n.getDate() != Lambda::Date(n.getTime()).getDate()) violate("now", "Date() formats as " + n.toUTCString()); date(n.getTime()); setenv("TZ", "XYZ-5:30", 1); tzset(); }});
	s.push_back({"y9999", 0, [] { static const int64_t T[] = {253402300799LL, 253402214400LL, 4102444800LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL}; date(T[mc::choose(7)] - mc::choose(2)); }});
	s.push_back({"ext", 0, [] { ext(pickstr(an, mc::thorough() ? 4 : 3, 1)); }});
	s.push_back({"ext-common", 0, [] { auto it = MIME.begin(); std::advance(it, mc::choose(MIME.size())); string e = it->first; ext(e); for (auto& ch : e) if (mc::choose(2) && ch >= 'a' && ch <= 'z') ch -= 32; if (Lambda::Content::getExtMimetype(e) != Lambda::Content::getExtMimetype(it->first)) violate("mime-case", e); }});
	s.push_back({"ext-unknown", 0, [] { static const vector<string> U = {"", ".", "..", "nosuchext", ".nosuchext", "a.b.", "html.nosuch"}; string u = pick(U); if (Lambda::Content::getExtMimetype(u) != "application/octet-stream") violate("mime-unknown", u + " -> " + Lambda::Content::getExtMimetype(u)); if (Lambda::Content::getMimetypeExt("x/" + u) != "bin") violate("mime-unknown", "x/" + u); mc::nontrivial(); }});
	s.push_back({"status", 0, status});
	s.push_back({"method-case", 0, [] { static const vector<string> M = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT", "DEL", "GETX", "XGET", "LINK"}; string m = pick(M); for (auto& ch : m) if (mc::choose(2)) ch += 32; method(m); }});
	s.push_back({"method-junk", 0, [] { method(pickstr("GETPU", 4)); }});
	s.push_back({"swap16", 0, [] { int a = mc::choose(256); for (int b = 0; b < 256; b++) { swp<uint16_t>(a * 256 + b); swp<int16_t>(a * 256 + b); } }});
	s.push_back({"swap32-64", 0, [] { uint64_t v = 0; static const int B[] = {0, 1, 0x7f, 0x80, 0xfe, 0xff}; for (int i = 0; i < (mc::thorough() ? 8 : 6); i++) v = v << 8 | B[mc::choose(6)]; swp<uint32_t>(v); swp<int32_t>(v); for (int sh : {0, 16}) { swp<uint64_t>(v << sh); swp<int64_t>(v << sh); } }});
	return mc::run(argc, argv, c, s);
}
