// C42: serving leaves nothing behind: every exchange returns all memory and descriptors it took
#include "ws_common.hpp"
#include "tar_common.hpp"
#include <core/json/json.hpp>
#include <core/compression/compression.hpp>
#include <core/crypto/crypto.hpp>
using namespace Lambda; namespace Zip = Lambda::Compress;
#include <extra/vfs/vfs.hpp>
#include <extra/kvstorage/kvstorage.hpp>
#include <filesystem>
#include <fcntl.h>
using namespace wsx;
enum { FINE, BIG, TEXTY, THROW, THROWINT, NONE, BADWS, WSECHO, WSSEND, SSE_, SSETHROW, WSTHROW, COOKIES, NK };
static std::vector<int> plan; static size_t calls;
static RequestCallback handler() {
	return [](const HTTP::Request& q, const RequestContext& ctx) -> HandlerResponse {
		int k; { Rt g; k = calls < plan.size() ? plan[calls] : FINE; calls++; }
		switch (k) {
			case BIG: return HTTP::Response(200, {{"content-type", "image/x"}}, std::string(100000, 'b'));
			case TEXTY: return HTTP::Response(200, {{"content-type", "text/plain"}}, std::string(3000, 't'));
			case THROW: throw std::runtime_error("a failure with a message long enough to live on the heap"); case THROWINT: throw 7; case NONE: return {};
			case BADWS: case WSECHO: case WSSEND: case WSTHROW: { auto ws = ctx.upgrateToWebsocket(); if (k == WSSEND) { for (int i = 0; i < 5; i++) ws.sendMessage(Websocket::Message(std::string(i * 300, (char)109))); return {}; } if (k == WSTHROW) { ws.sendMessage(Websocket::Message(std::string("one"))); throw std::runtime_error("later failure"); } try { while (ws.awaitMessage()) { auto m = ws.nextMessage(); ws.sendMessage(Websocket::Message(m.data)); } } catch (const std::exception&) {} return {}; }
			case SSE_: case SSETHROW: { auto w = ctx.startEventStream(); SSE::EventMessage m; m.data = std::string(500, 's'); m.event = "tick"; for (int i = 0; i < 4; i++) { try { w.push(m); } catch (const std::exception&) { break; } if (k == SSETHROW && i == 2) throw std::runtime_error("later failure"); { Rt g; sched::sleep_ms(200); } } return {}; }
			case COOKIES: { auto c = q.getCookies(); c.set("sid", "a long value which needs memory of its own", {"Secure", {"Path", "/"}}); c.del("old"); HTTP::Response r(200, "cookie page"); r.setCookies(c); auto f = q.url.searchParams.entries(); r.body = JSON::stringify(JSON::Property(JSON::Map({{"n", (int)f.size()}, {"s", "text"}}))); return r; }
		}
		return HTTP::Response(200, "fine");
	};
}
// how a client behaves: index into the byte stream where it stops, and what it does then
static void run(const std::vector<std::pair<int, std::string>>& what, const std::function<void(Client&, const std::string&)>& behave, const std::function<void(ServerConfig&)>& conf = nullptr, bool after_close = true) {
	plan.clear(); calls = 0; std::string all; for (auto& w : what) { plan.push_back(w.first); all += w.second; }
	auto o = quiet(); o.max_points = 20000000;
	world(o, [&] { Rt g; auto c = config(); if (conf) conf(c); Server srv(handler(), c); { Client k; behave(k, all); if (after_close) net::close(k.c); net::wait_closed(k.c, 60000); } srv.shutdown(); srv.await(); });
	mc::step(mc::path_hash()); mc::outcome(calls); mc::nontrivial();
}
static std::string req(int k, const std::string& extra = "", const std::string& body = "") {
	std::string h = k == WSECHO || k == WSSEND || k == WSTHROW ? "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + std::string(KEY) + "\r\nSec-WebSocket-Version: 13\r\n" : "";
	return std::string(body.empty() ? "GET" : "POST") + " /some/path/that/is/long?a=1&b=some+long+value+of+a+parameter&a=2 HTTP/1.1\r\nHost: example.org\r\nCookie: old=some cookie value that is long; x=1\r\nAuthorization: Basic dXNlcjpwYXNz\r\n" + h + extra + (body.empty() ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body;
}
// parts of the library used without a server: also when they fail half way
static std::string dir;
static int open_fds() { int n = 0; for (int i = 3; i < 400; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
template <class F> static void part(const std::string& what, F&& f) {
	static bool made = false; if (!made) { std::filesystem::create_directories(dir); made = true; }
	int fds = open_fds(); bool failed = false; auto o = quiet(); o.max_points = 20000000;
	sched::run(o, [&] { try { Lib l; f(); } catch (const std::exception&) { failed = true; } });
	if (open_fds() != fds) mc::violate("descriptor-leak", what + (failed ? " (failed)" : "") + " left " + std::to_string(open_fds() - fds) + " descriptors open");
	mc::step(mc::mix(mc::path_hash(), failed)); mc::outcome(mc::mix(mc::hash_str(what), failed)); mc::nontrivial();
}
static std::vector<uint8_t> V(const std::string& s) { return {s.begin(), s.end()}; }
// damaged(s): every cut and three changes of every byte (stride: only every n-th position)
static std::string damaged(const std::string& s, size_t stride) { size_t p = mc::choose((s.size() + stride - 1) / stride) * stride; int how = mc::choose(4); std::string d = s; if (how == 0) d.resize(p); else d[p] ^= how == 1 ? 1 : how == 2 ? 0x80 : 0xff; return d; }
static void moves(Zip::GzipStreamDecompressor& d) {
	Zip::GzipStreamDecompressor e(std::move(d)), f; f = std::move(e);
	Zip::GzipStreamCompressor a(Zip::Quality::Noice), b(Zip::Quality::Max); auto x = V("begun"); a.nextChunk(x); b = std::move(a);
	Zip::GzipStreamCompressor g(std::move(b)); g.end(); g.reset();
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C42"; cfg.leak_check = true; bool th = mc::thorough();
	cfg.rule = "all pairs of 13 handler outcomes on one connection (thorough: triples); each of them x the client stopping (half close, close, reset, silence) at every byte of a request or frame sequence; 8 kinds of malformed or oversized requests; all codings; up to two failing or short socket call or thread start anywhere; histories of 100 requests; every cut and three changes of every byte of compressed data, JSON, a database and tar images, and image files which cannot be written; after each execution (three repetitions in one process) the number of allocated bytes must be back where it was and every descriptor closed";
	cfg.assumptions = {"memory which is taken once and kept (caches, static tables) is no leak: only growth in each of three repetitions counts"};
	std::vector<mc::Scenario> sc;
	auto answers = [](Client& c, const std::string& w) { c.send(w); c.drain(6000); c.close(); };
	sc.push_back({"outcomes", 0, [=] { int a = mc::choose(NK), b = mc::choose(NK), c = th ? mc::choose(NK) : FINE; static const std::vector<std::string> AE = {"", "Accept-Encoding: br\r\n", "Accept-Encoding: gzip\r\n", "Accept-Encoding: deflate\r\n"}; std::string e = AE[mc::choose(4)]; auto fmt = (ErrorResponseType)mc::choose(3); run({{a, req(a, e)}, {b, req(b, e, b == BIG ? std::string(5000, 'q') : "")}, {c, req(c, e)}}, answers, [=](ServerConfig& k) { k.errorResponseType = fmt; }); }});
	for (int k = 0; k < NK; k++) sc.push_back({"stops." + std::to_string(k), 0, [=] {
		std::string w = req(k, "", k == FINE ? "body bytes" : ""); size_t p = 1 + mc::choose(w.size()); int how = mc::choose(4), pre = mc::choose(2); if (!th && p < w.size() - 12 && p % 5) return;
		run({{FINE, pre ? req(FINE) : ""}, {k, w.substr(0, p)}}, [=](Client& c, const std::string& a) { if (pre == 0) plan.erase(plan.begin()); c.send(a); if (how == 0) c.fin(); else if (how == 1) c.close(); else if (how == 2) net::rst(c.c); if (how != 1) c.drain(3000); }); }});
	sc.push_back({"websocket", 0, [=] { Mask m = {1, 2, 3, 4}; std::string w; int n = 1 + mc::choose(3); static const std::vector<std::pair<int, std::string>> F = {{0x81, "hello"}, {0x02, std::string(200, 'p')}, {0x80, "end"}, {0x89, "ping"}, {0x88, std::string("\x03\xe8", 2)}, {0x8a, ""}, {0x82, std::string(70000, 'z')}, {0x83, "bad"}, {0xc1, "bad"}}; for (int i = 0; i < n; i++) { auto& f = F[mc::choose(9)]; w += frame(f.first, f.second, &m); } int k = mc::choose(2) ? WSECHO : WSSEND, how = mc::choose(4); size_t cut = mc::choose(3) * 3;
		run({{k, req(k)}}, [=](Client& c, const std::string& a) { c.send(a); sched::sleep_ms(300); c.send(cut && w.size() > cut ? w.substr(0, w.size() - cut) : w); if (how == 0) c.fin(); else if (how == 1) c.close(); else if (how == 2) net::rst(c.c); if (how != 1) c.drain(2500); }); }});
	sc.push_back({"malformed", 0, [=] { static const std::vector<std::string> W = {"junk\r\n\r\n", "GET /\r\n\r\n", "GET / HTTP/1.1\r\nno separator here\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 1x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "GET /" + std::string(70000, 'x') + " HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcdef"}; auto& w = W[mc::choose(8)]; int pre = mc::choose(3), fmt = mc::choose(3); std::string p; for (int i = 0; i < pre; i++) p += req(FINE); run({{FINE, p}, {FINE, w}, {FINE, req(FINE)}}, answers, [=](ServerConfig& k) { k.errorResponseType = (ErrorResponseType)fmt; k.transport.maxRequestSize = 40000; }); }});
	sc.push_back({"faults", th ? 3 : 2, [=] { int k = mc::choose(NK), starve = mc::choose(2); std::string w = req(k, "", k == FINE ? "body bytes" : ""); Mask m = {1, 2, 3, 4}; std::string fr = frame(0x81, "hello", &m);
		plan = {k, FINE}; calls = 0; auto o = quiet(); o.max_points = 20000000; world(o, [&] { Rt g; auto cf = config(); Server srv(handler(), cf); net::Faults F; F.short_recv = F.partial_send = F.send_error = F.recv_error = F.timeout_send = F.interrupt = F.recv_interrupt = F.sockopt_error = true; F.max = 3; static int left; left = starve ? mc::choose(2) : 99; if (starve) sched::thread_create_hook = [] { return left-- == 0 ? EAGAIN : 0; };
			Client c; net::opt.faults = F; c.send(w); if (k == WSECHO) { sched::sleep_ms(300); c.send(fr); } c.send(k == WSECHO ? "" : req(FINE)); c.drain(3000); c.close(); net::wait_closed(c.c, 60000); net::opt.faults = net::Faults(); sched::thread_create_hook = nullptr; srv.shutdown(); srv.await(); }); mc::step(mc::path_hash()); mc::outcome(calls); mc::nontrivial(); }});
	sc.push_back({"long", 0, [=] { int k = mc::choose(7) ; static const int K[] = {FINE, BIG, TEXTY, THROW, THROWINT, NONE, COOKIES}; std::vector<std::pair<int, std::string>> v; for (int i = 0; i < 100; i++) v.push_back({i % 3 ? K[k] : FINE, req(FINE, i % 2 ? "Accept-Encoding: gzip\r\n" : "", i % 4 == 1 ? std::string(i * 10, 'q') : "")}); run(v, answers); }});
	static const std::string TEXT = [] { std::string t; for (int i = 0; i < 40; i++) t += "line " + std::to_string(i * i) + " of a text; "; return t; }();
	sc.push_back({"codec", 0, [=] { int k = mc::choose(3); auto in = V(TEXT); auto good = k == 0 ? Zip::brotliCompressBuffer(in, Zip::Quality::Max) : Zip::zlibCompressBuffer(in, Zip::Quality::Noice, k == 1 ? Zip::ZlibSetHeader::Gzip : Zip::ZlibSetHeader::Defalte); auto bad = V(damaged(std::string(good.begin(), good.end()), 1));
		part("decompression", [&] { auto r = k == 0 ? Zip::brotliDecompressBuffer(bad) : Zip::zlibDecompressBuffer(bad); if (r.size() > 1 << 20) throw std::runtime_error("much"); }); }});
	sc.push_back({"stream", 0, [=] { auto in = V(TEXT); std::vector<uint8_t> good; { Zip::GzipStreamCompressor z(Zip::Quality::Noice); auto a = z.nextChunk(in), b = z.end(); good = a; good.insert(good.end(), b.begin(), b.end()); } auto bad = V(damaged(std::string(good.begin(), good.end()), 1)); int chunk = 1 + mc::choose(2) * 30, end = mc::choose(3);
		part("streamed decompression", [&] { Zip::GzipStreamDecompressor d; std::vector<uint8_t> in2; if (end == 1) { auto first = good; d.nextChunk(first); d.reset(); } for (size_t i = 0; i < bad.size() && !d.isDone(); i += chunk) { std::vector<uint8_t> c(bad.begin() + i, bad.begin() + std::min(bad.size(), i + chunk)); d.nextChunk(c); } if (end == 2) { moves(d); } }); }});
	sc.push_back({"json", 0, [=] { std::string d = damaged("{\"a\":[1,2.5e3,{\"deep\":[true,null,[\"\\u00e9 long enough to need memory\"]]}],\"b\":\"another rather long string value\",\"a\":{}}", 1); part("JSON", [&] { auto p = JSON::parse(d); auto q = p; JSON::Property r; r = q; r = JSON::Property(5); r = std::move(q); JSON::stringify(r); try { auto m = p.asMap(); m.erase("b"); m["new"] = r; m["new"] = std::string("replaced by something longer than before"); } catch (const std::exception&) {} }); }});
	sc.push_back({"json.values", 0, [=] { static const std::vector<std::string> V = {"[]", "{}", "\"\"", "null", "true", "5", "2.5e3", "\"a string of more than sixteen characters\"", "[[]]", "[{},\"x\"]", "{\"k\":[]}", "{\"k\":{\"a longer key for the heap\":\"v\"}}", "[1,2", "}"}; auto a = V[mc::choose(14)], b = V[mc::choose(14)]; int how = mc::choose(6);
		part("JSON value", [&] { auto p = JSON::parse("{\"v\":[" + a + "," + b + "]}"); auto x = p.asMap().at("v").asArray(); JSON::Property y = x.at(0), z = x.at(1); if (how == 0) y = z; if (how == 1) y = std::move(z); if (how == 2) y = y; if (how == 3) { JSON::Property w(std::move(y)); y = w; z = std::move(w); } if (how == 4) { JSON::Property w(y); y = JSON::Property(); z = w; JSON::stringify(z); } if (how == 5) { x.push_back(y); x.erase(x.begin()); x.insert(x.begin(), z); p = JSON::Property(x); } }); }});
	static const std::string DB = [] { std::string f = "mlkvdb"; auto le = [&](uint32_t v, int n) { for (int i = 0; i < n; i++) f += (char)(v >> (8 * i)); }; le(3, 2); auto rec = [&](int t, const std::string& k, const std::string& v) { le(t, 2); le(k.size(), 2); le(v.size(), 4); f += k + v; }; rec(0, "a key which is long enough for the heap", "and a value which is too"); rec(0, "b", "2"); rec(1, "b", ""); rec(0, "c", std::string(300, 'c')); return f; }();
	sc.push_back({"kv", 0, [=] { std::string d = damaged(DB, 1), p = dir + "/s.db"; for (size_t at = 8; at + 8 <= d.size();) { size_t k = (unsigned char)d[at + 2] + 256 * (unsigned char)d[at + 3], v = 0; for (int i = 3; i >= 0; i--) v = v * 256 + (unsigned char)d[at + 4 + i]; if (v > 1 << 24) return; at += 8 + k + v; } int ops = mc::choose(3); part("key-value store", [&] { { Rt g; tar::write_file(p, d); } Storage::KVStorage::StorageInterface s(p); if (ops) { s.setItem("new key with a long name for the heap", "value"); s.removeItem("c"); } if (ops == 2) s.clear(); }); if (mc::choose(2)) part("key-value store", [&] { Storage::KVStorage::StorageInterface s(dir + "/missing/dir/s.db"); s.setItem("x", "y"); }); }});
	static const std::string TAR = tar::build({{"first/file", TEXT, 5}, {"second", "2", 6}, {std::string(90, 'n'), std::string(700, 'x'), 7}});
	for (bool gz : {false, true}) sc.push_back({gz ? "vfs.gz" : "vfs", 0, [=] { std::string good = gz ? tar::gz(TAR, 6) : TAR; std::string d = damaged(good, gz ? 1 : th ? 3 : 7), p = dir + (gz ? "/i.tgz" : "/i.tar"); part("VFS image", [&] { { Rt g; tar::write_file(p, d); } VirtualFilesystem v; v.write("own", "content of its own which is long"); try { v.loadSnapshot(p); } catch (const std::exception&) {} v.write("second", "again"); v.move("own", "second"); v.remove("missing"); v.saveSnapshot(dir + (gz ? "/o.tar.gz" : "/o.tar")); }); }});
	sc.push_back({"vfs.fail", 0, [=] { static const std::vector<std::string> P = {"/missing/o.tar", "/missing/o.tgz", "/o.zip", "/o", "", "/d.tar", "/d.tgz"}; auto p = P[mc::choose(7)]; bool load = mc::choose(2), big = mc::choose(2); std::filesystem::create_directories(dir + "/d.tar"); std::filesystem::create_directories(dir + "/d.tgz"); part("VFS image", [&] { VirtualFilesystem v; for (int i = 0; i < (big ? 60 : 1); i++) v.write("f" + std::to_string(i), std::string(5000, 'a' + i % 7)); if (load) v.loadSnapshot(dir + p); else v.saveSnapshot(dir + p); }); }});
	sc.push_back({"sha1", 0, [=] { int n = mc::choose(200); part("SHA-1", [&] { Crypto::SHA1 a; a.update(std::string(n, 'x')); auto d = a.digest(); Crypto::SHA1 b; b.update(d); if (n % 2) b.digest(); }); }});
	cfg.warmup = false; dir = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/c42"; cfg.worker_init = [] { dir += std::to_string(getpid()); };
	both_modes(sc, {"outcomes", "stops", "websocket", "malformed", "faults"});
	return mc::run(argc, argv, cfg, sc);
}
