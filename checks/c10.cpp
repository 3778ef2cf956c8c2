// C10: WebSocket handshake and every incoming message is delivered exactly
#include "ws_common.hpp"
using namespace wsx;

static std::vector<Got> got; static bool ended; static std::string endwhat; static int mode; static size_t want;
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		auto ws = ctx.upgrateToWebsocket();
		auto take = [&] { auto m = ws.nextMessage(); Rt g; got.push_back({std::string(m.data.begin(), m.data.end()), m.binary, m.partial}); };
		try {
			if (mode == 1) { { Rt g; sched::sleep_ms(2000); } while (ws.hasMessage()) take(); }       // late: everything is queued first
			if (mode == 2) { for (int i = 0; i < 4000 && got.size() < want; i++) { if (ws.hasMessage()) take(); else { Rt g; sched::sleep_ms(3); } } } // polling
			while (ws.awaitMessage()) { take(); if (mode == 0) while (ws.hasMessage()) take(); }
			Rt g; ended = true;
		} catch (const std::exception& e) { Rt g; endwhat = e.what(); }
		return {};
	};
}
struct Ev { std::string wire; std::vector<Got> deliver; std::string pong; bool haspong = false; };
static const std::vector<Mask> MASKS = {{0, 0, 0, 0}, {0x12, 0x34, 0x56, 0x78}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 1}};
static Ev msg(bool bin, const std::vector<std::string>& parts, const Mask& m, int lenenc = 0, bool ping_between = false) {
	Ev e; for (size_t i = 0; i < parts.size(); i++) {
		bool fin = i + 1 == parts.size(); Mask k = m; k[0] ^= i * 37; // every frame has its own key
		e.wire += frame((fin ? 0x80 : 0) | (i ? CONT : bin ? BIN : TEXT), parts[i], &k, lenenc);
		e.deliver.push_back({parts[i], bin, !fin});
		if (ping_between && !fin) { e.wire += frame(0x80 | PING, "pp", &m); e.pong = "pp"; e.haspong = true; }
	}
	return e;
}
static Ev ping(const std::string& p, const Mask& m) { Ev e; e.wire = frame(0x80 | PING, p, &m); e.pong = p; e.haspong = true; return e; }
static Ev pong(const std::string& p, const Mask& m) { Ev e; e.wire = frame(0x80 | PONG, p, &m); return e; }
// ev: what the client sends; segs: how it is cut
static void drive(const std::vector<Ev>& ev, const std::function<std::vector<std::string>(const std::string&)>& segment, int md, int64_t gap_ms = 0, bool with_close = false) {
	got.clear(); ended = false; endwhat.clear(); mode = md; std::string all; std::vector<Got> exp; std::vector<std::string> pongs; size_t npongs = 0;
	for (auto& e : ev) { all += e.wire; exp.insert(exp.end(), e.deliver.begin(), e.deliver.end()); if (e.haspong) { size_t n = 1; if (e.deliver.size() > 1) n = e.deliver.size() - 1; for (size_t i = 0; i < n; i++) pongs.push_back(e.pong); } }
	want = exp.size(); npongs = pongs.size();
	world(quiet(), [&] {
		Rt g; auto cfg = config(); Server srv(handler(), cfg); Conn c; c.open();
		Mask m = MASKS[1]; std::string cl = frame(0x80 | CLOSE, std::string("\x03\xe8", 2), &m);
		for (auto& s : segment(with_close ? all + cl : all)) { c.send(s); if (gap_ms) sched::sleep_ms(gap_ms); }
		auto bad = [&](const char* k, const std::string& t) { mc::violate(k, t + " (mode " + std::to_string(md) + ")"); };
		auto pongsgot = [&] { std::vector<std::string> p; for (auto& f : c.rd.frames) if (f.op == PONG) p.push_back(f.data); return p; };
		if (!with_close) {
			bool ok = c.until([&] { return got.size() >= exp.size() && pongsgot().size() >= npongs; }, 4000);
			for (int i = 0; i < 100 && got.size() < exp.size(); i++) sched::sleep_ms(100);
			if (got.size() < exp.size()) bad("lost-message", "only " + std::to_string(got.size()) + " of " + std::to_string(exp.size()) + " data frames were delivered" + (endwhat.empty() ? "" : "; the handler got: " + endwhat) + (c.rd.closed ? "; the server closed" : ""));
			(void)ok; c.send(cl);
		}
		if (!c.finish(30000)) bad("not-closed", "the connection was not closed after the close handshake");
		for (int i = 0; i < 50 && !ended && endwhat.empty(); i++) sched::sleep_ms(100);
		if (!endwhat.empty()) bad("handler-error", "the handler's receive loop threw: " + endwhat);
		if (!ended) bad("stuck", "the handler's receive loop did not end after the close");
		for (size_t i = 0; i < std::max(got.size(), exp.size()); i++) {
			if (i >= exp.size()) bad("invented-message", "an extra message was delivered: " + show(got[i]));
			if (i >= got.size()) bad("lost-message", "only " + std::to_string(got.size()) + " of " + std::to_string(exp.size()) + " data frames were delivered");
			if (!(got[i] == exp[i])) bad("wrong-message", "delivery " + std::to_string(i) + " is " + show(got[i]) + " instead of " + show(exp[i]));
		}
		auto p = pongsgot(); if (p != pongs) bad("wrong-pong", std::to_string(p.size()) + " pongs for " + std::to_string(pongs.size()) + " pings, or other payloads");
		for (auto& f : c.rd.frames) if (f.op != PONG && f.op != CLOSE && f.op != PING) bad("unexpected-frame", "the server sent a data frame nobody asked for");
		if (!c.rd.closed) bad("no-close-frame", "the close frame was not answered");
		mc::step(mc::path_hash()); mc::outcome(mc::mix(got.size(), p.size())); mc::nontrivial(); c.close();
	});
}
static std::vector<std::string> whole(const std::string& s) { return {s}; }
static std::vector<std::string> bytewise(const std::string& s) { std::vector<std::string> r; size_t n = std::min<size_t>(s.size(), 40); for (size_t i = 0; i < n; i++) r.push_back(s.substr(i, 1)); if (s.size() > n) r.push_back(s.substr(n)); return r; }
static std::vector<Ev> alphabet() {
	auto& M = MASKS; std::vector<Ev> a;
	a.push_back(msg(false, {"hi"}, M[1])); a.push_back(msg(true, {seq::pattern(126, 1)}, M[2])); a.push_back(msg(false, {""}, M[1])); a.push_back(ping("abc", M[1])); a.push_back(ping("", M[3])); a.push_back(pong("unasked", M[1]));
	a.push_back(msg(false, {"one", "two", "three"}, M[1])); a.push_back(msg(true, {"a", "", "b"}, M[2], 0, true)); a.push_back(msg(true, {"", "x"}, M[0])); a.push_back(msg(true, {seq::pattern(300, 4)}, M[3])); a.push_back(ping(seq::pattern(125, 1), M[2])); a.push_back(pong("ping/lambda/ws", M[1]));
	return a;
}
// ---- handshake
static std::string hsgot;
static void handshake(const std::string& req, bool valid, const std::string& key, const std::vector<std::string>& segs) {
	got.clear(); ended = false; mode = 0;
	world(quiet(), [&] {
		Rt g; Server srv(handler(), config()); Client c; for (auto& s : segs) c.send(s); Resp r;
		if (!c.next(r, req.rfind("HEAD", 0) == 0, 60000)) mc::violate("handshake", "no answer to " + mc::show(req));
		if (valid) {
			if (r.status != 101) mc::violate("handshake", "a valid upgrade was answered with " + std::to_string(r.status) + ": " + mc::show(req, 300));
			if (r.get("sec-websocket-accept") != accept_of(key)) mc::violate("handshake", "wrong accept value " + r.get("sec-websocket-accept") + " for key " + key);
			if (seq::lower(r.get("upgrade")) != "websocket" || seq::lower(r.get("connection")).find("upgrade") == std::string::npos) mc::violate("handshake", "upgrade or connection header missing");
			if (r.has("sec-websocket-extensions") || r.has("sec-websocket-protocol")) mc::violate("handshake", "an extension or protocol was accepted that nobody implements");
			Mask m = MASKS[1]; c.send(frame(0x81, "q", &m)); sched::sleep_ms(500); if (got.size() != 1) mc::violate("handshake", "the session does not work after the handshake");
		} else {
			if (r.status / 100 != 4) mc::violate("handshake", "an invalid upgrade was answered with " + std::to_string(r.status) + ": " + mc::show(req, 300));
			if (r.has("sec-websocket-accept")) mc::violate("handshake", "an invalid upgrade got an accept value");
		}
		mc::outcome(r.status); mc::step(mc::path_hash()); c.close();
	});
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C10"; bool th = mc::thorough();
	cfg.rule = "all handshakes over method x upgrade header x key x connection header x version x segmentation; single messages of every boundary length x type x masking key x segmentation x handler style; all sequences of up to 2 (thorough 3) from 12 message, fragment, ping and pong shapes, cut at every byte position or sent whole, byte-wise or frame-wise; every legal order of up to 4 (thorough 6) frames of 7 kinds, then the message is completed; two- and three-part fragmentations at boundary positions; sessions of up to 1025 messages, pings and fragments in four segmentations";
	cfg.assumptions = {"lengths outside the boundary set behave like their neighbours"};
	std::vector<mc::Scenario> sc;
	sc.push_back({"handshake", 0, [] {
		static const std::vector<std::string> M = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"}, U = {"websocket", "WebSocket", "WEBSOCKET", "-", "h2c", "web-socket", "", "websocketx", "xwebsocket", "websocke", "web socket", "websockets/13"}, K = {KEY, "AAAAAAAAAAAAAAAAAAAAAA==", "x3JJHMbDL1EzLkh9GBhXDw==", "", "-"}, C = {"Upgrade", "keep-alive, Upgrade", "upgrade", "keep-alive\r\nConnection: Upgrade", "Upgrade\r\nConnection: keep-alive", "TE,upgrade,x", "keep-alive", "-", "upgraded", "close"};
		static const std::vector<std::string> V = {"13", "8", "", "0", "130", "113", "-", "014"}; // protocol version
		std::string m = seq::pick(M), u = seq::pick(U), k = seq::pick(K), c = seq::pick(C); bool low = mc::choose(2); std::string v = V[0]; size_t ci = &seq::pick(V) - V.data(); v = V[ci]; if (ci && (low || m != "GET" || k != KEY)) return;
		std::string up = low ? "upgrade" : "Upgrade", kk = low ? "sec-websocket-key" : "Sec-WebSocket-Key";
		std::string r = m + " /chat?x=1 HTTP/1.1\r\nHost: a\r\n" + (u == "-" ? "" : up + ": " + u + "\r\n") + (c == "-" ? "" : "Connection: " + c + "\r\n") + "Origin: http://a\r\n" + (k == "-" ? "" : kk + ": " + k + "\r\n") + (v == "-" ? "" : "Sec-WebSocket-Version: " + v + "\r\n") + "Sec-WebSocket-Extensions: permessage-deflate\r\nSec-WebSocket-Protocol: chat\r\n\r\n";
		bool conn = c.find("pgrade") != std::string::npos && c.find("upgraded") == std::string::npos;
		bool valid = m == "GET" && seq::lower(u) == "websocket" && k.size() > 1 && conn && v == "13";
		int s = mc::choose(3); handshake(r, valid, k, s == 0 ? std::vector<std::string>{r} : s == 1 ? hc::cut(r, {r.size() - 2}) : hc::cut(r, {5, 30, r.size() - 5}));
	}});
	sc.push_back({"handshake-keys", 0, [] { // accept values of many keys
		std::string k; for (int i = 0; i < 22; i++) k.push_back("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[(mc::choose(1) + i * 7) % 64]); k[mc::choose(22)] = "+/09azAZ"[mc::choose(8)]; k += "=="; std::string r = upgrade(k); handshake(r, true, k, {r});
	}});
	static const std::vector<size_t> LEN = {0, 1, 2, 3, 124, 125, 126, 127, 128, 242, 247, 248, 249, 250, 251, 252, 255, 256, 257, 505, 506, 512, 2048, 4096, 65535, 65536, 65537, 70000};
	for (size_t l : LEN) sc.push_back({"length." + std::to_string(l), 0, [l] {
		bool bin = mc::choose(2); const Mask& m = seq::pick(MASKS); std::string p = seq::pattern(l, bin ? 1 : 0); Ev e = msg(bin, {p}, m), tail = msg(!bin, {"tail"}, MASKS[1]); size_t h = e.wire.size() - l;
		int s = mc::choose(8); auto seg = [s, h](const std::string& w) { switch (s) { case 0: return whole(w); case 1: return bytewise(w); case 2: return hc::cut(w, {1}); case 3: return hc::cut(w, {h}); case 4: return hc::cut(w, {h - 1, h + 1}); case 5: return hc::cut(w, {w.size() - 1}); case 6: return hc::cut(w, {256, 512}); default: return hc::cut(w, {2, 255, 257, 1000}); } };
		drive({e, tail}, seg, mc::choose(3), 0, mc::choose(2));
	}});
	for (size_t l : {0ul, 5ul, 125ul}) for (int enc : {2, 8}) sc.push_back({"long-encoding." + std::to_string(l) + "." + std::to_string(enc), 0, [l, enc] { // legal only when minimal; every encoding of the length fields is read the same way
		if (l < 126 && enc == 2) { Ev e = msg(true, {seq::pattern(126 + l, 1)}, MASKS[1], 2); drive({e}, mc::choose(2) ? whole : bytewise, 0); } else { Ev e = msg(true, {seq::pattern(65536 + l, 1)}, MASKS[1], 8); drive({e}, mc::choose(2) ? whole : bytewise, 0); }
	}});
	size_t n = alphabet().size();
	for (size_t a = 0; a < n; a++) {
		sc.push_back({"one." + std::to_string(a), 0, [a] { auto A = alphabet(); std::vector<Ev> v{A[a]}; int cutp = mc::choose(std::min<size_t>(A[a].wire.size() + 9, 60)); drive(v, [cutp](const std::string& s) { return hc::cut(s, {(size_t)cutp}); }, mc::choose(3), mc::choose(2) * 150, mc::choose(2)); }});
		sc.push_back({"two." + std::to_string(a), 0, [a] {
			auto A = alphabet(); std::vector<Ev> v{A[a], A[mc::choose(A.size())]}; size_t f = v[0].wire.size(), t = f + v[1].wire.size(); int k = mc::choose(t < 80 ? 3 + (int)t : 12);
			drive(v, [k, f, t](const std::string& s) { if (k == 0) return whole(s); if (k == 1) return bytewise(s); if (k == 2) return hc::cut(s, {f}); if (t < 80) return hc::cut(s, {(size_t)k - 2}); static const long off[] = {-9, -3, -1, 1, 2, 5, 6, 7, 12}; return hc::cut(s, {(size_t)std::max(1l, (long)f + off[k - 3])}); }, 0, 0, true);
		}});
		if (th) sc.push_back({"three." + std::to_string(a), 0, [a] {
			auto A = alphabet(); std::vector<Ev> v{A[a], A[mc::choose(A.size())], A[mc::choose(A.size())]}; size_t f = v[0].wire.size(), t = f + v[1].wire.size(), u = t + v[2].wire.size(); int k = mc::choose(3 + 24);
			drive(v, [=](const std::string& s) { if (k == 0) return whole(s); if (k == 1) return bytewise(s); if (k == 2) return hc::cut(s, {f, t}); return hc::cut(s, {u * (k - 2) / 25}); }, mc::choose(3), 0, mc::choose(2));
		}});
	}
	sc.push_back({"fragments", 0, [] {
		static const std::vector<size_t> L = {0, 1, 125, 126, 256, 65536}; bool bin = mc::choose(2); int parts = 2 + mc::choose(2); std::vector<std::string> p; for (int i = 0; i < parts; i++) p.push_back(seq::pattern(seq::pick(L), 1 + i)); bool pg = mc::choose(2); int k = mc::choose(3);
		Ev e = msg(bin, p, MASKS[1], 0, pg); if (pg) { e.pong = "pp"; } drive({e, msg(!bin, {"after"}, MASKS[2])}, [k](const std::string& s) { return k == 0 ? whole(s) : k == 1 ? bytewise(s) : hc::cut(s, {s.size() / 2, s.size() / 2 + 130}); }, mc::choose(2), 0, false);
	}});
	for (int first = 0; first < 7; first++) sc.push_back({"frames." + std::to_string(first), 0, [first, th] { // every legal order of frames
		std::vector<Ev> v; int n = th ? 6 : 4; bool open = false, bin = false;
		for (int i = 0; i < n || open; i++) {
			int k = i == 0 ? first : i >= n ? (i == n ? 6 : 3) : mc::choose(7); const Mask& m = MASKS[i % 4]; std::string p(i % 3, 'a' + i);
			if (k == 4) { v.push_back(ping("p" + std::to_string(i), m)); continue; } if (k == 5) { v.push_back(pong("ping/lambda/ws", m)); continue; } if (k == 6) { v.push_back(pong("zz", m)); continue; }
			bool fin = k == 0 || k == 3; Ev e; if (!open) bin = k & 1; // 0 text or end, 1 binary or more, 2 text or more, 3 binary or end
			e.wire = frame((fin ? 0x80 : 0) | (open ? CONT : bin ? BIN : TEXT), p, &m); e.deliver.push_back({p, bin, !fin}); open = !fin; v.push_back(e);
		}
		int k = mc::choose(th ? 3 : 2); drive(v, [k](const std::string& s) { return k == 0 ? whole(s) : k == 1 ? bytewise(s) : hc::cut(s, {7, 15, 23, 30}); }, mc::choose(2), 0, mc::choose(2));
	}});
	sc.push_back({"many", 0, [] { // many small messages in one burst
		int cnt = 1 + mc::choose(60); std::vector<Ev> v; for (int i = 0; i < cnt; i++) v.push_back(i % 5 == 4 ? ping(std::to_string(i), MASKS[1]) : msg(i & 1, {std::string(i, 'a' + i % 26)}, MASKS[i % 4])); drive(v, whole, mc::choose(3), 0, mc::choose(2));
	}});
	sc.push_back({"long-session", 0, [] { // a session of many messages, or one message of many fragments
		int cnt = (int[]){100, 255, 256, 257, 400, 1025}[mc::choose(6)], kind = mc::choose(3), sg = mc::choose(4); std::vector<Ev> v;
		if (kind == 2) { std::vector<std::string> p; for (int i = 0; i < cnt; i++) p.push_back(std::string(i % 7 == 3 ? 0 : i % 9, 'a' + i % 26)); v.push_back(msg(true, p, MASKS[1], 0, false)); v.push_back(ping("end", MASKS[2])); v.push_back(msg(false, {"tail"}, MASKS[1])); }
		else for (int i = 0; i < cnt; i++) v.push_back(i % 11 == 4 ? ping(std::to_string(i), MASKS[1]) : kind && i % 3 == 0 ? msg(i & 2, {std::to_string(i), "", std::string(i % 130, 'q')}, MASKS[i % 4]) : msg(i & 1, {std::string(kind ? i % 300 : i % 5, 'a' + i % 26)}, MASKS[i % 4]));
		size_t L = sg == 0 ? 1u << 30 : sg == 1 ? 256 : sg == 2 ? 4096 : 997; drive(v, [L](const std::string& w) { std::vector<std::string> r; for (size_t i = 0; i < w.size(); i += L) r.push_back(w.substr(i, L)); return r; }, mc::choose(3), 0, mc::choose(2));
	}});
	both_modes(sc, {"handshake", "length", "one", "fragments", "many", "long-session"});
	return mc::run(argc, argv, cfg, sc);
}
