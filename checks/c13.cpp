// C13: handler and reader of a WebSocket never corrupt each other
#include "ws_common.hpp"
#include <thread>
#include <atomic>
using namespace wsx;
using Lambda::Websocket::Message; using Lambda::Websocket::CloseReason;

// handler programs
enum { ECHO, DRAIN, POLL, SEND2, SENDCLOSE, SENDER, CLOSER, RETURN, TWOSENDERS, SENDRECV, BYE };
struct Plan { int h = ECHO; std::string peer; int stop = 0; bool timers = false; };   // stop: 0 after the session, 1 at any time
struct Out { bool binary; std::string data; };
static Plan P; static std::vector<std::string> got, sentok, sentok2; static int hclosed; static bool done, returned; static std::string escaped;
static void deliver(const Message& m) { std::string d(m.data.begin(), m.data.end()); Rt g; std::string s(d.data(), d.size()); got.push_back(s); }
static bool trysend(Websocket::WebsocketContext& ws, const char* text, std::vector<std::string>& log) {
	try { ws.sendMessage(Message(std::string(text))); } catch (const std::exception&) { return false; }
	Rt g; log.push_back(text); return true;
}
// joins on every way out
struct Joined { std::thread t; template <class F> Joined(F f) : t(f) {} ~Joined() { t.join(); } };
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		int h; { Rt g; h = P.h; sched::quiet(false); }
		try {
			auto ws = ctx.upgrateToWebsocket();
			switch (h) {
				case ECHO: while (ws.awaitMessage()) { auto m = ws.nextMessage(); deliver(m); std::string d(m.data.begin(), m.data.end()); if (!trysend(ws, d.c_str(), sentok)) break; } break;
				case DRAIN: while (ws.awaitMessage()) deliver(ws.nextMessage()); break;
				case POLL: for (int i = 0; i < 3; i++) { while (ws.hasMessage()) deliver(ws.nextMessage()); { Rt g; sched::sleep_ms(1); } } ws.close(CloseReason::Normal); while (ws.hasMessage()) deliver(ws.nextMessage()); { Rt g; hclosed++; } break;
				case SEND2: trysend(ws, "s1", sentok); trysend(ws, "s2", sentok); break;
				case SENDCLOSE: trysend(ws, "s1", sentok); ws.close(CloseReason::PolicyViolation); { Rt g; hclosed++; } if (trysend(ws, "late", sentok)) { Rt g; mc::violate("sent-after-close", "a message was accepted after close()"); } break;
				case SENDER: { Joined t([&] { trysend(ws, "t1", sentok2); trysend(ws, "t2", sentok2); }); while (ws.awaitMessage()) deliver(ws.nextMessage()); break; }
				case CLOSER: { Joined t([&] { try { ws.close(CloseReason::Normal); } catch (const std::exception&) {} Rt g; hclosed++; }); while (ws.awaitMessage()) { deliver(ws.nextMessage()); trysend(ws, "r", sentok); } break; }
				case TWOSENDERS: { Joined t([&] { trysend(ws, "t1", sentok2); }); trysend(ws, "s1", sentok); break; }
				case SENDRECV: trysend(ws, "s1", sentok); if (ws.awaitMessage()) { deliver(ws.nextMessage()); trysend(ws, "s2", sentok); } ws.close(CloseReason::Normal); { Rt g; hclosed++; } break;
				case BYE: if (ws.awaitMessage()) deliver(ws.nextMessage()); break;
				case RETURN: break;
			}
			Rt g; returned = true;
		} catch (const std::exception& e) { std::string w = e.what(); Rt g; escaped = std::string(w.data(), w.size()); }
		Rt g; done = true; return {};
	};
}
static void body(const Plan& p, const sched::Options& o) {
	P = p; got.clear(); sentok.clear(); sentok2.clear(); hclosed = 0; done = returned = false; escaped.clear(); net::reset();
	sched::run(o, [&] {
		Rt g; sched::quiet(true); Server srv(handler(), config()); std::vector<std::string> sent, pings; bool bye = false, gone = false, cut = false; Mask m = MASKS_1();
		Conn c; std::vector<std::string> segs; std::string pend;
		// what the peer sends, one segment per element: M message, P ping, X close frame, F half close, R reset, V vanish; '+' joins with the next frame, '/' splits it in two segments
		bool join = false, split = false; int nm = 0; std::vector<char> acts; std::vector<std::string> data;
		for (char k : p.peer) {
			if (k == '+') { join = true; continue; } if (k == '/') { split = true; continue; }
			std::string f; if (k == 'M') { std::string t = "m" + std::to_string(++nm); sent.push_back(t); f = frame(0x80 | TEXT, t, &m); } else if (k == 'P') { std::string t = "p" + std::to_string(pings.size()); pings.push_back(t); f = frame(0x80 | PING, t, &m); } else if (k == 'X') { f = frame(0x80 | CLOSE, std::string("\x03\xe8", 2), &m); bye = true; } else { acts.push_back(k); data.push_back(""); continue; }
			if (join && !data.empty() && acts.back() == 'S') { data.back() += f; join = false; continue; }
			if (split) { acts.push_back('S'); data.push_back(f.substr(0, 3)); f = f.substr(3); split = false; }
			acts.push_back('S'); data.push_back(f);
		}
		int t = sched::spawn("peer", [&] {
			Rt g; c.open();
			for (size_t i = 0; i < acts.size(); i++) switch (acts[i]) { case 'S': c.send(data[i]); break; case 'F': c.fin(); cut = true; break; case 'R': net::rst(c.c); cut = gone = true; break; case 'V': c.close(); cut = gone = true; break; }
			if (!gone) { c.autopong = true; if (p.timers) { while (c.pump(-1)) {} if (!c.rd.buf.empty()) c.rd.bad("the stream ends inside a frame"); } else if (!c.finish(60000)) mc::violate("not-closed", "the session did not end"); c.close(); }
		});
		int64_t t0 = 0; bool stopping = false;
		if (p.stop) { sched::block("session begins", 0, [&] { return !c.acc.empty() || done || gone; }); stopping = true; t0 = sched::now_ms(); srv.shutdown(); }
		else { sched::block("handler done", 0, [&] { return done; }, p.timers ? -1 : sched::now_ns() + 40ll * 1000000000); if (!done) mc::violate("stuck", "the handler did not finish although the peer " + std::string(gone ? "is gone" : "has closed") + "; at " + std::to_string(sched::now_ms()) + " ms; " + sched::describe_live() + net::describe()); sched::join(t); }
		srv.destroy(); if (p.stop) { if (sched::now_ms() - t0 > 17000) mc::violate("slow-stop", "shutdown took " + std::to_string(sched::now_ms() - t0) + " ms"); sched::join(t); }
		if (sched::live_threads()) mc::violate("thread-left", "threads are left: " + sched::describe_live());
		// judge
		auto bad = [&](const char* k, const std::string& x) { mc::violate(k, x); };
		bool started = c.rd.frames.size() || c.acc.size();
		if (!started) { mc::outcome(0); return; }
		if (!escaped.empty() && (P.stop == 0 && !gone)) { // only the end of the connection may surface as an error
			if (!cut && !bye) bad("spurious-error", "the handler got an error: " + escaped); }
		// deliveries: a prefix of what was sent, and everything when the handler reads to the end of an orderly session
		for (size_t i = 0; i < got.size(); i++) { if (i >= sent.size()) bad("invented-message", "more messages delivered than sent"); if (got[i] != sent[i]) bad("wrong-message", "message " + std::to_string(i) + " was delivered as " + mc::show(got[i])); }
		if (p.h == DRAIN && !stopping && !gone && (bye || cut) && got.size() != sent.size()) bad("lost-message", std::to_string(got.size()) + " of " + std::to_string(sent.size()) + " messages were delivered");
		if (p.h == SENDER && !stopping && !gone && (bye || cut) && got.size() != sent.size()) bad("lost-message", std::to_string(got.size()) + " of " + std::to_string(sent.size()) + " messages were delivered");
		if ((p.h == BYE || p.h == SENDRECV) && !stopping && !gone && sent.size() && got.size() != 1) bad("lost-message", "the message was not delivered");
		if (gone) { mc::outcome(got.size()); mc::nontrivial(); return; }
		std::vector<std::string> a, b, pong; int nclose = 0; std::string reason;
		for (auto& f : c.rd.frames) {
			if (f.op == TEXT) { if (!f.fin) bad("wrong-fin", "a whole message arrived as a fragment"); (f.data[0] == 't' ? b : a).push_back(f.data); } else if (f.op == PONG) pong.push_back(f.data); else if (f.op == CLOSE) { nclose++; reason = f.data; } else if (f.op != PING) bad("wrong-opcode", "unexpected frame type " + std::to_string(f.op));
		}
		auto seqcheck = [&](const std::vector<std::string>& x, const std::vector<std::string>& y, const char* who) { // everything accepted arrives in order; at most a failing send may arrive on top
			for (size_t i = 0; i < y.size(); i++) { if (i >= x.size()) bad("lost-message", std::string(who) + " sent " + y[i] + " which never arrived"); if (x[i] != y[i]) bad("wrong-message", std::string(who) + " sent " + y[i] + " but " + x[i] + " arrived"); }
			if (x.size() > y.size()) bad("invented-message", std::string(who) + " sent less than what arrived");
		};
		seqcheck(a, sentok, "the handler"); seqcheck(b, sentok2, "the second thread");
		if (nclose > 1) bad("close-frame", "several close frames");
		if (nclose != 1 && !cut) bad("close-frame", "the session ended without a close frame");
		for (size_t i = 0; i < pong.size(); i++) if (i >= pings.size() || pong[i] != pings[i]) bad("wrong-pong", "unexpected pong " + mc::show(pong[i]));
		if (!stopping && (p.h == ECHO || p.h == DRAIN || p.h == SENDER) && bye && pong.size() != pings.size()) bad("lost-pong", "only " + std::to_string(pong.size()) + " of " + std::to_string(pings.size()) + " pings were answered");
		mc::outcome(mc::mix(mc::mix(got.size() * 64 + a.size() * 8 + b.size(), pong.size()), mc::hash_str(reason))); mc::nontrivial();
	});
	net::check_closed();
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C13"; cfg.warmup = true; bool th = mc::thorough(); int B = th ? 3 : 2;
	cfg.rule = "all schedules with up to 2 (thorough 3) deviations of handler, reader, extra handler threads, peer and shutdown at every synchronisation, atomic, socket and racing operation, for every handler program x peer script x moment of shutdown listed; every load and store checked for races and use after free";
	cfg.assumptions = {"one handler thread receives at a time; any number may send or close", "interleavings are sequentially consistent; races are reported by happens-before"};
	std::vector<mc::Scenario> sc;
	auto add = [&](const Plan& p, int b) { static const char* H[] = {"echo", "drain", "poll", "send2", "sendclose", "sender", "closer", "return", "twosenders", "sendrecv", "bye"}; sc.push_back({std::string(H[p.h]) + "." + (p.peer.empty() ? "idle" : p.peer) + (p.stop ? ".stop" : "") + (p.timers ? ".timers" : ""), b, [=] { sched::Options o; o.prune = true; o.early_timers = p.timers; body(p, o); }}); };
	for (int h : {ECHO, DRAIN, POLL, SEND2, SENDCLOSE, SENDER, CLOSER, RETURN, TWOSENDERS, SENDRECV, BYE}) {
		for (const char* s : {"MX", "PX", "MF", "MR", "MV", "X"}) { Plan p; p.h = h; p.peer = s; add(p, B); }
		for (const char* s : {"M+M+X", "M/MX", "P+MPX", "MMF"}) { Plan p; p.h = h; p.peer = s; add(p, B); }
		for (const char* s : {"", "M", "MX"}) { Plan p; p.h = h; p.peer = s; p.stop = 1; add(p, B); }
	}
	for (int h : {ECHO, SENDER, TWOSENDERS, CLOSER}) for (int st : {0, 1}) { Plan p; p.h = h; p.peer = "MX"; p.timers = true; p.stop = st; add(p, B); }
	return mc::run(argc, argv, cfg, sc);
}
