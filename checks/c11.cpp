// C11: what the server sends over a WebSocket is a valid frame stream which decodes to what the handler sent
#include "ws_common.hpp"
using namespace wsx;
using Lambda::Websocket::Message; using Lambda::Websocket::CloseReason;

// S: send (len, bin, partial)  C: close(reason)  W: sleep(ms)
struct Step { char k; int kind; size_t len; bool partial; int reason; int ms; };
static Step S(int kind, size_t len, bool partial = false) { return {'S', kind, len, partial, 0, 0}; }
static Step C(int reason) { return {'C', 0, 0, false, reason, 0}; }
static Step W(int ms) { return {'W', 0, 0, false, 0, ms}; }
struct Sent { bool bin, partial; std::string data; };
static std::vector<Step> prog; static std::vector<Sent> okd; static std::vector<std::string> errs; static int closes, reason; static bool done, open_frame; static int64_t slowest; static bool failed_send, send_after_fail;
static std::string body(const Step& s, size_t i) { std::string d = seq::pattern(s.len, s.kind == 0 ? 0 : 1); if (!d.empty()) d[0] = 'a' + i % 26; return d; }
static Message make(const Step& s, const std::string& d) {
	std::vector<uint8_t> v(d.begin(), d.end());
	switch (s.kind) { // every constructor of Message
		case 0: return s.partial ? Message(d, true) : Message(d);
		case 1: return s.partial ? Message(v, true) : Message(v);
		case 2: return Message(v, false, s.partial);
		default: return Message(v, true, s.partial);
	}
}
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		{
			auto ws = ctx.upgrateToWebsocket(); size_t i = 0;
			for (auto& s : prog) {
				std::string d; if (s.k == 'S') d = body(s, i++); int64_t t0 = sched::now_ms();
				try {
					if (s.k == 'W') { Rt g; sched::sleep_ms(s.ms); }
					if (s.k == 'S') { ws.sendMessage(make(s, d)); Rt g; if (failed_send) send_after_fail = true; okd.push_back({s.kind == 1 || s.kind == 3, s.partial, d}); }
					if (s.k == 'C') { ws.close((CloseReason)s.reason); Rt g; if (!closes++) reason = s.reason; }
				} catch (const std::exception& e) { Rt g; errs.push_back(std::string(1, s.k) + ": " + e.what()); if (s.k == 'S') failed_send = true; }
				{ Rt g; if (s.k != 'W') slowest = std::max(slowest, sched::now_ms() - t0); }
			}
		}
		Rt g; done = true; return {};
	};
}
struct Peer { int kind = 0; size_t after = 0; int64_t delay = 0; size_t cap = 1u << 30; net::Faults f; bool shut = false; };
enum { READS, CLOSES_FRAME, FIN, RST, VANISH };
static std::string showp() { std::string s; for (auto& p : prog) s += p.k == 'S' ? std::string(" send") + (p.partial ? "~" : "") + std::to_string(p.len) : p.k == 'C' ? " close" + std::to_string(p.reason) : " wait" + std::to_string(p.ms); return s; }
static void drive(const std::vector<Step>& p, const Peer& peer = {}) {
	prog = p; okd.clear(); errs.clear(); closes = 0; reason = 1001; done = false; slowest = 0; failed_send = send_after_fail = false; bool expect_all = peer.kind == READS;
	world(quiet(), [&] {
		Rt g; Server srv(handler(), config()); Conn c; c.autopong = true; c.open(); net::opt.send_capacity = peer.cap; net::opt.faults = peer.f;
		auto bad = [&](const char* k, const std::string& t) { mc::violate(k, t + "; handler:" + showp()); };
		if (peer.delay) sched::sleep_ms(peer.delay);
		if (peer.kind != READS) {
			if (peer.after) c.until([&] { return c.acc.size() >= peer.after; }, 3000);
			if (peer.kind == CLOSES_FRAME) { Mask m = MASKS_1(); c.send(frame(0x80 | CLOSE, std::string("\x03\xe8", 2), &m)); }
			if (peer.kind == FIN) c.fin(); if (peer.kind == RST) net::rst(c.c); if (peer.kind == VANISH) c.close();
		}
		bool eos = true;
		if (peer.kind == READS || peer.kind == CLOSES_FRAME || peer.kind == FIN) { eos = c.finish(60000); }
		for (int i = 0; i < 900 && !done; i++) sched::sleep_ms(100);
		if (!done) bad("stuck", "the handler did not finish");
		if (!eos) bad("not-closed", "the connection was not closed after the session ended");
		if (slowest > 16000) bad("blocked", "a call took " + std::to_string(slowest) + " ms");
		if (send_after_fail) bad("send-after-error", "a send was accepted after an earlier one had reported an error");
		// what arrived
		std::vector<Frame> data; int nclose = 0; std::string closedata; for (auto& f : c.rd.frames) { if (f.op <= 2) data.push_back(f); else if (f.op == CLOSE) { nclose++; closedata = f.data; } else if (f.op == PONG) bad("unexpected-frame", "a pong nobody asked for"); }
		for (size_t i = 0; i < data.size(); i++) {
			if (i >= okd.size()) { if (peer.kind == READS || i > okd.size()) bad("invented-message", "more data frames than accepted messages"); break; }
			bool cont = i && okd[i - 1].partial; int op = cont ? CONT : okd[i].bin ? BIN : TEXT;
			if (data[i].op != op) bad("wrong-opcode", "frame " + std::to_string(i) + " has opcode " + std::to_string(data[i].op) + " instead of " + std::to_string(op));
			if (data[i].fin == okd[i].partial) bad("wrong-fin", "frame " + std::to_string(i) + " has a wrong FIN bit");
			if (data[i].data != okd[i].data) bad("wrong-payload", "frame " + std::to_string(i) + " carries other bytes (" + std::to_string(data[i].data.size()) + " for " + std::to_string(okd[i].data.size()) + ")");
		}
		if (expect_all) {
			if (data.size() < okd.size()) bad("lost-message", "only " + std::to_string(data.size()) + " of " + std::to_string(okd.size()) + " accepted messages arrived");
			size_t i = 0, want = 0, wanterr = 0; bool cl = false; for (auto& s : prog) { if (s.k == 'C') cl = true; if (s.k == 'S') { i++; cl ? wanterr++ : want++; } }
			if (okd.size() != want) bad(okd.size() < want ? "refused-message" : "accepted-after-close", std::to_string(okd.size()) + " sends succeeded instead of " + std::to_string(want) + (errs.empty() ? "" : "; " + errs[0]));
			if (errs.size() != wanterr) bad("close-error", "unexpected error: " + (errs.empty() ? std::string("none") : errs.back()));
			std::string exp{(char)(reason >> 8), (char)reason};
			if (nclose != 1) bad("close-frame", std::to_string(nclose) + " close frames were sent");
			if (closedata != exp) bad("close-frame", "the close frame carries " + mc::show(closedata) + " instead of reason " + std::to_string(reason));
		} else if (peer.kind == CLOSES_FRAME) { // the answer to the peer's close frame, or the one the handler had already sent
			if (nclose != 1) bad("close-frame", std::to_string(nclose) + " close frames were sent to a peer that closed");
			if (data.size() < okd.size()) bad("lost-message", "only " + std::to_string(data.size()) + " of " + std::to_string(okd.size()) + " accepted messages arrived");
		} else if (peer.kind == FIN && nclose > 1) bad("close-frame", "several close frames");
		if (!net::wait_closed(c.c, 20000)) bad("not-closed", "the descriptor stayed open");
		mc::step(mc::path_hash()); mc::outcome(mc::mix(okd.size() * 8 + errs.size(), nclose)); mc::nontrivial(); net::opt.faults = net::Faults(); c.close();
		// the server still works
		Conn d; prog = {S(0, 3)}; okd.clear(); done = false; d.open(); if (!d.finish(30000) || d.rd.frames.size() != 2) bad("server-broken", "a later session did not work");
		d.close();
	});
}
static const std::vector<size_t> LEN = {0, 1, 2, 124, 125, 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 1048576, 16777216};
static const std::vector<int> REASONS = {1000, 1001, 1002, 1003, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1015};
static std::vector<Step> alphabet() { return {S(0, 5), S(1, 126), S(0, 0), S(3, 65536), S(0, 4, true), S(1, 3, true), S(2, 0, true), S(3, 130, true), C(1000), C(1011), W(150), W(6000)}; }
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C11"; bool th = mc::thorough();
	cfg.rule = "all single messages of every boundary length x Message constructor x fragment flag x close reason; all handler programs of up to 3 (thorough 4) steps from 12 (whole and partial messages of both types, close, waits beyond the ping period); the same programs against peers that send a close frame, half-close, reset or vanish after every number of received bytes; all partial sends up to 2 (3) histories of 150 messages of mixed kinds; and peers that read slowly through every small window";
	cfg.assumptions = {"lengths outside the boundary set behave like their neighbours"};
	std::vector<mc::Scenario> sc;
	for (size_t l : LEN) sc.push_back({"length." + std::to_string(l), 0, [l] { int k = mc::choose(4); bool p = mc::choose(2); int after = mc::choose(3); std::vector<Step> v{S(k, l, p)}; if (after) v.push_back(after == 1 ? S(0, 4) : S(1, 2, true)); int r = mc::choose(3); if (r) v.push_back(C(r == 1 ? 1000 : 1001)); drive(v); }});
	sc.push_back({"close", 0, [] { int r = seq::pick(REASONS), n = mc::choose(3), m = mc::choose(4); std::vector<Step> v; for (int i = 0; i < n; i++) v.push_back(S(i, 3)); v.push_back(C(r)); if (m == 1) v.push_back(S(0, 2)); if (m == 2) v.push_back(C(1011)); if (m == 3) { v.push_back(W(300)); v.push_back(S(1, 9)); v.push_back(C(1001)); } drive(v); }});
	size_t n = alphabet().size();
	for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) {
		std::string id = std::to_string(a) + "." + std::to_string(b);
		sc.push_back({"prog." + id, 0, [=] { auto A = alphabet(); std::vector<Step> v{A[a], A[b]}; int k = mc::choose(th ? 3 : 2); for (int i = 0; i < k; i++) v.push_back(A[mc::choose(n)]); drive(v); }});
	}
	for (size_t a = 0; a < n; a++) for (int kind : {CLOSES_FRAME, FIN, RST, VANISH}) sc.push_back({"peer." + std::to_string(a) + "." + std::to_string(kind), 0, [=] {
		auto A = alphabet(); std::vector<Step> v{W(mc::choose(2) * 50), A[a], A[mc::choose(n)], W(mc::choose(2) ? 300 : 0), S(0, 7), A[mc::choose(th ? n : 8)]}; Peer p; p.kind = kind; p.after = 129 + (size_t[]){0, 1, 2, 3, 6, 7, 8, 12, 130, 140}[mc::choose(10)] ; p.delay = mc::choose(2) * 200; drive(v, p);
	}});
	for (size_t a = 0; a < n; a++) sc.push_back({"partial." + std::to_string(a), th ? 3 : 2, [=] { auto A = alphabet(); std::vector<Step> v{W(50), A[a], S(1, 300), S(0, 5, true), S(0, 2)}; int k = mc::choose(2); if (k) v.push_back(C(1000)); Peer p; p.f.partial_send = p.f.interrupt = true; p.f.max = 3; drive(v, p); }});
	for (size_t cap : {1, 2, 3, 7, 64, 4096}) sc.push_back({"slow." + std::to_string(cap), 0, [=] { auto A = alphabet(); size_t lim = 1500 * cap; std::vector<Step> v{W(50)}; for (int i = 0; i < 2; i++) { Step s = A[mc::choose(n)]; if (s.len > lim) s.len = lim; v.push_back(s); } v.push_back(S(0, 20)); Peer p; p.cap = cap; p.delay = mc::choose(3) * 700; drive(v, p); }});
	sc.push_back({"long-history", 0, [] { // many messages of mixed kinds, sizes and fragmentations
		int rot = mc::choose(8), st = 1 + mc::choose(3), end = mc::choose(2); size_t cap = mc::choose(2) ? 300 : 1u << 30; std::vector<Step> v; static const size_t L[] = {0, 1, 125, 126, 127, 40, 700, 3}; for (int i = 0; i < 150; i++) { int k = (rot + i * st + i / 8) % 8; bool part = i % 5 == 2 || i % 5 == 3; v.push_back(S(i % 4, L[k], part)); if (i % 50 == 49) v.push_back(W(3000)); } v.push_back(S(3, 66000)); v.push_back(S(0, 1)); if (end) v.push_back(C(1000)); Peer p; p.cap = cap; drive(v, p);
	}});
	sc.push_back({"unread", 0, [] { // a peer that never reads: sends end with an error after the send timeout
		size_t cap = (size_t[]){0, 1, 5, 100}[mc::choose(4)]; int k = mc::choose(3); std::vector<Step> v{W(50), S(0, 200), S(1, 10), S(0, 1)}; if (k == 1) v.push_back(C(1000)); if (k == 2) v.insert(v.begin() + 1, C(1000));
		prog = v; okd.clear(); errs.clear(); closes = 0; done = false; slowest = 0; failed_send = send_after_fail = false;
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); Conn c; c.open(); net::opt.send_capacity = cap; 
			for (int i = 0; i < 1200 && !done; i++) sched::sleep_ms(100);
			if (!done) mc::violate("stuck", "the handler did not finish although the peer stopped reading;" + showp());
			if (slowest > 31000) mc::violate("blocked", "a call took " + std::to_string(slowest) + " ms;" + showp());
			if (send_after_fail) mc::violate("send-after-error", "a send succeeded after a failed one;" + showp());
			if (!net::wait_closed(c.c, 20000)) mc::violate("not-closed", "the descriptor stayed open");
			mc::step(mc::path_hash()); mc::outcome(errs.size()); c.close();
		});
	}});
	both_modes(sc, {"length", "close", "slow", "long-history", "unread"});
	return mc::run(argc, argv, cfg, sc);
}
