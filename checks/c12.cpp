// C12: protocol violations, lost peers and silent peers end a WebSocket session cleanly; live ones are left alone
#include "ws_common.hpp"
using namespace wsx;

static std::vector<Got> got; static bool entered, left_loop, threw; static int mode; static int64_t ended_at; static std::string what;
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		{ Rt g; entered = true; }
		try {
			auto ws = ctx.upgrateToWebsocket(); int n = 0;
			auto take = [&] { auto m = ws.nextMessage(); { Rt g; got.push_back({std::string(m.data.begin(), m.data.end()), m.binary, m.partial}); } n++; if (mode == 2) try { ws.sendMessage(Websocket::Message("echo")); } catch (const std::exception&) {} };
			if (mode == 1) { Rt g; sched::sleep_ms(2500); }           // busy first
			if (mode == 3) { while (true) { { Rt g; sched::sleep_ms(700); } ws.sendMessage(Websocket::Message("tick")); } } // only ever sends
			while (ws.awaitMessage()) take();
		} catch (const std::exception& e) { Rt g; threw = true; what = e.what(); }
		Rt g; left_loop = true; ended_at = sched::now_ms(); return {};
	};
}
static void clear(int m) { got.clear(); entered = left_loop = threw = false; mode = m; what.clear(); ended_at = 0; }
[[noreturn]] static void bad(const char* k, const std::string& t) { mc::violate(k, t + " (handler style " + std::to_string(mode) + ")"); }
static bool wait(const std::function<bool()>& p, int64_t ms) { int64_t e = sched::now_ms() + ms; while (!p()) { if (sched::now_ms() >= e) return false; sched::sleep_ms(50); } return true; }
static void check_end(Conn& c, const std::vector<Got>& exp, bool prefix_ok, int64_t within) {
	if (!wait([] { return left_loop; }, within)) bad("stuck", "the handler's receive loop did not end within " + std::to_string(within) + " ms");
	for (size_t i = 0; i < got.size(); i++) { if (i >= exp.size()) bad("delivered-bad-data", "data of an invalid or incomplete frame was delivered: " + show(got[i])); if (!(got[i] == exp[i])) bad("wrong-message", "delivery " + std::to_string(i) + " is " + show(got[i]) + " instead of " + show(exp[i])); }
	if (!prefix_ok && mode != 3 && got.size() != exp.size()) bad("lost-message", "only " + std::to_string(got.size()) + " of " + std::to_string(exp.size()) + " valid data frames were delivered");
	if (!net::wait_closed(c.c, 20000)) bad("not-closed", "the connection stayed open");
}
static int closes(Conn& c, int* code = nullptr) { int n = 0; for (auto& f : c.rd.frames) if (f.op == CLOSE) { n++; if (code && f.data.size() >= 2) *code = (uint8_t)f.data[0] << 8 | (uint8_t)f.data[1]; } return n; }
static Mask M1() { return MASKS_1(); }
static std::string fr(int first, const std::string& p) { Mask m = M1(); return frame(first, p, &m); }

// ---- violations
struct Bad { std::string name, wire; bool big = false; };
static std::vector<Bad> violations(bool infrag, size_t limit) {
	Mask m = M1(); std::vector<Bad> v;
	for (int op : {TEXT, BIN, CONT, CLOSE, PING, PONG}) v.push_back({"unmasked " + std::to_string(op), frame(0x80 | op, "evil", nullptr)});
	for (int op : {3, 4, 5, 6, 7, 11, 12, 13, 14, 15}) { v.push_back({"opcode " + std::to_string(op), fr(0x80 | op, "evil")}); v.push_back({"opcode " + std::to_string(op) + " not final", fr(op, "evil")}); }
	for (int r : {0x10, 0x20, 0x40, 0x70}) for (int op : {TEXT, BIN, CONT, CLOSE, PING, PONG}) { v.push_back({"rsv " + std::to_string(r) + " op " + std::to_string(op), fr(0x80 | r | op, "evil")}); v.push_back({"rsv not final", fr(r | op, "evil")}); }
	for (int op : {CLOSE, PING, PONG}) { v.push_back({"fragmented control", fr(op, "evil")}); v.push_back({"control of 126", fr(0x80 | op, std::string(126, 'e'))}); v.push_back({"control of 65536", fr(0x80 | op, std::string(65536, 'e'))}); v.push_back({"control claims 2^63", frame(0x80 | op, "evil", &m, 8, 1ull << 63)}); v.push_back({"control with long length", frame(0x80 | op, std::string(200, 'e'), &m, 8)}); }
	if (infrag) { v.push_back({"text inside a message", fr(0x80 | TEXT, "evil")}); v.push_back({"binary inside a message", fr(0x80 | BIN, "evil")}); v.push_back({"fragment inside a message", fr(TEXT, "evil")}); v.push_back({"empty text inside a message", fr(0x80 | TEXT, "")}); }
	else { v.push_back({"continuation", fr(0x80 | CONT, "evil")}); v.push_back({"continuation not final", fr(CONT, "evil")}); v.push_back({"empty continuation", fr(0x80 | CONT, "")}); }
	int dop = infrag ? CONT : BIN;
	for (uint64_t claim : std::vector<uint64_t>{limit + 1, limit + 2, limit * 2, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 1ull << 62, (1ull << 63) - 1, 1ull << 63, ~0ull, ~0ull - 1, ~0ull - 5, ~0ull - 9, ~0ull - 13, ~0ull - 14}) v.push_back({"claims " + std::to_string(claim), frame(0x80 | dop, std::string(300, 'e'), &m, claim < 65536 ? 2 : 8, claim), true});
	return v;
}
static size_t NV(bool f) { return violations(f, 4096).size(); }
static void violation(const std::string& pre, const std::vector<Got>& exp, const Bad& b, int md, int seg, const std::string& after) {
	clear(md);
	world(quiet(), [&] {
		Rt g; auto cfg = config(); cfg.transport.maxRequestSize = 4096; Server srv(handler(), cfg); Conn c; c.open();
		std::string w = pre + b.wire + after; if (b.big) w.resize(std::min(w.size(), pre.size() + 310)); 
		if (seg == 0) c.send(w); else if (seg == 1) { for (auto& s : hc::cut(w, {pre.size(), pre.size() + 1, pre.size() + 2, pre.size() + 3, pre.size() + 6, pre.size() + 9, pre.size() + 12})) c.send(s); } else { for (auto& s : hc::cut(w, {pre.size(), pre.size() + 5})) { c.send(s); sched::sleep_ms(150); } }
		check_end(c, exp, false, md == 1 ? 3800 : md == 3 ? 2500 : 1500); c.finish(5000);
		int code = 0, n = closes(c, &code); if (n != 1) bad("close-frame", std::to_string(n) + " close frames were sent after: " + b.name);
		if (code != 1002 && code != 1003 && code != 1007 && code != 1008 && code != 1009) bad("close-code", b.name + " was answered with close code " + std::to_string(code));
		for (auto& f : c.rd.frames) if (f.op == PONG && f.data.find("evil") != std::string::npos) bad("answered-bad-ping", b.name + " was answered with a pong");
		mc::step(mc::path_hash()); mc::outcome(mc::mix(got.size(), code)); mc::nontrivial(); c.close();
		clear(0); Conn d; d.open(); Mask m = M1(); d.send(frame(0x81, "ok", &m)); d.send(frame(0x88, "", &m)); if (!d.finish(20000) || !wait([] { return left_loop; }, 2000) || got.size() != 1) bad("server-broken", "a later session did not work after: " + b.name); d.close();
	});
}
// ---- lost peers
struct Piece { std::string wire; std::vector<Got> d; };
static std::vector<Piece> stream(int k) {
	Mask m = M1(); std::vector<Piece> v;
	auto add = [&](const std::string& w, std::vector<Got> d = {}) { v.push_back({w, d}); };
	if (k == 0) { add(fr(0x81, "hello"), {{"hello", false, false}}); add(fr(0x89, "pp")); add(fr(0x02, "part"), {{"part", true, true}}); add(fr(0x80, "end"), {{"end", true, false}}); }
	if (k == 1) { std::string p = seq::pattern(126, 1); add(fr(0x82, p), {{p, true, false}}); add(fr(0x81, ""), {{"", false, false}}); }
	if (k == 2) { std::string p = seq::pattern(65536, 1); add(frame(0x82, p, &m, 8), {{p, true, false}}); add(fr(0x81, "z"), {{"z", false, false}}); }
	if (k == 3) { add(fr(0x8a, "un")); add(fr(0x01, "a"), {{"a", false, true}}); add(fr(0x89, "")); add(fr(0x00, "b"), {{"b", false, true}}); add(fr(0x88, std::string("\x03\xe8", 2))); }
	return v;
}
static void lost(int k, size_t at, int how, int md, int64_t gap) {
	clear(md);
	world(quiet(), [&] {
		Rt g; auto v = stream(k); std::string all; std::vector<Got> exp; for (auto& p : v) { if (all.size() + p.wire.size() <= at) exp.insert(exp.end(), p.d.begin(), p.d.end()); all += p.wire; }
		Server srv(handler(), config()); Conn c; c.open(); if (at) c.send(all.substr(0, at)); if (gap) sched::sleep_ms(gap);
		if (how == 0) c.fin(); else if (how == 1) net::rst(c.c); else c.close();
		check_end(c, exp, how != 0 && !gap, md == 1 ? 3800 : 1500);
		if (how == 0) { c.finish(5000); if (closes(c) > 1) bad("close-frame", "several close frames"); }
		mc::step(mc::path_hash()); mc::outcome(mc::mix(got.size(), how)); if (at < all.size()) mc::nontrivial(); c.close();
	});
}
// ---- keep-alive
// answers: per ping, latency in ms or -1 for none; after the list, the last value repeats
static void keepalive(const std::vector<int>& answers, int64_t span, int traffic, int md) {
	clear(md); auto opt = quiet(); opt.max_points = 20000000;
	world(opt, [&] {
		Rt g; Server srv(handler(), config()); Conn c; c.open(); int64_t t0 = sched::now_ms(), last_answer = t0, dead_at = 0; size_t pings = 0, seen = 0, sentmsgs = 0; bool ended = false; int64_t end_t = 0, due_gap = 0;
		std::vector<std::pair<int64_t, std::string>> due; int64_t next_traffic = t0 + 400; { Mask m = M1(); if (traffic == 4 || traffic == 5) { c.send(frame(0x01, "begin", &m)); sentmsgs++; } } bool all_answered = true; std::string lastping;
		while (sched::now_ms() - t0 < span && !ended) {
			int64_t nx = t0 + span; for (auto& d : due) nx = std::min(nx, d.first); if (traffic && traffic != 4) nx = std::min(nx, next_traffic);
			int64_t w = std::max<int64_t>(1, nx - sched::now_ms()); if (!c.pump(w)) { ended = true; end_t = sched::now_ms(); break; }
			for (; seen < c.rd.frames.size(); seen++) { auto& f = c.rd.frames[seen]; if (f.op == PING) { lastping = f.data; int a = answers[std::min(pings, answers.size() - 1)]; pings++; if (a >= 0) due.push_back({sched::now_ms() + a, f.data}); else { all_answered = false; if (!dead_at) dead_at = sched::now_ms(); } } }
			int64_t now = sched::now_ms(); Mask m = M1();
			for (size_t i = 0; i < due.size();) if (due[i].first <= now) { c.send(frame(0x8a, due[i].second, &m)); last_answer = now; due.erase(due.begin() + i); } else i++;
			if (traffic && traffic != 4 && now >= next_traffic) { c.send(traffic == 1 ? frame(0x81, "data", &m) : traffic == 5 ? frame(0x00, "more", &m) : traffic == 2 ? frame(0x8a, "other", &m) : traffic == 6 ? frame(0x8a, "", &m) : traffic == 7 ? frame(0x8a, lastping.substr(0, lastping.size() / 2), &m) : traffic == 8 ? frame(0x8a, lastping + "!", &m) : frame(0x89, "mine", &m)); if (traffic == 1 || traffic == 5) sentmsgs++; next_traffic = now + (traffic == 1 || traffic == 5 ? 400 : 90); }
		}
		if (all_answered) {
			if (ended) bad("live-peer-dropped", "a peer that answered every ping was disconnected after " + std::to_string(end_t - t0) + " ms (" + std::to_string(pings) + " pings)" + (what.empty() ? "" : ": " + what));
			if (pings < (size_t)(span / 11000)) bad("no-pings", "only " + std::to_string(pings) + " pings in " + std::to_string(span) + " ms");
			if (mode == 0 && sentmsgs && got.size() + 2 < sentmsgs + (traffic == 4)) bad("lost-message", std::to_string(got.size()) + " of " + std::to_string(sentmsgs) + " messages were delivered");
			Mask m = M1(); c.send(frame(0x88, std::string("\x03\xe8", 2), &m)); c.finish(20000); c.close();
		} else {
			// the last answer may be any earlier; from the first unanswered ping on nothing is answered in these histories
			if (!ended && sched::now_ms() - std::max(last_answer, t0) > 27000) bad("dead-peer-kept", "a peer that answers no pings is still connected " + std::to_string(sched::now_ms() - last_answer) + " ms after its last answer");
			if (ended && end_t - last_answer < 5000) bad("dropped-early", "a peer was disconnected " + std::to_string(end_t - last_answer) + " ms after its last answer");
			if (ended) { if (closes(c) > 1) bad("close-frame", "several close frames"); if (!wait([] { return left_loop; }, 2000)) bad("stuck", "the handler did not notice that the silent peer was dropped"); if (!net::wait_closed(c.c, 20000)) bad("not-closed", "the connection stayed open"); }
			c.close();
		}
		mc::step(mc::path_hash()); mc::outcome(mc::mix(pings, ended)); mc::nontrivial();
	});
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C12"; cfg.level = "fault_enumeration"; bool th = mc::thorough();
	cfg.rule = "every violation (unmasked, unknown opcode, reserved bit, fragmented or oversized control frame, misplaced continuation or data frame, length claims at all integer boundaries) x position (first, after messages, inside a fragmented message) x segmentation x handler style; end of stream, reset and disappearance at every byte of four frame streams; all ping-answer histories up to 3 (thorough 4) pings from 3 (5) latencies, then repeated or silent, with and without other traffic, in virtual time; sessions of 15 (thorough 60) minutes and peers that fall silent after up to 99 answers; reader thread creation failure, shutdown and a peer that stops reading";
	cfg.assumptions = {"a close frame may be lost when the peer has reset the connection"};
	std::vector<mc::Scenario> sc;
	static const std::vector<std::string> AFTER = {"", std::string("\x81\x85\0\0\0\0after", 11)};
	for (size_t i = 0; i < NV(false); i++) sc.push_back({"violation." + violations(false, 4096)[i].name + "." + std::to_string(i), 0, [i] {
		auto b = violations(false, 4096)[i]; int pos = mc::choose(4), md = mc::choose(4), seg = mc::choose(3); std::string a = seq::pick(AFTER);
		std::string pre; std::vector<Got> e; if (pos == 1) { pre = fr(0x81, "one"); e = {{"one", false, false}}; } if (pos == 2) { pre = fr(0x01, "f1") + fr(0x80, "f2") + fr(0x89, "p"); e = {{"f1", false, true}, {"f2", false, false}}; } if (pos == 3) { std::string big = seq::pattern(300, 1); pre = fr(0x82, big) + fr(0x81, ""); e = {{big, true, false}, {"", false, false}}; }
		violation(pre, e, b, md, seg, a);
	}});
	for (size_t i = 0; i < NV(true); i++) sc.push_back({"violation-in-message." + violations(true, 4096)[i].name + "." + std::to_string(i), 0, [i] {
		auto b = violations(true, 4096)[i]; int pos = mc::choose(3), md = mc::choose(4), seg = mc::choose(3); std::string a = seq::pick(AFTER);
		std::string pre = fr(0x02, "f1"); std::vector<Got> e{{"f1", true, true}}; if (pos == 1) { pre += fr(0x00, ""); e.push_back({"", true, true}); } if (pos == 2) { pre += fr(0x89, "p") + fr(0x00, "zz"); e.push_back({"zz", true, true}); }
		violation(pre, e, b, md, seg, a);
	}});
	sc.push_back({"limit", 0, [] { // frames up to the limit are delivered, larger ones end the session at their header
		static const std::vector<size_t> L = {512, 1000, 4096, 65536, 70000}; size_t lim = seq::pick(L); int d = mc::choose(7) - 3; bool over = d > 0; size_t len = over ? lim + d : lim - 20 + d; int how = mc::choose(2); clear(0);
		world(quiet(), [&] {
			Rt g; auto cfg = config(); cfg.transport.maxRequestSize = lim; Server srv(handler(), cfg); Conn c; c.open(); std::string p = seq::pattern(len, 1), w = fr(0x82, p);
			if (!over) { c.send(w); if (!wait([] { return got.size() == 1; }, 2000)) bad("refused-allowed", "a frame of " + std::to_string(len) + " bytes was refused although the limit is " + std::to_string(lim)); if (got[0].data != p) bad("wrong-message", "other bytes delivered"); c.close(); }
			else { size_t part = how ? 20 : w.size(); c.send(w.substr(0, part)); check_end(c, {}, false, 1500); c.finish(3000); if (closes(c) != 1) bad("close-frame", "no close frame for an oversized frame"); c.close(); }
			mc::step(mc::path_hash()); mc::outcome(over); mc::nontrivial();
		});
	}});
	for (int k = 0; k < 4; k++) for (int how = 0; how < 3; how++) sc.push_back({"lost." + std::to_string(k) + "." + std::to_string(how), 0, [k, how] {
		size_t n = 0; for (auto& p : stream(k)) n += p.wire.size(); size_t at;
		if (n < 400) at = mc::choose(n + 1); else { static const std::vector<size_t> A = {0, 1, 2, 3, 9, 10, 13, 14, 15, 255, 256, 257, 511, 512, 4096, 65535, 65536, 65545, 65549, 65550, 65551, 65552, 65556, 65557}; at = seq::pick(A); }
		lost(k, at, how, mc::choose(3), mc::choose(2) * 250);
	}});
	static const std::vector<int> LAT = th ? std::vector<int>{0, 150, 2000, 4500, 4990} : std::vector<int>{0, 2000, 4990};
	int np = th ? 4 : 3;
	for (int md : {0, 3}) for (int tr = 0; tr < 9; tr++) sc.push_back({"live." + std::to_string(md) + "." + std::to_string(tr), 0, [=] { std::vector<int> a; for (int i = 0; i < np; i++) a.push_back(seq::pick(LAT)); keepalive(a, th ? 60000 : 40000, tr, md); }});
	for (int md : {0, 3}) for (int tr = 0; tr < 9; tr++) sc.push_back({"silent." + std::to_string(md) + "." + std::to_string(tr), 0, [=] { std::vector<int> a; int k = mc::choose(np); for (int i = 0; i < k; i++) a.push_back(seq::pick(LAT)); a.push_back(-1); keepalive(a, 29000 + k * 5300, tr, md); }});
	for (int md : {0, 1, 2, 3}) sc.push_back({"faults." + std::to_string(md), th ? 3 : 2, [md] { // failing socket calls at every point of a session
		bool boot = mc::choose(2); int err = 0; (void)err; clear(md);
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); std::vector<Got> exp{{"one", false, false}, {"f1", true, true}, {"f2", true, false}, {"two", false, false}}; Conn c; c.autopong = true;
			net::Faults F; F.short_recv = F.partial_send = F.send_error = F.recv_error = F.timeout_send = F.interrupt = F.recv_interrupt = F.sockopt_error = true; F.max = 3;
			if (boot) net::opt.faults = F;
			c.send(upgrade()); sched::sleep_ms(500); net::opt.faults = F;
			c.send(fr(0x81, "one") + fr(0x02, "f1")); c.send(fr(0x89, "p") + fr(0x80, "f2")); sched::sleep_ms(300); c.send(fr(0x81, "two")); c.send(fr(0x88, std::string("\x03\xe8", 2)));
			if (!wait([&] { return net::server_fully_closed(c.c) && (!entered || left_loop); }, 60000)) bad("stuck", "the session did not end after a failed socket call");
			for (size_t i = 0; i < got.size(); i++) if (i >= exp.size() || !(got[i] == exp[i])) bad("wrong-message", "delivery " + std::to_string(i) + " is " + show(got[i]));
			bool hard = false; for (auto& r : net::injected()) hard |= r.what.find("short") == std::string::npos && r.what.find("partial") == std::string::npos && r.what.find("interrupted") == std::string::npos;
			if (!hard && md != 3 && got.size() != exp.size()) bad("lost-message", std::to_string(got.size()) + " of " + std::to_string(exp.size()) + " frames were delivered although no socket call really failed");
			net::opt.faults = net::Faults(); mc::step(mc::path_hash()); mc::outcome(mc::mix(got.size(), hard)); c.close();
			clear(0); Conn d; d.open(); Mask m = M1(); d.send(frame(0x81, "ok", &m)); d.send(frame(0x88, "", &m)); if (!d.finish(20000) || !wait([] { return left_loop; }, 2000) || got.size() != 1) bad("server-broken", "a later session did not work"); d.close();
		});
	}});
	sc.push_back({"long-live", 0, [] { int a = seq::pick(LAT), b = seq::pick(LAT); keepalive({a, b, a, a, b, b, a}, 200000, mc::choose(3) * (mc::choose(2) + 1), 0); }});
	sc.push_back({"long-hour", 0, [] { static const std::vector<int> A = {0, 700, 4990}; int a = seq::pick(A), tr = mc::choose(3); std::vector<int> v; for (int i = 0; i < 400; i++) v.push_back(i % 7 ? a : 0); keepalive(v, mc::thorough() ? 3600000 : 900000, tr == 2 ? 4 : tr, 0); }});
	sc.push_back({"silent-late", 0, [] { static const std::vector<int> A = {0, 4990}; int a = seq::pick(A), k = (int[]){20, 40, 99}[mc::choose(3)]; std::vector<int> v(k, a); v.push_back(-1); keepalive(v, 29000 + k * 15300, mc::choose(2), 0); }});
	sc.push_back({"unread", 0, [] { // the peer stops reading: pings and messages cannot be sent
		size_t cap = (size_t[]){0, 1, 10, 17, 100}[mc::choose(5)]; int md = (int[]){0, 3, 2}[mc::choose(3)]; bool tr = mc::choose(2); clear(md);
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); Conn c; c.open(); net::opt.send_capacity = cap; Mask m = M1(); if (tr) for (int i = 0; i < 20; i++) { c.send(frame(0x81, "m", &m)); sched::sleep_ms(500); }
			if (!wait([] { return left_loop; }, cap >= 100 ? 80000 : 45000)) bad("stuck", "a peer that stopped reading was never dropped");
			if (!net::wait_closed(c.c, 20000)) bad("not-closed", "the connection stayed open"); mc::step(mc::path_hash()); mc::outcome(got.size()); mc::nontrivial(); c.close();
		});
	}});
	sc.push_back({"shutdown", 0, [] {
		int md = (int[]){0, 2, 1}[mc::choose(3)], k = mc::choose(4); int64_t at = (int64_t[]){0, 50, 3000, 6000}[mc::choose(4)]; bool destroy = mc::choose(2); clear(md);
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); Conn c; c.autopong = k != 3; c.open(); Mask m = M1(); if (k == 1) c.send(frame(0x81, "x", &m)); if (k == 2) c.send(frame(0x01, "x", &m)); if (k == 3) c.send(frame(0x81, "xyz", &m).substr(0, 4));
			if (at) c.until([] { return false; }, at); int64_t t = sched::now_ms(); if (destroy) srv.destroy(); else { srv.shutdown(); if (!wait([] { return left_loop; }, 4000)) bad("stuck", "the handler's receive loop did not end at shutdown"); srv.await(); }
			if (sched::now_ms() - t > 4000) bad("slow-shutdown", "shutdown took " + std::to_string(sched::now_ms() - t) + " ms"); if (!left_loop) bad("stuck", "the handler did not end");
			c.finish(1000); int code = 0; if (closes(c, &code) != 1 || code != 1001) bad("close-frame", std::to_string(closes(c)) + " close frames, code " + std::to_string(code) + " at shutdown");
			mc::step(mc::path_hash()); mc::outcome(got.size()); mc::nontrivial(); c.close();
		});
	}});
	sc.push_back({"no-thread", 0, [] { // the reader thread cannot be started
		int nth = mc::choose(2); clear(0);
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); { Conn w; w.open(); w.close(); } sched::sleep_ms(1000); clear(0);
			static int left; left = nth; sched::thread_create_hook = [] { return left-- <= 0 ? EAGAIN : 0; };
			Client c; c.send(upgrade()); sched::sleep_ms(3000); sched::thread_create_hook = nullptr;
			if (!wait([&] { return nth == 0 || left_loop; }, 3000)) bad("stuck", "the handler did not end although its reader could not start");
			if (nth) { std::string s = c.drain(20000); size_t p = s.find("\r\n\r\n"); if (p != std::string::npos && s.rfind("HTTP/1.1 101", 0) == 0) { Reader r; r.feed(s.substr(p + 4)); } if (!net::wait_closed(c.c, 20000)) bad("not-closed", "the connection stayed open after the session could not start"); }
			c.close(); mc::step(mc::path_hash()); mc::outcome(nth); mc::nontrivial();
			clear(0); Conn d; d.open(); Mask m = M1(); d.send(frame(0x81, "ok", &m)); d.send(frame(0x88, "", &m)); if (!d.finish(20000) || !wait([] { return left_loop; }, 2000) || got.size() != 1) bad("server-broken", "a later session did not work"); d.close();
		});
	}});
	both_modes(sc, {"violation", "limit", "lost", "live", "silent", "faults", "no-thread", "unread"});
	return mc::run(argc, argv, cfg, sc);
}
