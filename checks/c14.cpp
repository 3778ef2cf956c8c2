// C14: server-sent events arrive exactly as pushed
#include "http_common.hpp"
#include <core/sse/sse.hpp>
using namespace hc;
using Lambda::SSE::EventMessage;

// event stream parser of the HTML standard (9.2.6)
struct Ev { std::string type, data, id; bool operator==(const Ev& o) const { return type == o.type && data == o.data && id == o.id; } };
static std::string show(const Ev& e) { return "{event " + mc::show(e.type, 40) + " data " + mc::show(e.data, 60) + " id " + mc::show(e.id, 40) + "}"; }
struct Parsed { std::vector<Ev> ev; std::vector<uint64_t> retries; std::string leftover; };
static Parsed parse_stream(std::string s) {
	Parsed r; if (s.rfind("\xef\xbb\xbf", 0) == 0) s.erase(0, 3);
	std::string data, type, lastid; bool hasdata = false; size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find_first_of("\r\n", p); if (e == std::string::npos) { r.leftover = s.substr(p); break; }
		std::string l = s.substr(p, e - p); p = e + (s[e] == '\r' && e + 1 < s.size() && s[e + 1] == '\n' ? 2 : 1);
		if (l.empty()) { if (hasdata) { if (!data.empty() && data.back() == '\n') data.pop_back(); r.ev.push_back({type.empty() ? "message" : type, data, lastid}); } data.clear(); type.clear(); hasdata = false; continue; }
		if (l[0] == ':') continue;
		size_t c = l.find(':'); std::string f = l.substr(0, c), v = c == std::string::npos ? "" : l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
		if (f == "event") type = v; else if (f == "data") { data += v + "\n"; hasdata = true; } else if (f == "id") { if (v.find('\0') == std::string::npos) lastid = v; } else if (f == "retry") { if (!v.empty() && v.find_first_not_of("0123456789") == std::string::npos) r.retries.push_back(strtoull(v.c_str(), nullptr, 10)); }
	}
	if (r.leftover.empty() && (hasdata || !type.empty())) r.leftover = "(an event without its empty line)";
	return r;
}
static std::string lf(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r') { r += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else r += s[i]; } return r; }

struct Plan { std::vector<EventMessage> ev; bool close = false, twice = false; int wait = 0; bool until_gone = false; };
static Plan plan; static size_t pushed; static std::vector<std::string> errs; static bool done, conn_at_end, conn_at_start, entered; static std::vector<bool> okpush;
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		try {
			auto w = ctx.startEventStream(); { Rt g; entered = true; conn_at_start = w.connected(); }
			for (auto& e : plan.ev) { if (plan.wait) { Rt g; sched::sleep_ms(plan.wait); } try { w.push(e); Rt g; okpush.push_back(true); pushed++; } catch (const std::exception& x) { Rt g; okpush.push_back(false); errs.push_back(x.what()); } }
			if (plan.until_gone) for (int i = 0; i < 400 && w.connected(); i++) { { Rt g; sched::sleep_ms(250); } try { w.push({"tick"}); } catch (const std::exception& x) { Rt g; errs.push_back(x.what()); } }
			if (plan.close) { w.close(); if (plan.twice) w.close(); try { w.push({"after"}); Rt g; errs.push_back("AFTER"); } catch (const std::exception&) {} }
			Rt g; conn_at_end = w.connected();
		} catch (const std::exception& e) { Rt g; errs.push_back(std::string("escaped: ") + e.what()); }
		Rt g; done = true; return {};
	};
}
static void clear(const Plan& p) { plan = p; pushed = 0; errs.clear(); okpush.clear(); done = conn_at_end = conn_at_start = entered = false; }
static bool bad_line(const EventMessage& e) { return e.event.value_or("").find_first_of("\r\n") != std::string::npos || e.id.value_or("").find_first_of("\r\n") != std::string::npos; }
static std::string showp(const Plan& p) { std::string s; for (auto& e : p.ev) s += " [" + mc::show(e.data, 40) + (e.event ? " event=" + mc::show(*e.event, 30) : "") + (e.id ? " id=" + mc::show(*e.id, 30) : "") + (e.retry ? " retry=" + std::to_string(*e.retry) : "") + "]"; return s; }
static void check_head(const Resp& r) {
	if (r.status != 200) mc::violate("head", "status " + std::to_string(r.status));
	if (seq::lower(r.get("content-type")).rfind("text/event-stream", 0) != 0) mc::violate("head", "content-type is " + r.get("content-type"));
	if (r.has("content-length")) mc::violate("head", "the stream is announced with a content-length");
	if (r.has("content-encoding") || r.has("transfer-encoding")) mc::violate("head", "the stream is announced as encoded");
}
// response head of a stream without content-length
static bool head_of(const std::string& s, Resp& r, size_t& body) {
	auto e = s.find("\r\n\r\n"); if (e == std::string::npos) return false; body = e + 4; std::string h = s.substr(0, e), why; size_t p = 0;
	std::string fake = h + "\r\nx-end: 1\r\n\r\n"; if (parse(fake, p, true, r, why) != OK) mc::violate("head", why); return true;
}
static std::string req(const std::string& extra = "") { return "GET /events HTTP/1.1\r\nHost: a\r\nAccept: text/event-stream\r\n" + extra + "\r\n"; }
static void expect(const Plan& p, const std::string& stream, bool complete) {
	Parsed g = parse_stream(stream); std::vector<Ev> exp; std::vector<uint64_t> ret; std::string lastid; size_t i = 0;
	auto bad = [&](const char* k, const std::string& t) { mc::violate(k, t + "; pushed:" + showp(p) + "; stream " + mc::show(stream, 300)); };
	for (auto& e : p.ev) {
		if (bad_line(e)) { if (i < okpush.size() && okpush[i]) { // accepted although it cannot be represented: nothing may be damaged
			} i++; continue; }
		if (i < okpush.size() && !okpush[i] && complete) bad("push-failed", "a push failed: " + (errs.empty() ? std::string("?") : errs[0]));
		i++; if (e.id && e.id->find('\0') == std::string::npos) lastid = *e.id; std::string t = e.event.value_or(""); exp.push_back({t.empty() ? "message" : t, lf(e.data), lastid}); if (e.retry) ret.push_back(*e.retry);
	}
	for (auto& e : p.ev) if (bad_line(e)) { // the rest must be intact in order
		size_t k = 0; for (auto& x : g.ev) if (k < exp.size() && x == exp[k]) k++; if (complete && k < exp.size()) bad("wrong-event", "an event with an invalid name or id damaged the others"); if (complete && g.ev.size() > exp.size() + p.ev.size() + 1) bad("injected-event", "an event's name or id injected another event"); 
		bool acc = false; for (size_t j = 0; j < p.ev.size() && j < okpush.size(); j++) acc |= bad_line(p.ev[j]) && okpush[j]; if (!acc && complete && g.ev.size() > exp.size() + (p.close ? 1 : 0)) bad("invented-event", "a rejected event was sent"); return; }
	if (p.close && complete) exp.push_back({"close", "", lastid});
	for (size_t k = 0; k < std::max(exp.size(), g.ev.size()); k++) {
		if (k >= exp.size()) bad("invented-event", "an extra event was received: " + show(g.ev[k]));
		if (k >= g.ev.size()) { if (complete) bad("lost-event", "only " + std::to_string(g.ev.size()) + " of " + std::to_string(exp.size()) + " events were received"); break; }
		if (!(g.ev[k] == exp[k])) bad("wrong-event", "event " + std::to_string(k) + " is " + show(g.ev[k]) + " instead of " + show(exp[k]));
	}
	if (complete && g.retries != ret) bad("wrong-retry", "other retry values were received");
	if (complete && !g.leftover.empty()) bad("cut-event", "the stream ends with " + mc::show(g.leftover));
}
static void drive(const Plan& p, const net::Faults& f = {}, size_t cap = 1u << 30, const std::string& extra = "") {
	clear(p);
	world(quiet(), [&] {
		Rt g; Server srv(handler(), config()); Client c; net::opt.send_capacity = cap; net::opt.faults = f; c.send(req(extra)); if (cap < 1000) sched::sleep_ms(400);
		std::string all = c.drain(60000); net::opt.faults = net::Faults(); Resp r; size_t b;
		if (!head_of(all, r, b)) mc::violate("head", "no response head");
		check_head(r); if (!conn_at_start) mc::violate("connected", "connected() was false on a new stream");
		for (int i = 0; i < 100 && !done; i++) sched::sleep_ms(100);
		if (!done) mc::violate("stuck", "the handler did not end");
		for (auto& e : errs) if (e == "AFTER") mc::violate("push-after-close", "pushing after close() did not fail"); else if (e.rfind("escaped", 0) == 0) mc::violate("escaped", e);
		if (p.close && conn_at_end) mc::violate("connected", "connected() is true after close()");
		expect(p, all.substr(b), true); if (!net::wait_closed(c.c, 20000)) mc::violate("not-closed", "the connection stayed open after the stream ended");
		mc::step(mc::path_hash()); mc::outcome(parse_stream(all.substr(b)).ev.size()); mc::nontrivial(); c.close();
	});
}
static EventMessage E(const std::string& d) { return {d}; }
static EventMessage E(const std::string& d, std::optional<std::string> e, std::optional<std::string> i, std::optional<uint32_t> r) { EventMessage m; m.data = d; m.event = e; m.id = i; m.retry = r; return m; }
static const std::vector<std::string> TOK = {"a", "\n", "\r", "\r\n", ":", " ", "data: x", "", "\xc3\xa9", std::string(1, '\0'), "id: 7", "\t"};
typedef std::optional<std::string> OS; typedef std::optional<uint32_t> OU;
static const std::vector<OS> NAMES = {{}, OS(""), OS("tick"), OS(" lead"), OS("a:b"), OS("close"), OS(":"), OS("\xc3\xa9")};
static const std::vector<OU> RET = {{}, OU(0), OU(3000), OU(4294967295u)};
static std::vector<EventMessage> alphabet() { return {E("x"), E(""), E("l1\nl2"), E("l1\r\n\r\nl2\n"), E("\n"), E(" lead", OS("tick"), {}, {}), E("d", {}, OS("1"), {}), E("j", OS("n"), OS("2"), OU(5)), E("{\"a\":1}", OS(""), OS(""), OU(0)), E("a\rb\r"), E(seq::pattern(5000, 5)), E("z", OS("bad\nname"), {}, {}), E("q", {}, OS("9\r\ndata: evil\r\n\r\n"), {})}; }
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C14"; bool th = mc::thorough();
	cfg.rule = "single events: all data strings of up to 4 (thorough 5) tokens from 12 (letters, CR, LF, CRLF, colon, space, field look-alikes, NUL, non-ASCII), all combinations of 8 names x 8 ids x 4 retry values x data shapes; all sequences of up to 3 (4) events from 13 shapes with and without close; histories of 150 events, events of up to 200 lines; peer half-close, reset and disappearance after every event, partial and failing sends up to 2 (3), small windows, a peer that stops reading, ordinary and HEAD requests on the same connection before the stream and bytes behind it, shutdown; parsed by a parser of the HTML standard";
	cfg.assumptions = {"an event name or id containing a line break has no representation; rejecting it is correct"};
	std::vector<mc::Scenario> sc;
	for (size_t t = 0; t < TOK.size(); t++) sc.push_back({"data." + std::to_string(t), 0, [=] { std::string d = TOK[t] + seq::picktok(TOK, th ? 4 : 3); drive({{E(d), E("next")}, false}); }});
	for (size_t n = 0; n < NAMES.size(); n++) sc.push_back({"fields." + std::to_string(n), 0, [n] { auto id = seq::pick(NAMES); auto r = seq::pick(RET); std::string d = std::vector<std::string>{"v", "a\nb", ""}[mc::choose(3)]; bool cl = mc::choose(2); Plan p; p.ev = {E(d, NAMES[n], id, r), E("next")}; p.close = cl; drive(p); }});
	size_t n = alphabet().size();
	for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) sc.push_back({"seq." + std::to_string(a) + "." + std::to_string(b), 0, [=] { auto A = alphabet(); Plan p; p.ev = {A[a], A[b]}; int k = mc::choose(th ? 3 : 2); for (int i = 0; i < k; i++) p.ev.push_back(A[mc::choose(n)]); int c = mc::choose(3); p.close = c; p.twice = c == 2; drive(p); }});
	sc.push_back({"sizes", 0, [] { static const std::vector<size_t> L = {0, 1, 2040, 2048, 4096, 65535, 65536, 1000000}; size_t l = seq::pick(L); int k = (int[]){0, 5}[mc::choose(2)]; Plan p; p.ev = {E(seq::pattern(l, k)), E("end")}; p.close = mc::choose(2); drive(p); }});
	sc.push_back({"long-history", 0, [] { auto A = alphabet(); int rot = mc::choose(11), st = 1 + mc::choose(4); Plan p; for (int i = 0; i < 150; i++) p.ev.push_back(A[(rot + i * st + i / 11) % 11]); p.close = mc::choose(2); drive(p, {}, mc::choose(2) ? 500 : 1u << 30); }});
	sc.push_back({"many-lines", 0, [] { int n = 1 + mc::choose(40), k = mc::choose(5); std::string d; static const std::vector<std::string> E_ = {"\n", "\r\n", "\n\n", " \n:", "\r"}; for (int i = 0; i < n * 5; i++) d += (i % 3 ? "line" + std::to_string(i) : "") + E_[k]; Plan p; p.ev = {E(d), E(d + "x"), E("end")}; drive(p); }});
	sc.push_back({"request", 0, [] { static const std::vector<std::string> X = {"", "Accept-Encoding: br, gzip, deflate\r\n", "Accept-Encoding: gzip\r\nOrigin: http://b\r\n", "Connection: close\r\n", "Connection: keep-alive\r\nLast-Event-ID: 7\r\n"}; std::string x = seq::pick(X); Plan p; p.ev = {E("one\ntwo", OS("e"), OS("1"), OU(1)), E("x")}; p.close = mc::choose(2); p.wait = mc::choose(2) * 16000; drive(p, {}, 1u << 30, x); }});
	for (int k = 0; k < 3; k++) sc.push_back({"partial." + std::to_string(k), th && k < 2 ? 3 : 2, [k] { auto A = alphabet(); Plan p; p.ev = {A[mc::choose(10)], E("w\nw")}; p.close = mc::choose(2); net::Faults f; f.partial_send = true; f.interrupt = k == 1; f.max = 3; drive(p, f, k == 2 ? 20 : 1u << 30); }});
	for (size_t a = 0; a < 4; a++) sc.push_back({"gone." + std::to_string(a), 0, [a] { // the peer leaves at some step
		auto A = alphabet(); int how = mc::choose(3), at = mc::choose(4); Plan p; p.ev = {A[mc::choose(11)], E("two"), E("three")}; p.wait = 200; p.until_gone = a & 1; p.close = a & 2; clear(p);
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); Client c; c.send(req()); sched::sleep_ms(100 + 200 * at); if (how == 0) c.fin(); else if (how == 1) net::rst(c.c); else c.close();
			for (int i = 0; i < 600 && !done; i++) { if (how == 0 && p.until_gone && i == 100) { net::rst(c.c); } sched::sleep_ms(100); }
			if (!done) mc::violate("stuck", "the handler did not end after the peer had gone");
			for (auto& e : errs) if (e.rfind("escaped", 0) == 0) mc::violate("escaped", e);
			if (p.until_gone && conn_at_end) mc::violate("connected", "connected() stayed true although the peer had gone");
			if (how == 0) { std::string all = c.drain(1000); Resp r; size_t b; if (head_of(all, r, b) && !p.until_gone) expect(p, all.substr(b), true); }
			if (!net::wait_closed(c.c, 20000)) mc::violate("not-closed", "the descriptor stayed open"); mc::step(mc::path_hash()); mc::outcome(errs.size()); mc::nontrivial(); c.close();
		});
	}});
	sc.push_back({"faults", th ? 3 : 2, [] { Plan p; p.ev = {E("one"), E("two\nb"), E("three")}; p.close = mc::choose(2); clear(p);
		world(quiet(), [&] {
			Rt g; Server srv(handler(), config()); Client c; net::opt.faults.send_error = net::opt.faults.timeout_send = net::opt.faults.partial_send = true; net::opt.faults.max = 3; c.send(req());
			for (int i = 0; i < 600 && !done; i++) sched::sleep_ms(100); if (!done) mc::violate("stuck", "the handler did not end after a failed send");
			net::opt.faults = net::Faults(); std::string all = c.drain(20000); Resp r; size_t b; bool hard = false; for (auto& x : net::injected()) hard |= x.what.find("partial") == std::string::npos;
			if (head_of(all, r, b)) { Parsed q = parse_stream(all.substr(b)); std::vector<Ev> exp{{"message", "one", ""}, {"message", "two\nb", ""}, {"message", "three", ""}, {"close", "", ""}}; for (size_t i = 0; i < q.ev.size(); i++) if (i >= exp.size() || !(q.ev[i] == exp[i])) mc::violate("wrong-event", "event " + std::to_string(i) + " is " + show(q.ev[i])); if (!hard) expect(p, all.substr(b), true); else if (conn_at_end) mc::violate("connected", "connected() is true after a failed send"); }
			if (!net::wait_closed(c.c, 20000)) mc::violate("not-closed", "the descriptor stayed open"); mc::step(mc::path_hash()); mc::outcome(mc::mix(errs.size(), hard)); mc::nontrivial(); c.close();
			clear({{E("ok")}}); Client d; d.send(req()); std::string s = d.drain(20000); if (s.find("data: ok") == std::string::npos && s.find("data:ok") == std::string::npos) mc::violate("server-broken", "a later stream did not work"); d.close();
		});
	}});
	// ordinary requests before (and behind) the stream on the same connection, and HEAD requests, which cannot have one
	sc.push_back({"mixed", 0, [] {
		static const std::vector<std::string> X = {"", "Accept-Encoding: br, gzip\r\n", "Connection: keep-alive\r\n"}; auto A = alphabet(); Plan p; p.ev = {A[mc::choose(11)], E("x\ny")}; p.close = mc::choose(2); std::string x = seq::pick(X); int before = mc::choose(4), pipe = mc::choose(3), last = mc::choose(4); clear(p); static bool recovered; recovered = false; static int served; served = 0;
		world(quiet(), [&] {
			Rt g; auto cfg = config(); cfg.transport.useCompression = true; auto streaming = handler();
			Server srv([streaming](const HTTP::Request& q, const RequestContext& ctx) -> HandlerResponse {
				std::string path; { Rt g; path = q.url.pathname; served++; }
				if (path == "/plain") return HTTP::Response(200, {{"content-type", "text/plain"}}, std::string("plain body plain body"));
				if (path == "/own") { try { auto w = ctx.startEventStream(); w.push({"never"}); } catch (const std::exception&) { { Rt g; recovered = true; } return HTTP::Response(200, {{"content-type", "image/x"}, {"x-mine", "1"}}, std::string("own")); } }
				if (path == "/raw") { auto w = ctx.startEventStream(); w.push({"never"}); return {}; }
				return streaming(q, ctx);
			}, cfg);
			Client c; std::string plain = "GET /plain HTTP/1.1\r\n" + x + "\r\n", all; std::vector<std::string> ws; std::vector<int> kind; // kind 0 plain, 1 HEAD refused and recovered, 2 HEAD refused
			for (int i = 0; i < before; i++) { ws.push_back(i == 1 ? "HEAD /own HTTP/1.1\r\n" + x + "\r\n" : plain); kind.push_back(i == 1); }
			if (last == 1) { ws.push_back("HEAD /raw HTTP/1.1\r\n" + x + "\r\n"); kind.push_back(2); }
			ws.push_back(req(x)); if (last >= 2) ws.push_back(last == 2 ? plain : "GARBAGE\r\n\r\n"); for (auto& w : ws) all += w;
			if (pipe == 0) c.send(all); else if (pipe == 1) for (auto& w : ws) c.send(w);
			for (size_t i = 0; i < kind.size(); i++) {
				if (pipe == 2) c.send(ws[i]); Resp r; if (!c.next(r, kind[i] > 0)) mc::violate("mixed", "request " + std::to_string(i) + " before the stream was not answered");
				if (kind[i] == 0) { std::string b = r.body, e = r.get("content-encoding"); if (r.status != 200 || r.has("x-mine") || (e.empty() && b != "plain body plain body") || (!e.empty() && x.find("gzip") == std::string::npos)) mc::violate("mixed", "a plain request before the stream was answered with " + std::to_string(r.status) + " " + mc::show(b, 60)); }
				if (kind[i] == 1 && (r.status != 200 || r.get("x-mine") != "1" || r.get("content-length") != "3" || !recovered)) mc::violate("head-request", "a handler that recovered from the refused stream had its response changed: " + std::to_string(r.status));
				if (kind[i] == 2) { if (r.status / 100 != 4 || seq::lower(r.get("content-type")).rfind("text/event-stream", 0) == 0) mc::violate("head-request", "a stream for a HEAD request was answered with " + std::to_string(r.status)); std::string rest = c.drain(60000); if (!rest.empty()) mc::violate("head-request", "bytes follow the response to HEAD: " + mc::show(rest, 100)); c.close(); mc::step(mc::path_hash()); mc::nontrivial(); return; }
			}
			if (pipe == 2) { c.send(ws[kind.size()]); if (last >= 2) c.send(ws.back()); }
			std::string s = c.drain(60000); Resp r; size_t b; if (!head_of(s, r, b)) mc::violate("head", "no response head"); check_head(r); for (int i = 0; i < 100 && !done; i++) sched::sleep_ms(100); if (!done) mc::violate("stuck", "the handler did not end");
			if (served != before + 1) mc::violate("mixed", std::to_string(served) + " handler calls for " + std::to_string(before + 1) + " requests up to the stream"); expect(p, s.substr(b), true); if (!net::wait_closed(c.c, 20000)) mc::violate("not-closed", "the connection stayed open after the stream ended");
			mc::step(mc::path_hash()); mc::outcome(mc::mix(before, last)); mc::nontrivial(); c.close();
		});
	}});
	sc.push_back({"unread", 0, [] { Plan p; p.ev = {E(std::string(300, 'x')), E("y")}; p.until_gone = true; p.close = mc::choose(2); p.wait = mc::choose(2) * 100; size_t cap = (size_t[]){0, 1, 100, 350}[mc::choose(4)]; clear(p);
		world(quiet(), [&] { Rt g; Server srv(handler(), config()); Client c; c.send(req()); net::recv(c.c, 1000); net::opt.send_capacity = cap; for (int i = 0; i < 1200 && !done; i++) sched::sleep_ms(100); if (!done) mc::violate("stuck", "the handler did not end although the peer stopped reading"); if (conn_at_end) mc::violate("connected", "connected() stayed true"); if (!net::wait_closed(c.c, 20000)) mc::violate("not-closed", "the descriptor stayed open"); mc::step(mc::path_hash()); mc::outcome(errs.size()); mc::nontrivial(); c.close(); });
	}});
	sc.push_back({"shutdown", 0, [] { Plan p; p.ev = {E("a")}; p.until_gone = true; p.close = mc::choose(2); int at = (int[]){0, 300, 5000}[mc::choose(3)]; bool destroy = mc::choose(2); clear(p);
		world(quiet(), [&] { Rt g; Server srv(handler(), config()); Client c; c.send(req()); sched::sleep_ms(at + 50); if (destroy) srv.destroy(); else { srv.shutdown(); srv.await(); } if (!done) mc::violate("stuck", "the handler did not end at shutdown"); if (conn_at_end) mc::violate("connected", "connected() is true after shutdown"); std::string s = c.drain(1000); Resp r; size_t b; if (!head_of(s, r, b)) mc::violate("head", "no head"); Parsed q = parse_stream(s.substr(b)); if (p.close && (q.ev.empty() || q.ev.back().type != "close")) mc::violate("no-close-event", "close() sent no close event"); mc::step(mc::path_hash()); mc::outcome(q.ev.size()); mc::nontrivial(); c.close(); });
	}});
	both_modes(sc, {"data", "fields", "sizes", "long-history", "request", "gone", "faults", "unread"});
	return mc::run(argc, argv, cfg, sc);
}
