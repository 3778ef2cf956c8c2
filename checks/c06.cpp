// C06: a failing handler always yields one complete error response
#include "http_common.hpp"
#include "json_common.hpp"
using namespace hc;

enum How { StdEx, LambdaErr, Derived, Int, CStr, Nothing, WsUncaught, WsCaught, WsRethrow, BadAlloc, NestedEx, StrResp, HOWS };
struct Q { How how = StdEx; std::string msg; int req = 0; };
static std::vector<Q> qs; static size_t calls; static std::string upmsg;
struct MyErr : std::logic_error { using std::logic_error::logic_error; };
static RequestCallback handler() {
	return [](const HTTP::Request&, const RequestContext& ctx) -> HandlerResponse {
		const Q* q; { Rt g; if (calls >= qs.size()) return HTTP::Response(200, {{"content-type", "image/x"}}, std::string("fine")); q = &qs[calls++]; }
		switch (q->how) {
			case StdEx: throw std::runtime_error(q->msg);
			case LambdaErr: throw Lambda::Error(q->msg);
			case Derived: throw MyErr(q->msg);
			case Int: throw 42;
			case CStr: throw "text";
			case Nothing: return {};
			case WsUncaught: { auto ws = ctx.upgrateToWebsocket(); return {}; }
			case WsCaught: try { auto ws = ctx.upgrateToWebsocket(); return {}; } catch (const std::exception& e) { { Rt g; upmsg = e.what(); } HTTP::Response r(200, {{"content-type", "image/x"}, {"x-mine", "1"}}, q->msg); return r; }
			case WsRethrow: try { auto ws = ctx.upgrateToWebsocket(); return {}; } catch (const std::exception&) { throw std::runtime_error(q->msg); }
			case BadAlloc: throw std::bad_alloc();
			case NestedEx: try { throw std::runtime_error("inner"); } catch (...) { std::throw_with_nested(std::runtime_error(q->msg)); }
			case StrResp: return "plain text";
			default: return {};
		}
	};
}
static const std::vector<std::string> MSG = {"boom", "", "quote \" and \\ back", "line\r\nbreak\ttab", "{{svcpage_statustext}} ${x} {{nope}}", "${svcpage_message_text} $ {", "<script>&amp;</script>", "caf\xc3\xa9 \xf0\x9f\x98\x80", "HTTP/1.1 200 OK\r\n\r\n", std::string(3000, 'm'), std::string(70000, 'n'), "nul\x01\x1f end"};
// requests: what kind of (refused) upgrade or ordinary request; expected refusal status
struct R { std::string wire; std::vector<int> refuse; bool head; };
static std::vector<R> reqs() {
	std::string u = "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\n", k = "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n";
	return {{"GET / HTTP/1.1\r\n\r\n", {400, 426}, false}, {"POST / HTTP/1.1\r\nContent-Length: 3\r\n" + u + k + "\r\nabc", {405}, false}, {"GET / HTTP/1.1\r\n" + u + "\r\n", {400}, false}, {"HEAD / HTTP/1.1\r\n\r\n", {405, 400}, true},
		{"GET / HTTP/1.1\r\nAccept-Encoding: gzip\r\nConnection: keep-alive\r\n\r\n", {400, 426}, false}, {"GET / HTTP/1.1\r\nConnection: close\r\n\r\n", {400, 426}, false}};
}
static std::string unescape(std::string s) { for (auto& p : std::vector<std::pair<std::string, std::string>>{{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&amp;", "&"}}) { size_t i = 0; while ((i = s.find(p.first, i)) != std::string::npos) { s.replace(i, p.first.size(), p.second); i += p.second.size(); } } return s; }
static void drive(const std::vector<Q>& v, ErrorResponseType type, bool pipelined) {
	qs = v; calls = 0; upmsg.clear(); auto rq = reqs();
	world(quiet(), [&] {
		Rt g; auto cfg = config(); cfg.errorResponseType = type; cfg.transport.useCompression = false; Server srv(handler(), cfg); auto c = std::make_unique<Client>();
		if (pipelined) { std::string all; for (auto& q : v) all += rq[q.req].wire; c->send(all); }
		for (size_t i = 0; i < v.size(); i++) {
			const Q& q = v[i]; const R& rr = rq[q.req]; auto bad = [&](const std::string& m) { mc::violate("bad-error-response", "failure " + std::to_string(q.how) + " with message " + mc::show(q.msg, 60) + ": " + m); };
			if (!pipelined) c->send(rr.wire);
			Resp r; if (!c->next(r, rr.head)) bad("no response arrived");
			std::string text = q.msg; bool any = false; std::vector<int> want = {500};
			switch (q.how) {
				case Nothing: any = true; break; case Int: case CStr: case BadAlloc: any = true; break;
				case WsUncaught: want = rr.refuse; any = true; break;
				case WsCaught: want = {200}; break;
				case StrResp: want = {200}; any = true; break;
				default: break;
			}
			if (std::find(want.begin(), want.end(), r.status) == want.end()) bad("status " + std::to_string(r.status));
			if (r.status == 200) {
				if (q.how == WsCaught && (r.get("x-mine") != "1" || (!rr.head && r.body != q.msg))) bad("the recovered handler's own response was changed");
				if (q.how == StrResp && !rr.head && r.body != "plain text") bad("body " + r.body);
			} else {
				std::string ct = seq::lower(r.get("content-type")), wct = type == ErrorResponseType::Plain ? "text/plain" : type == ErrorResponseType::HTML ? "text/html" : "application/json";
				if (ct.rfind(wct, 0) != 0) bad("content type " + ct);
				if (!rr.head) {
					if (r.body.empty()) bad("empty error page");
					if (type == ErrorResponseType::JSON) {
						MV val; if (!refparse(r.body, val)) bad("the error page is not JSON: " + mc::show(r.body));
						if (!any) { bool f = false; if (val.t == MV::Map) for (auto& p : val.m) if (p.second.t == MV::Str && p.second.s == text) f = true; if (!f) bad("no member holds the message: " + mc::show(r.body)); }
					} else if (!any && r.body.find(text) == std::string::npos && !(type == ErrorResponseType::HTML && unescape(r.body).find(text) != std::string::npos)) bad("the message is not in the page " + mc::show(r.body, 300));
					if (type == ErrorResponseType::HTML && any && r.body.find(std::to_string(r.status)) == std::string::npos) bad("the page does not show the status");
				}
			}
			mc::step(mc::mix(mc::path_hash(), i)); mc::outcome(mc::mix(r.status, mc::hash_str(r.body))); mc::nontrivial();
			bool cl = seq::lower(r.get("connection")).find("close") != std::string::npos;
			if (cl) { std::string x = c->drain(60000); if (!x.empty()) bad("data after the last response: " + mc::show(x)); if (pipelined) break; if (i + 1 < v.size()) c = std::make_unique<Client>(); }
		}
		{ Client k; k.send("GET / HTTP/1.1\r\n\r\n"); size_t save = calls; calls = qs.size(); Resp r; if (!k.next(r) || r.status != 200 || r.body != "fine") mc::violate("service-down", "the server does not serve others after the failure"); (void)save; k.close(); }
		c->close();
	});
}
int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C06";
	cfg.rule = "all combinations of failure (12 kinds: exceptions of several types, non-exceptions, no response, refused upgrade uncaught, recovered or rethrown) x message (12) x request (6) x error format (3); all sequences of 2 (thorough 3) failures on one connection, sequential or pipelined; every rotation and stride of a history of 60 failures";
	cfg.assumptions = {"for thrown values that are not std::exception only the status and framing are required", "in HTML pages the message may be HTML-escaped"};
	std::vector<mc::Scenario> sc; bool th = mc::thorough();
	static const ErrorResponseType T[] = {ErrorResponseType::Plain, ErrorResponseType::HTML, ErrorResponseType::JSON};
	for (int h = 0; h < HOWS; h++) for (int t = 0; t < 3; t++) {
		sc.push_back({"single." + std::to_string(h) + "." + std::to_string(t), 0, [h, t] { Q q; q.how = (How)h; q.msg = seq::pick(MSG); q.req = mc::choose(6); drive({q}, T[t], false); }});
		sc.push_back({"seq." + std::to_string(h) + "." + std::to_string(t), 0, [h, t, th] {
			std::vector<Q> v; Q q; q.how = (How)h; q.msg = MSG[mc::choose(3)]; q.req = mc::choose(6); v.push_back(q);
			int n = th ? 2 : 1; for (int i = 0; i < n; i++) { Q p; p.how = (How)mc::choose(HOWS); p.msg = MSG[mc::choose(2) * 4]; p.req = mc::choose(6); v.push_back(p); } drive(v, T[t], mc::choose(2));
		}});
	}
	for (int t = 0; t < 3; t++) sc.push_back({"long-history." + std::to_string(t), 0, [t] { size_t rot = mc::choose(HOWS), st = 1 + mc::choose(5); bool p = mc::choose(2); std::vector<Q> v; for (size_t i = 0; i < 60; i++) { Q q; q.how = (How)((rot + i * st + i / HOWS) % HOWS); q.msg = MSG[(i * 5 + rot) % 10]; q.req = i % 9 == 8 ? 5 : i % 5; v.push_back(q); } drive(v, T[t], p); }});
	both_modes(sc, {"single", "seq", "long-history"});
	return mc::run(argc, argv, cfg, sc);
}
