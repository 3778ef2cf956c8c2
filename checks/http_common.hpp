// helpers of the checks which drive a whole server over simulated sockets
#pragma once
#include "sched.hpp"
#include "simnet.hpp"
#include "seq.hpp"
#include <core/server/server.hpp>
#include <memory>
#include <optional>
#include <algorithm>
#include <map>

namespace hc {
using namespace Lambda;
using sched::Rt; using sched::Lib;
typedef std::vector<std::pair<std::string, std::string>> KV;

inline ServerConfig config() {
	ServerConfig c;
	c.loglevel.requests = false; c.loglevel.startMessage = false; c.loglevel.transportEvents = false;
	c.errorResponseType = ErrorResponseType::Plain;
	c.service.port = 8180; c.service.useThreadList = true; c.service.maxConnections = 50;
	return c;
}
// detached: the connection threads are not tracked (the library's default); such a server may only go once they have ended
inline bool detached = false; inline int services = 0;
struct Server {
	std::unique_ptr<LambdaInstance> inst; bool free_running = false, stopped = false, awaited = false;
	Server(RequestCallback cb, ServerConfig cfg) { Lib l; free_running = detached; if (detached) cfg.service.useThreadList = false; inst = std::make_unique<LambdaInstance>(cb, cfg); services++; }
	void shutdown() { LambdaInstance* i; { Rt g; i = inst.get(); } { Lib l; i->shutdownn(); } Rt g; stopped = true; }
	void await() { { Lib l; inst->awaitFinished(); } Rt g; if (!awaited) services--; awaited = true; }
	void destroy() {
		if (!inst) return;
		if (free_running) {
			if (stopped && !awaited) await();
			Rt g; if (!sched::block("connections end", 0, [] { return sched::live_threads() <= services; }, sched::now_ns() + 600000000000ll)) mc::violate("thread-left", "threads of finished connections are still running: " + sched::describe_live());
		}
		if (!awaited) services--; 
		awaited = true; Lib l; inst.reset();
	}
	~Server() { destroy(); }
};

// ---------------------------------------------------------------- requests
struct Req {
	std::string method = "GET", target = "/"; KV headers; std::string body; bool withlen = false;
	// expected
	std::string path = "/"; KV query; std::string user, pass;
	std::string wire() const {
		std::string s = method + " " + target + " HTTP/1.1\r\n";
		for (auto& h : headers) s += h.first + ": " + h.second + "\r\n";
		if (withlen || !body.empty()) s += "Content-Length: " + std::to_string(body.size()) + "\r\n";
		return s + "\r\n" + body;
	}
};

// ---------------------------------------------------------------- responses
struct Resp {
	int status = 0; std::string reason; KV headers; std::string body;
	std::string get(const std::string& k) const { for (auto& h : headers) if (seq::lower(h.first) == seq::lower(k)) return h.second; return ""; }
	bool has(const std::string& k) const { for (auto& h : headers) if (seq::lower(h.first) == seq::lower(k)) return true; return false; }
	std::vector<std::string> all(const std::string& k) const { std::vector<std::string> v; for (auto& h : headers) if (seq::lower(h.first) == seq::lower(k)) v.push_back(h.second); return v; }
};
enum Parse { OK, MORE, BAD };
// parses one response at s[pos]; on OK advances pos
inline Parse parse(const std::string& s, size_t& pos, bool head, Resp& r, std::string& why) {
	r = Resp();
	auto he = s.find("\r\n\r\n", pos);
	std::string st = s.substr(pos, 9); static const std::string V = "HTTP/1.1 ";
	if (st != V.substr(0, st.size())) { why = "not a status line: " + mc::show(s.substr(pos), 40); return BAD; }
	if (he == std::string::npos) return MORE;
	std::string h = s.substr(pos, he - pos); size_t p = h.find("\r\n"); std::string line = h.substr(0, p);
	if (line.size() < 13 || !isdigit(line[9]) || !isdigit(line[10]) || !isdigit(line[11]) || line[12] != ' ') { why = "bad status line " + mc::show(line); return BAD; }
	r.status = atoi(line.c_str() + 9); r.reason = line.substr(13);
	while (p != std::string::npos) {
		size_t q = h.find("\r\n", p + 2); std::string l = h.substr(p + 2, q == std::string::npos ? q : q - p - 2); p = q;
		auto c = l.find(':'); if (c == std::string::npos || c == 0) { why = "bad header line " + mc::show(l); return BAD; }
		for (char ch : l.substr(0, c)) if (!(isalnum((unsigned char)ch) || ch == '-' || ch == '_')) { why = "bad header name " + mc::show(l); return BAD; }
		for (unsigned char ch : l) if (ch < 32 && ch != '\t') { why = "control character in header " + mc::show(l); return BAD; }
		std::string v = l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back();
		r.headers.push_back({l.substr(0, c), v});
	}
	bool nobody = head || r.status / 100 == 1 || r.status == 204 || r.status == 304;
	auto cl = r.all("content-length"); size_t len = 0;
	if (cl.size() > 1) { why = "several content-length headers"; return BAD; }
	if (cl.empty() && !nobody) { why = "no content-length"; return BAD; }
	if (!cl.empty()) { for (char ch : cl[0]) if (!isdigit((unsigned char)ch)) { why = "bad content-length " + cl[0]; return BAD; } if (cl[0].empty()) { why = "empty content-length"; return BAD; } len = strtoull(cl[0].c_str(), nullptr, 10); }
	if ((r.status / 100 == 1 || r.status == 204) && !cl.empty() && len) { why = "content-length on a response that has no content"; return BAD; }
	if (r.has("transfer-encoding")) { why = "transfer-encoding in a response"; return BAD; }
	if (nobody) len = 0;
	if (s.size() - (he + 4) < len) return MORE;
	r.body = s.substr(he + 4, len); pos = he + 4 + len; return OK;
}
// one client connection which collects responses
struct Client {
	int c; std::string acc; size_t pos = 0;
	explicit Client(int port = 8180) { Rt g; c = net::connect(port); }
	void send(const std::string& s) { net::send(c, s); }
	// next response; false: the stream ended (or timeout) before one was complete
	bool next(Resp& r, bool head = false, int64_t timeout_ms = -1) {
		Rt g; std::string why;
		while (true) {
			Parse p = pos < acc.size() ? parse(acc, pos, head, r, why) : MORE;
			if (p == BAD) mc::violate("malformed-response", why + " in " + mc::show(acc.substr(pos), 200));
			if (p == OK) return true;
			std::string s = net::recv(c, timeout_ms);
			if (s.empty()) return false;
			acc += s;
		}
	}
	std::string rest() { return acc.substr(pos); }
	// reads until the end of the stream; anything arriving is returned
	std::string drain(int64_t timeout_ms = -1) { Rt g; std::string r = rest(); pos = acc.size(); while (true) { std::string s = net::recv(c, timeout_ms); if (s.empty()) break; acc += s; r += s; pos = acc.size(); } return r; }
	void close() { net::close(c); }
	void fin() { net::fin(c); }
};

// splits s at the given cut positions (ascending)
inline std::vector<std::string> cut(const std::string& s, std::vector<size_t> cuts) {
	std::sort(cuts.begin(), cuts.end()); std::vector<std::string> r; size_t p = 0;
	for (size_t c : cuts) if (c > p && c < s.size()) { r.push_back(s.substr(p, c - p)); p = c; }
	r.push_back(s.substr(p)); return r;
}
inline std::string showkv(const KV& k) { std::string s; for (auto& p : k) s += p.first + "=" + p.second + ";"; return s; }

// runs a body inside the scheduler with the simulated network
template <class F> void world(const sched::Options& o, F&& body) {
	net::reset(); services = 0;
	sched::run(o, [&] { body(); });
	net::check_closed();
}
inline sched::Options quiet() { sched::Options o; o.preempt = false; o.onblock = sched::RoundRobin; return o; }
// the scenarios whose names start with one of the prefixes, again with a server which does not track its connection threads
inline void both_modes(std::vector<mc::Scenario>& sc, const std::vector<std::string>& prefixes) {
	size_t n = sc.size();
	for (size_t i = 0; i < n; i++) for (auto& p : prefixes) if (sc[i].name.rfind(p, 0) == 0) {
		auto body = sc[i].body; struct D { D() { detached = true; } ~D() { detached = false; } };
		sc.push_back({sc[i].name + ".detached", sc[i].bound, [body] { D d; body(); }}); break;
	}
}
}
