// C35: a TCP connection may be closed by any thread at any time; timeouts have millisecond resolution
#include "sched.hpp"
#include "simnet.hpp"
#include "seq.hpp"
#include <core/network/tcp/connection.hpp>
#include <core/network/tcp/listener.hpp>
#include <memory>
#include <optional>
using namespace Lambda; using namespace Lambda::Network; using sched::Rt; using sched::Lib;
typedef std::unique_ptr<TCP::Connection> Conn;
static ConnectionInfo info(int n = 0) { ConnectionInfo i; i.remoteAddr.hostname = "127.0.0." + std::to_string(1 + n); i.remoteAddr.port = 4 + n; i.remoteAddr.transport = ConnectionTransport::TCP; i.hostPort = 8180 + n; return i; }
static std::string own(const std::vector<uint8_t>& v) { Rt g; return std::string(v.begin(), v.end()); }
static std::vector<uint8_t> vec(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }

struct Plan { int readers = 1, writers = 1, closers = 1; int peer = 0; // 0 sends, reads everything, closes; 1 resets; 2 silent; 3 half-closes; 4 never reads
	size_t cap = 1 << 20; bool closeOnTimeout = true, throwOnDisconnect = true; bool timers = false; int msgs = 1; int size = 5; };
static void threads(const Plan& p, const sched::Options& o) {
	net::reset(); net::opt.send_capacity = p.cap; std::vector<std::string> sent(p.writers * p.msgs); std::vector<int> okw(p.writers * p.msgs, 0);
	for (int i = 0; i < (int)sent.size(); i++) sent[i] = std::string(1, '<') + std::string(p.size, 'a' + i) + ">";
	std::vector<std::string> got(p.readers); std::string input = "0123456789"; int ended = 0;
	sched::run(o, [&] {
		int ci; int fd = net::make_pair_fd(&ci); TCP::Connection* c; { Lib l; c = new TCP::Connection(fd, info()); c->setTimeouts(2000); c->flags.closeOnTimeout = p.closeOnTimeout; c->flags.throwOnDisconnect = p.throwOnDisconnect; }
		std::vector<int> t;
		auto enter = [&] { return c; };
		for (int r = 0; r < p.readers; r++) t.push_back(sched::spawn("reader", [&, r] {
			Rt g; auto* k = enter();
			while (true) {
				std::string s; bool open = true, thrown = false; size_t n = 0;
				{ Lib l; try { auto v = k->read(4); n = v.size(); if (n) { Rt g2; got[r].append((const char*)v.data(), n); } else { open = k->isOpen(); } } catch (const std::exception& e) { thrown = true; } }
				if (thrown) break;
				if (!n) { if (!open) break; if (p.closeOnTimeout) { bool op; { Lib l; op = k->isOpen(); } if (op) mc::violate("timeout-open", "a read ended without data but left the connection open"); } if (sched::now_ms() > 20000) break; }
				if (n > 4) mc::violate("read-size", "read(4) returned " + std::to_string(n) + " bytes");
			}
		}));
		for (int w = 0; w < p.writers; w++) t.push_back(sched::spawn("writer", [&, w] {
			Rt g; auto* k = enter();
			for (int m = 0; m < p.msgs; m++) { int i = w * p.msgs + m; bool ok = false; { Lib l; try { k->write(vec(sent[i])); ok = true; } catch (const std::exception&) {} } okw[i] = ok; if (!ok) break; }
		}));
		for (int x = 0; x < p.closers; x++) t.push_back(sched::spawn("closer", [&] { Rt g; auto* k = enter(); bool open; int64_t a = sched::now_ns(); { Lib l; k->end(); open = k->isOpen(); } ended++; if (!p.timers && sched::now_ns() != a) mc::violate("slow-end", "end() returned only after a blocked read or write of another thread had timed out"); if (open) mc::violate("open-after-end", "the connection is open after end() returned"); }));
		t.push_back(sched::spawn("peer", [&, ci] {
			Rt g; if (p.peer != 2) { net::send(ci, input.substr(0, 6)); net::send(ci, input.substr(6)); }
			if (p.peer == 1) net::rst(ci); else if (p.peer == 3) { net::fin(ci); } 
			if (p.peer == 4) { sched::block("peer waits", 0, [ci] { return net::server_fully_closed(ci); }, sched::now_ns() + 60000000000ll); }
			else if (p.peer != 1) { while (true) { std::string s = net::recv(ci, 30000); if (s.empty()) break; } net::close(ci); }
		}));
		for (int x : t) sched::join(x);
		{ Lib l; delete c; }
		if (!net::server_fully_closed(ci)) mc::violate("descriptor-leak", "the connection was destroyed but its descriptor is open");
		// bytes on the wire: whole messages one after another, and a possibly incomplete last one
		std::string out; for (auto& s : net::writes(ci)) out += s; size_t at = 0; std::vector<int> seen(sent.size(), 0), next(p.writers, 0); bool broken = false;
		while (at < out.size()) {
			int hit = -1; for (int i = 0; i < (int)sent.size(); i++) if (!seen[i] && out.compare(at, 2, sent[i], 0, std::min<size_t>(2, out.size() - at)) == 0) { if (out.size() - at == 1 && i % p.msgs != next[i / p.msgs]) continue; hit = i; break; }
			if (hit < 0 || broken) mc::violate("interleaved", "bytes of concurrent writes are mixed on the wire: " + mc::show(out));
			if (hit % p.msgs != next[hit / p.msgs]) mc::violate("reordered", "messages of one writer are reordered on the wire: " + mc::show(out));
			next[hit / p.msgs]++; seen[hit] = 1; std::string piece = out.substr(at, sent[hit].size());
			if (piece != sent[hit].substr(0, piece.size())) mc::violate("interleaved", "bytes of concurrent writes are mixed on the wire: " + mc::show(out));
			if (piece.size() < sent[hit].size()) { broken = true; if (okw[hit]) mc::violate("lost-write", "a write returned although only a part was sent"); }
			at += piece.size();
		}
		for (size_t i = 0; i < sent.size(); i++) if (okw[i] && !seen[i]) mc::violate("lost-write", "a write returned but its data was not sent");
		if (p.readers == 1 && input.compare(0, got[0].size(), got[0]) != 0) mc::violate("wrong-data", "read " + mc::show(got[0]) + " from a peer that sent " + input);
		if (p.readers == 1 && p.closers == 0 && p.peer == 3 && got[0] != input) mc::violate("lost-data", "read only " + mc::show(got[0]));
		mc::outcome(mc::mix(mc::hash_str(out), mc::hash_str(got.empty() ? "" : got[0]))); if (ended || at) mc::nontrivial();
	});
	net::check_closed();
}
static void listener(int acceptors, int stoppers, int clients, bool timers, const sched::Options& o) {
	(void)timers; net::reset(); int taken = 0;
	sched::run(o, [&] {
		TCP::ListenSocket* s; { Lib l; TCP::ListenConfig c; c.port = 8180; s = new TCP::ListenSocket(c); }
		std::vector<int> t;
		for (int i = 0; i < acceptors; i++) t.push_back(sched::spawn("acceptor", [&] {
			Rt g; while (true) {
				int r = 0; { Lib l; try { if (!s->active()) r = 2; else { auto c = s->acceptConnection(); if (c.has_value()) { r = 1; c.value().write(vec("hi")); } else r = 2; } } catch (const std::exception&) { r = 3; } }
				if (r == 1) taken++; if (r != 1) { bool a; { Lib l; a = s->active(); } if (a) mc::violate("accept", "accepting ended although the listener is active"); break; }
			}
		}));
		for (int i = 0; i < clients; i++) t.push_back(sched::spawn("client", [&] { Rt g; int c = net::connect(8180); if (c < 0) return; std::string a; while (true) { std::string x = net::recv(c, 10000); if (x.empty()) break; a += x; } if (!a.empty() && a != "hi") mc::violate("wrong-data", a); if (a.empty() && net::was_accepted(c)) mc::violate("lost-write", "an accepted connection got nothing"); net::close(c); }));
		for (int i = 0; i < stoppers; i++) t.push_back(sched::spawn("stopper", [&] { Rt g; bool a; { Lib l; s->stop(); a = s->active(); } if (a) mc::violate("active-after-stop", "the listener is active after stop() returned"); }));
		for (int x : t) sched::join(x);
		{ Lib l; delete s; } mc::outcome(taken); mc::nontrivial();
	});
	net::check_closed();
}

int main(int argc, char** argv) {
	mc::Config cfg; cfg.property = "C35"; cfg.warmup = true; bool th = mc::thorough();
	cfg.rule = "all schedules with up to 4 (thorough 5; 3 and 4 with two writers) deviations (also early timer expiry in the timer scenarios) of readers, writers, closers and a peer (reading, resetting, silent, half-closing, never reading) on one connection, and of acceptors, stoppers and clients on one listener, every access checked for races; all sequences of 4 (thorough 5) move, end, read, write, timeout and destroy steps over three connections; transfers of up to 1 MiB in both directions over 5 read sizes and 5 send capacities; every listed timeout value on both directions";
	cfg.assumptions = {"timeouts are configured while nobody closes the connection", "a connection is moved or destroyed only while no call on it is running"};
	std::vector<mc::Scenario> sc; int B = th ? 5 : 4;
	auto add = [&](const std::string& n, Plan p, int b) { sc.push_back({n, b, [=] { sched::Options o; o.prune = true; o.early_timers = p.timers; threads(p, o); }}); };
	for (int peer = 0; peer < 5; peer++) for (int cl = 0; cl < 3; cl++) {
		Plan p; p.peer = peer; p.closers = cl; std::string n = ".peer" + std::to_string(peer) + ".close" + std::to_string(cl);
		if (!(peer == 4)) { p.writers = 0; add("read" + n, p, B); }
		p.writers = 1; p.readers = 0; add("write" + n, p, B); p.cap = 3; add("writepart" + n, p, B);
		p.cap = 1 << 20; p.readers = 1; add("both" + n, p, th ? 4 : 3);
		p.cap = 3; p.writers = 2; p.readers = 0; add("writers" + n, p, th ? 4 : 3);
		if (cl < 2) { p.msgs = 2; p.cap = 4; add("writers2" + n, p, th ? 4 : 3); }
	}
	for (int fl = 0; fl < 4; fl++) for (int peer : {0, 1, 2}) { Plan p; p.closeOnTimeout = fl & 1; p.throwOnDisconnect = fl & 2; p.peer = peer; p.timers = true; p.writers = 0; add("timers.flags" + std::to_string(fl) + ".peer" + std::to_string(peer), p, th ? 4 : 3); }
	{ Plan p; p.readers = 2; p.writers = 0; add("readers", p, B); p.closers = 2; add("readers2", p, th ? 4 : 3); }
	for (int a : {1, 2}) for (int s : {1, 2}) for (int c : {0, 1, 2}) { if (a + s + c > 4) continue; sc.push_back({"listener." + std::to_string(a) + std::to_string(s) + std::to_string(c), th ? 4 : 3, [=] { sched::Options o; o.prune = true; listener(a, s, c, false, o); }}); }

	// moves and closing, one thread
	int depth = th ? 5 : 4;
	sc.push_back({"moves", 0, [depth] {
		net::reset(); sched::Options o; o.preempt = false; o.onblock = sched::RoundRobin; std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(mc::choose(9) * 4 + mc::choose(2));
		sched::run(o, [&] {
			Conn c[2]; int id[2], nmade = 0; std::vector<int> dead; struct F { bool ct, td; int n; } fl[2];
			auto make = [&](int i) { int fd = net::make_pair_fd(&id[i]); net::send(id[i], "abcdefgh"); Lib l; c[i] = std::make_unique<TCP::Connection>(fd, info(nmade)); c[i]->setTimeouts(100); c[i]->flags.throwOnDisconnect = false; c[i]->flags.closeOnTimeout = i == 0; fl[i] = F{i == 0, false, nmade}; Rt g; nmade++; };
			make(0); make(1); size_t rd[2] = {0, 0}; bool open[2] = {true, true};
			auto fin = [&](int i) { if (id[i] >= 0 && open[i]) dead.push_back(id[i]); open[i] = false; };
			for (int x : ops) {
				int op = x / 4, a = x % 4, b = 1 - a;
				switch (op) {
					case 0: { fin(a); Lib l; c[a]->end(); break; }
					case 1: { std::string s; bool th = false; { Lib l; try { s = own(c[a]->read(3)); } catch (const std::exception&) { th = true; } }
						if (open[a]) { std::string e = std::string("abcdefgh").substr(std::min<size_t>(rd[a], 8), 3); if (th && !e.empty()) mc::violate("moved-read", "reading from a moved connection failed"); if (s != e) mc::violate("moved-read", "reading from a moved connection gave " + mc::show(s) + " instead of " + e); rd[a] += 3; if (e.empty() && fl[a].ct) fin(a); } else if (!th) mc::violate("closed-read", "reading from a closed connection did not fail"); break; }
					case 2: { bool th = false; { Lib l; try { c[a]->write(vec("xyz")); } catch (const std::exception&) { th = true; } } if (th == open[a]) mc::violate("write", open[a] ? "writing to an open connection failed" : "writing to a closed connection did not fail"); break; }
					case 3: { Lib l; auto n = std::make_unique<TCP::Connection>(std::move(*c[a])); if (c[a]->isOpen()) mc::violate("moved-from-open", "a moved-from connection is still open"); c[a] = std::move(n); break; }
					case 4: { fin(a); { Lib l; *c[a] = std::move(*c[b]); } id[a] = id[b]; open[a] = open[b]; rd[a] = rd[b]; fl[a] = fl[b]; open[b] = false; id[b] = -1; break; }
					case 5: { Lib l; auto& r = *c[a]; r = std::move(r); break; }
					case 6: { fin(a); Lib l; c[a].reset(); Rt g; make(a); rd[a] = 0; open[a] = true; break; }
					case 7: { if (!open[a]) break; { Lib l; c[a]->setTimeouts(1234 + a); } if (net::rcvtimeo_ms(id[a]) != 1234 + a) mc::violate("timeout", "timeout was not set"); break; }
					case 8: { if (open[a]) { net::fin(id[a]); } break; }
				}
				for (int k = 0; k < 2; k++) { bool op_; { Lib l; op_ = c[k]->isOpen(); }
					if (op_ && !open[k]) mc::violate("open-state", "a connection that was closed or moved from says it is open");
					if (!op_ && open[k]) { if (op == 8 || net::server_fully_closed(id[k])) { if (op == 1 && rd[k] >= 8) { open[k] = false; dead.push_back(id[k]); } else mc::violate("open-state", "a connection closed itself"); } else mc::violate("open-state", "an open connection says it is closed"); }
					if (open[k]) { bool a1, a2; { Lib l; a1 = c[k]->flags.closeOnTimeout; a2 = c[k]->flags.throwOnDisconnect; Rt g; auto e = info(fl[k].n); auto& f = c[k]->info(); if (f.remoteAddr.hostname != e.remoteAddr.hostname || f.remoteAddr.port != e.remoteAddr.port || f.hostPort != e.hostPort || f.remoteAddr.transport != e.remoteAddr.transport) mc::violate("info", "connection info was lost or mixed up"); } if (a1 != fl[k].ct || a2 != fl[k].td) mc::violate("flags", "connection flags were lost"); } }
				for (int d : dead) if (!net::server_fully_closed(d)) mc::violate("descriptor-leak", "the socket of a connection that was closed, replaced or destroyed is still open");
				mc::step(mc::path_hash() + op);
			}
			{ Lib l; c[0].reset(); c[1].reset(); } mc::outcome(open[0] * 2 + open[1]); mc::nontrivial();
		});
		net::check_closed();
	}});
	// large transfers in both directions, partial sends and short reads
	sc.push_back({"bulk", 0, [] {
		static const size_t N[] = {1, 2047, 2048, 2049, 4096, 65535, 65536, 65537, 300000, 1048577}, R[] = {0, 1000, 2048, 65536, 1 << 20}, CAP[] = {1, 100, 4096, 65536, 1 << 22};
		net::reset(); sched::Options o; o.preempt = false; o.onblock = sched::RoundRobin; o.max_points = 50000000; size_t n = N[mc::choose(10)], rs = R[mc::choose(5)], cap = CAP[mc::choose(5)]; int dup = mc::choose(2); if (cap == 1 && n > 5000) cap = 977; net::opt.send_capacity = cap;
		std::string in = seq::pattern(n, 1), out = seq::pattern(n + 3, 0), rd, wr; bool wrote = false;
		sched::run(o, [&] {
			int ci; int fd = net::make_pair_fd(&ci); TCP::Connection* c; { Lib l; c = new TCP::Connection(fd, info()); c->setTimeouts(5000); } std::vector<int> t;
			t.push_back(sched::spawn("peer-out", [&] { Rt g; for (size_t i = 0; i < n; i += 50000) { net::send(ci, in.substr(i, 50000)); sched::sleep_ms(1); } net::fin(ci); }));
			t.push_back(sched::spawn("peer-in", [&] { Rt g; while (true) { std::string s = net::recv(ci, 4000); if (s.empty()) break; wr += s; } }));
			auto writer = [&] { Rt g; Lib l; try { if (dup) { c->write(vec(out.substr(0, n / 2))); c->write({}); c->write(vec(out.substr(n / 2))); } else c->write(vec(out)); wrote = true; } catch (const std::exception&) {} };
			auto w = sched::spawn("writer", writer);
			t.push_back(sched::spawn("reader", [&] { Rt g; sched::join(w); while (true) { size_t k; bool open; { Lib l; try { auto v = rs ? c->read(rs) : c->read(); k = v.size(); Rt g2; rd.append((const char*)v.data(), k); } catch (const std::exception&) { k = 0; } open = c->isOpen(); } if (k > (rs ? rs : 2048)) mc::violate("read-size", "a read of " + std::to_string(rs ? rs : 2048) + " bytes returned " + std::to_string(k)); if (!k) { if (open) mc::violate("open-after-eof", "the connection is open after the end of the stream"); break; } } }));
			for (int x : t) sched::join(x);
			{ Lib l; delete c; }
			if (!wrote) mc::violate("lost-write", "a write of " + std::to_string(out.size()) + " bytes to a reading peer failed"); if (wr != out) mc::violate("wrong-data", "the peer received " + std::to_string(wr.size()) + " of " + std::to_string(out.size()) + " written bytes, or other ones");
			if (rd != in) mc::violate("wrong-data", "read " + std::to_string(rd.size()) + " of " + std::to_string(in.size()) + " bytes the peer sent, or other ones"); mc::outcome(mc::mix(n, rs)); mc::step(mc::path_hash()); mc::nontrivial();
		});
		net::check_closed();
	}});
	// timeouts
	static const uint32_t T[] = {1, 5, 20, 99, 100, 999, 1000, 1001, 1500, 2000, 15000, 15001, 59999, 60000, 3600000, 4294967, 86400123};
	sc.push_back({"timeouts", 0, [] {
		net::reset(); sched::Options o; o.preempt = false; o.onblock = sched::RoundRobin; o.max_virtual_ms = 1ll << 40; uint32_t t = T[mc::choose(17)], t2 = T[mc::choose(17)]; int how = mc::choose(4);
		sched::run(o, [&] {
			int ci; int fd; Conn c; uint32_t rx = t, tx = t2;
			if (how == 3) { // through the listener's configuration
				std::unique_ptr<TCP::ListenSocket> s; { Lib l; TCP::ListenConfig k; k.port = 8180; k.connectionTimeouts.receive = t; k.connectionTimeouts.send = t2; s = std::make_unique<TCP::ListenSocket>(k); }
				ci = net::connect(8180); { Lib l; auto x = s->acceptConnection(); if (!x.has_value()) { Rt g; mc::violate("accept", "no connection"); } c = std::make_unique<TCP::Connection>(std::move(x.value())); s->stop(); s.reset(); }
			} else {
				fd = net::make_pair_fd(&ci); Lib l; c = std::make_unique<TCP::Connection>(fd, info());
				if (how == 0) { c->setTimeouts(t); rx = tx = t; } else if (how == 1) { c->setTimeouts(t2); c->setTimeouts(t, SetTimeoutsDirection::Receive); rx = t; tx = t2; } else { c->setTimeouts(t); c->setTimeouts(t2, SetTimeoutsDirection::Send); }
			}
			net::opt.send_capacity = 2;
			{ uint32_t ir, is; { Lib l; ir = c->info().timeouts.receive; is = c->info().timeouts.send; } if (ir != rx || is != tx) mc::violate("timeout-info", "reported timeouts " + std::to_string(ir) + "/" + std::to_string(is) + " differ from the configured " + std::to_string(rx) + "/" + std::to_string(tx)); }
			{ Lib l; c->flags.closeOnTimeout = false; }
			int64_t a = sched::now_ns(); { Lib l; c->read(); } int64_t d = sched::now_ns() - a; if (d != rx * 1000000ll) mc::violate("receive-timeout", "a receive timeout of " + std::to_string(rx) + " ms took effect after " + std::to_string(d / 1000) + " us");
			a = sched::now_ns(); bool th = false; { Lib l; try { c->write(vec("abcdef")); } catch (const std::exception&) { th = true; } } d = sched::now_ns() - a; if (!th || d != tx * 1000000ll) mc::violate("send-timeout", "a send timeout of " + std::to_string(tx) + " ms took effect after " + std::to_string(d / 1000) + " us");
			{ Lib l; c.reset(); } mc::outcome(mc::mix(rx, tx)); mc::step(mc::path_hash()); mc::nontrivial();
		});
		net::check_closed();
	}});
	return mc::run(argc, argv, cfg, sc);
}
