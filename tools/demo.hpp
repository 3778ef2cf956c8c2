// helpers for the demonstrations of planted bugs: a server on a free loopback port and a raw client
#pragma once
#include <lambda.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#define EXPECT(c, ...) do { if (!(c)) { printf("FAILED %s:%d %s: ", __FILE__, __LINE__, #c); printf("" __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)

inline int freePort() {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0;
	bind(s, (sockaddr*)&a, sizeof a);
	socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l);
	close(s);
	return ntohs(a.sin_port);
}

struct Client {
	int fd = -1; std::string in; bool eof = false;
	explicit Client(int port) {
		for (int i = 0; i < 100; i++) {
			fd = socket(AF_INET, SOCK_STREAM, 0);
			sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
			if (!connect(fd, (sockaddr*)&a, sizeof a)) break;
			close(fd); fd = -1; usleep(20000);
		}
		if (fd >= 0) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
	}
	~Client() { if (fd >= 0) close(fd); }
	void put(const std::string& s) { size_t o = 0; while (o < s.size()) { auto n = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (n <= 0) return; o += n; } }
	// wait up to ms for more bytes; false when nothing came or the peer is gone
	bool more(int ms) {
		if (eof) return false;
		pollfd p { fd, POLLIN, 0 };
		if (poll(&p, 1, ms) <= 0) return false;
		char b[65536]; auto n = recv(fd, b, sizeof b, 0);
		if (n <= 0) { eof = true; return false; }
		in.append(b, n); return true;
	}
	bool until(size_t size, int ms = 3000) { while (in.size() < size) if (!more(ms)) return false; return true; }
	std::string take(size_t n) { auto r = in.substr(0, n); in.erase(0, n); return r; }
	std::string all(int ms = 3000) { while (more(ms)); return std::move(in); }
	bool closed(int ms = 3000) { while (!eof) { if (!more(ms)) break; } return eof; }
	struct Reply { int status = 0; std::string head, body; bool ok = false;
		std::string header(std::string k) const {
			for (auto& c : k) c = tolower(c);
			size_t p = head.find("\r\n");
			while (p != std::string::npos && p + 2 < head.size()) {
				size_t e = head.find("\r\n", p + 2); auto l = head.substr(p + 2, e - p - 2);
				auto c = l.find(':'); if (c != std::string::npos) { auto n = l.substr(0, c); for (auto& x : n) x = tolower(x); if (n == k) { auto v = l.substr(c + 1); return v.size() && v[0] == ' ' ? v.substr(1) : v; } }
				p = e;
			}
			return "";
		}
	};
	Reply reply(bool head = false, int ms = 3000) {
		Reply r; size_t e;
		while ((e = in.find("\r\n\r\n")) == std::string::npos) if (!more(ms)) return r;
		r.head = take(e + 4); r.status = atoi(r.head.c_str() + 9);
		auto cl = r.header("content-length"); size_t n = head || cl.empty() ? 0 : strtoull(cl.c_str(), nullptr, 10);
		if (!until(n, ms)) { r.body = std::move(in); return r; }
		r.body = take(n); r.ok = true; return r;
	}
	// websocket: server frames
	bool frame(int& op, std::string& pl, bool& fin, int ms = 3000) {
		if (!until(2, ms)) return false;
		fin = in[0] & 0x80; op = in[0] & 15; size_t l = (uint8_t)in[1] & 127, h = 2;
		if (l == 126) { if (!until(4, ms)) return false; l = (uint8_t)in[2] << 8 | (uint8_t)in[3]; h = 4; }
		else if (l == 127) { if (!until(10, ms)) return false; l = 0; for (int i = 2; i < 10; i++) l = l << 8 | (uint8_t)in[i]; h = 10; }
		if (!until(h + l, ms)) return false;
		take(h); pl = take(l); return true;
	}
};

inline std::string wsFrame(int op, const std::string& pl, bool fin = true, uint32_t mask = 0x12345678, bool masked = true) {
	std::string f; f += (char)((fin ? 0x80 : 0) | op); size_t n = pl.size(); int m = masked ? 0x80 : 0;
	if (n < 126) f += (char)(m | n); else if (n < 65536) { f += (char)(m | 126); f += (char)(n >> 8); f += (char)n; }
	else { f += (char)(m | 127); for (int i = 7; i >= 0; i--) f += (char)(n >> (8 * i)); }
	char k[4]; for (int i = 0; i < 4; i++) k[i] = mask >> (24 - 8 * i);
	if (masked) f.append(k, 4);
	for (size_t i = 0; i < n; i++) f += masked ? pl[i] ^ k[i & 3] : pl[i];
	return f;
}
inline std::string wsUpgrade(const std::string& path = "/") {
	return "GET " + path + " HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
}
inline void alive(int seconds) { alarm(seconds); signal(SIGPIPE, SIG_DFL); }
inline void sleepms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

inline Lambda::ServerConfig config(int port) {
	Lambda::ServerConfig c; c.service.port = port; c.service.fastPortReuse = true;
	c.loglevel.requests = false; c.loglevel.startMessage = false; c.errorResponseType = Lambda::ErrorResponseType::Plain;
	return c;
}
[[noreturn]] inline void done() { printf("ok\n"); fflush(stdout); _exit(0); }
