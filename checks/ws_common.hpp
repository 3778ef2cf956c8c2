// helpers of the WebSocket checks
#pragma once
#include "http_common.hpp"
#include <core/websocket/websocket.hpp>

namespace wsx {
using namespace hc;
static const char* KEY = "dGhlIHNhbXBsZSBub25jZQ==";
static const char* GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
inline std::string upgrade(const std::string& key = KEY) { return "GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n"; }
inline std::string accept_of(const std::string& key) { return seq::ref_b64(seq::ref_sha1(key + GUID)); }

enum Op { CONT = 0, TEXT = 1, BIN = 2, CLOSE = 8, PING = 9, PONG = 10 };
typedef std::array<uint8_t, 4> Mask;
// first: whole first byte; lenenc 0 minimal, 2 16-bit, 8 64-bit
inline std::string frame(int first, const std::string& payload, const Mask* mask, int lenenc = 0, uint64_t claim = 0xD00DFEEDD00DFEEDull) {
	std::string f; f.push_back((char)first); uint64_t n = claim == 0xD00DFEEDD00DFEEDull ? payload.size() : claim;
	if (!lenenc) lenenc = n < 126 ? 1 : n <= 65535 ? 2 : 8;
	int m = mask ? 0x80 : 0;
	if (lenenc == 1) f.push_back((char)(m | n)); else if (lenenc == 2) { f.push_back((char)(m | 126)); f.push_back((char)(n >> 8)); f.push_back((char)n); } else { f.push_back((char)(m | 127)); for (int i = 7; i >= 0; i--) f.push_back((char)(n >> (8 * i))); }
	if (mask) for (auto b : *mask) f.push_back((char)b);
	for (size_t i = 0; i < payload.size(); i++) f.push_back((char)(payload[i] ^ (mask ? (*mask)[i % 4] : 0)));
	return f;
}
struct Frame { bool fin; int op; std::string data; };
// strict reader of what the server sends; returns frames, leaves an incomplete tail
struct Reader {
	std::string buf; std::vector<Frame> frames; bool closed = false; bool infrag = false;
	void feed(const std::string& s) {
		buf += s;
		while (buf.size() >= 2) {
			unsigned a = (uint8_t)buf[0], b = (uint8_t)buf[1]; size_t h = 2; uint64_t n = b & 127;
			if (closed) bad("bytes follow the close frame: " + mc::show(buf, 60));
			if (a & 0x70) bad("reserved bits set"); if (b & 0x80) bad("a server frame is masked");
			if (n == 126) { if (buf.size() < 4) return; n = (uint8_t)buf[2] << 8 | (uint8_t)buf[3]; h = 4; if (n < 126) bad("length is not minimally encoded"); }
			else if (n == 127) { if (buf.size() < 10) return; n = 0; for (int i = 2; i < 10; i++) n = n << 8 | (uint8_t)buf[i]; h = 10; if (n < 65536) bad("length is not minimally encoded"); if (n >> 40) bad("absurd length"); }
			Frame f; f.fin = a & 0x80; f.op = a & 15;
			if (f.op >= 8) { if (!f.fin) bad("fragmented control frame"); if (n > 125) bad("control frame longer than 125 bytes"); if (f.op > 10) bad("unknown opcode"); }
			else { if (f.op > 2) bad("unknown opcode"); if (f.op == 0 && !infrag) bad("continuation without a start"); if (f.op != 0 && infrag) bad("a new message starts inside a fragmented one"); }
			if (buf.size() < h + n) return;
			f.data = buf.substr(h, n); buf.erase(0, h + n);
			if (f.op < 8) infrag = !f.fin;
			if (f.op == CLOSE) { if (n == 1) bad("close frame with one byte"); closed = true; }
			frames.push_back(f);
		}
		if (closed && !buf.empty()) bad("bytes follow the close frame");
	}
	[[noreturn]] void bad(const std::string& m) { mc::violate("bad-frame-stream", "the server's frame stream is invalid: " + m); }
};
struct Conn : Client {
	Reader rd; bool autopong = false; size_t ponged = 0;
	// sends the upgrade and expects success
	void open(const std::string& extra = "") {
		send(upgrade()); Resp r; if (!next(r)) mc::violate("handshake", "no answer to a valid upgrade");
		if (r.status != 101) mc::violate("handshake", "a valid upgrade was answered with " + std::to_string(r.status) + " " + mc::show(r.body));
		if (r.get("sec-websocket-accept") != accept_of(KEY)) mc::violate("handshake", "wrong accept value " + r.get("sec-websocket-accept"));
		if (seq::lower(r.get("upgrade")) != "websocket") mc::violate("handshake", "upgrade header is " + r.get("upgrade"));
		if (seq::lower(r.get("connection")).find("upgrade") == std::string::npos) mc::violate("handshake", "connection header is " + r.get("connection"));
		rd.feed(rest()); pos = acc.size(); (void)extra;
	}
	// reads what has arrived or arrives within the time; false at end of stream
	bool pump(int64_t ms) { Rt g; bool t; std::string s = net::recv(c, ms, &t); acc += s; pos = acc.size(); rd.feed(s); if (autopong) for (; ponged < rd.frames.size(); ponged++) if (rd.frames[ponged].op == PING) { Mask m{1, 2, 3, 4}; net::send(c, frame(0x80 | PONG, rd.frames[ponged].data, &m)); } return !s.empty() || t; }
	bool until(const std::function<bool()>& p, int64_t ms) { int64_t end = sched::now_ms() + ms; while (!p()) { int64_t left = end - sched::now_ms(); if (left <= 0) return false; if (!pump(left)) return p(); } return true; }
	// everything until the end of the stream
	bool finish(int64_t ms) { int64_t end = sched::now_ms() + ms; while (true) { int64_t left = end - sched::now_ms(); if (left <= 0) return false; if (!pump(left)) { if (!rd.buf.empty()) rd.bad("the stream ends inside a frame: " + mc::show(rd.buf, 40)); return true; } } }
};
inline Mask MASKS_1() { return {0x12, 0x34, 0x56, 0x78}; }
struct Got { std::string data; bool binary, partial; bool operator==(const Got& o) const { return data == o.data && binary == o.binary && partial == o.partial; } };
inline std::string show(const Got& g) { return std::string(g.binary ? "binary" : "text") + (g.partial ? " partial " : " ") + std::to_string(g.data.size()) + " bytes " + mc::show(g.data, 40); }
}
