// C20, C21, C22: websocket transport (GWebsocketConsumerT on Boost.Beast).
#include "remote.hpp"
#include <boost/program_options.hpp>
#include "courtier/GWebsocketConsumerT.hpp"
using namespace rmt;

namespace {
// a minimal websocket client of our own
struct Raw {
	int fd = -1; std::string in; std::function<bool()> quit; i64 limit;
	Raw(std::function<bool()> q, i64 l = 5 * SEC) : quit(std::move(q)), limit(l) { fd = sim::net::raw_connect(PORT, 5 * SEC); }
	Raw(std::function<bool()> q, int f, i64 l) : fd(f), quit(std::move(q)), limit(l) {} // the server's side of a connection
	~Raw() { if (fd >= 0) { sim::op("rogue closes"); ::close(fd); } }
	bool put(const std::string &s) { size_t o = 0; i64 t0 = sim::now(); while (o < s.size()) { pollfd p{fd, POLLOUT, 0}; if (::poll(&p, 1, 200) == 1) { ssize_t k = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (k <= 0) return false; o += k; } else if ((quit && quit()) || sim::now() - t0 > limit) return false; } return true; }
	bool more() { char b[4096]; i64 t0 = sim::now(); for (;;) { pollfd p{fd, POLLIN, 0}; if (::poll(&p, 1, 200) == 1) { ssize_t k = ::recv(fd, b, sizeof b, 0); if (k <= 0) return false; in.append(b, k); return true; } if ((quit && quit()) || sim::now() - t0 > limit) return false; } }
	void slurp() { while (more()) in.clear(); }
	static std::string request() { return "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"; }
	bool handshake() { if (fd < 0 || !put(request())) return false; size_t e; while ((e = in.find("\r\n\r\n")) == std::string::npos) if (!more()) return false; bool ok = in.compare(0, 12, "HTTP/1.1 101") == 0; in.erase(0, e + 4); return ok; }
	// the server's side of the opening handshake
	bool accept_ws() {
		size_t e; while ((e = in.find("\r\n\r\n")) == std::string::npos) if (!more()) return false;
		size_t k = in.find("Sec-WebSocket-Key: "); if (k == std::string::npos) sim::violate("unreadable-request", "the client's opening handshake has no key"); k += 19;
		std::string key = in.substr(k, in.find("\r\n", k) - k); in.erase(0, e + 4);
		boost::beast::websocket::detail::sec_ws_accept_type acc; boost::beast::websocket::detail::make_sec_ws_accept(acc, key);
		return put("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + std::string(acc.data(), acc.size()) + "\r\n\r\n");
	}
	// the next message of a client, unmasked; answers neither pings nor close frames. Returns the opcode or -1
	int from_client(std::string &payload) {
		for (;;) {
			if (in.size() >= 2) {
				size_t n = in[1] & 127, h = 2; const size_t wait = (size_t)1 << 30;
				if (n == 126) { h = 4; n = in.size() >= 4 ? (unsigned char)in[2] * 256 + (unsigned char)in[3] : wait; } else if (n == 127) { h = 10; n = 0; if (in.size() >= 10) for (int i = 2; i < 10; ++i) n = n * 256 + (unsigned char)in[i]; else n = wait; }
				if (!(in[1] & 128)) sim::violate("unreadable-request", "the client sent a frame that is not masked");
				h += 4; if (in.size() >= h + n) { int op = in[0] & 15; bool fin = in[0] & 128; std::string d = in.substr(h, n); for (size_t i = 0; i < n; ++i) d[i] = d[i] ^ in[h - 4 + (i & 3)]; in.erase(0, h + n); if (op >= 8) { if (op == 8) return 8; continue; } part += d; if (!fin) continue; payload.swap(part); part.clear(); return 1; }
			}
			if (!more()) return -1;
		}
	}
	std::string part;
	static std::string frame(const std::string &d, int opcode, bool fin = true, bool mask = true, int rsv = 0) {
		std::string s; s += char((fin ? 0x80 : 0) | (rsv << 4) | opcode); size_t n = d.size(); int m = mask ? 0x80 : 0;
		if (n < 126) s += char(m | n); else if (n < 65536) { s += char(m | 126); s += char(n >> 8); s += char(n); } else { s += char(m | 127); for (int i = 7; i >= 0; --i) s += char(n >> (8 * i)); }
		if (mask) { s += "key!"; for (size_t i = 0; i < n; ++i) s += char(d[i] ^ "key!"[i & 3]); } else s += d;
		return s;
	}
	std::string msg(const std::string &d, Mode m) { return frame(d, m == Mode::BINARY ? 2 : 1); }
	// the next frame from the server: opcode, or -1
	int next(std::string &payload) { for (;;) { if (in.size() >= 2) { size_t n = in[1] & 127, h = 2; if (n == 126) { h = 4; n = in.size() >= 4 ? (unsigned char)in[2] * 256 + (unsigned char)in[3] : 1 << 30; } else if (n == 127) { h = 10; n = 0; if (in.size() >= 10) for (int i = 2; i < 10; ++i) n = n * 256 + (unsigned char)in[i]; else n = 1 << 30; } if (in.size() >= h + n) { int op = in[0] & 15; payload = in.substr(h, n); in.erase(0, h + n); return op; } } if (!more()) return -1; } }
};
struct Ws {
	static constexpr bool reconnects = false; static constexpr const char *name = "websocket"; static constexpr int n_rogues = 20;
	static std::shared_ptr<Consumer> consumer(Mode m, int threads, int, int ping = 0) {
		namespace po = boost::program_options; auto c = std::make_shared<GWebsocketConsumerT<Item>>();
		if (!ping) ping = sim::draw("ping_s", 1, 20);
		po::options_description vis, hid; c->addCLOptions(vis, hid); vis.add(hid);
		po::variables_map vm; std::vector<std::string> args{"--beast_ip=localhost", "--beast_port=" + std::to_string(PORT), "--beast_serializationMode=" + std::to_string((int)m), "--beast_nListenerThreads=" + std::to_string(threads), "--beast_pingInterval=" + std::to_string(ping)};
		po::store(po::command_line_parser(args).options(vis).run(), vm); po::notify(vm); c->actOnCLOptions(vm); return c;
	}
	static std::string junk(int n) { std::string s; for (int i = 0; i < n; ++i) s += char(sim::draw("junk", 0, 255)); return s; }
	static int stalled(Mode m) {
		Raw r({}); int what = sim::draw("stall_with_data", 0, 3);
		if (r.fd >= 0 && what == 1) r.put(Raw::request().substr(0, sim::draw("stall_bytes", 0, 150)));
		if (r.fd >= 0 && what >= 2 && r.handshake() && what == 3) { auto s = r.msg(message(Cmd::GETDATA, {}, m), m); r.put(s.substr(0, sim::draw("stall_bytes", 0, s.size()))); }
		int fd = r.fd; r.fd = -1; return fd;
	}
	static int rogue(int kind, Mode m, std::function<bool()> quit) {
		auto get = message(Cmd::GETDATA, {}, m); auto stranger = [&] { auto p = rmt::make(7777, OK, 0); p->setBufferId(424242); p->process(); return p; };
		if (kind == 12) { std::vector<int> f; int n = sim::draw("storm", 2, 20); for (int i = 0; i < n; ++i) { int x = sim::net::raw_connect(PORT, 2 * SEC); if (x >= 0) f.push_back(x); } if (sim::draw("storm_holds", 0, 1)) until(quit, sim::draw("storm_s", 0, 20) * SEC); for (int x : f) ::close(x); return 0; }
		Raw r(quit); if (r.fd < 0) return 0;
		std::string p; auto stall = [&] { until(quit, sim::draw("stall_s", 1, 60) * SEC); };
		if (kind < 4) switch (kind) {
		case 0: return 0;
		case 1: r.put(junk(sim::draw("junk_len", 1, 200)) + "\r\n\r\n"); r.slurp(); return 0;
		case 2: ::shutdown(r.fd, SHUT_WR); r.slurp(); return 0;
		case 3: r.put(Raw::request().substr(0, sim::draw("stall_bytes", 0, 150))); stall(); return 0;
		}
		if (!r.handshake()) return 0;
		switch (kind) {
		case 4: return 0;                                                    // leaves after the handshake
		case 5: stall(); return 0;                                           // silent: pings are never answered
		case 6: r.put(r.msg(get, m)); if (sim::draw("linger", 0, 1)) sim::sleep_ns(sim::draw("linger_ms", 0, 80) * MS); return 1; // leaves without reading
		case 7: { r.put(r.msg(get, m)); char b[16]; pollfd q{r.fd, POLLIN, 0}; if (::poll(&q, 1, 2000) == 1) ::recv(r.fd, b, sizeof b, 0); stall(); return 1; } // reads a little, then stalls
		case 8: r.put(r.msg(message(Cmd::RESULT, stranger(), m), m)); r.next(p); return 1;
		case 9: r.put(r.msg(message(Cmd::RESULT, {}, m), m)); r.next(p); return 1;
		case 10: { Cmd c[] = {Cmd::NONE, Cmd::NODATA, Cmd::COMPUTE}; r.put(r.msg(message(c[sim::draw("command", 0, 2)], {}, m), m)); r.next(p); if (sim::draw("again", 0, 1)) { r.put(r.msg(get, m)); r.next(p); } return 1; }
		case 11: r.put(r.msg(m == Mode::BINARY ? junk(sim::draw("junk_len", 0, 200)) : std::string(sim::draw("junk_len", 0, 200), '#'), m)); r.next(p); if (sim::draw("again", 0, 1)) { r.put(r.msg(get, m)); r.next(p); } return 1; // a message that is none
		case 13: { int w = sim::draw("malformed", 0, 4); r.put(w == 0 ? Raw::frame(get, 1, true, false) : w == 1 ? Raw::frame(get, 2, true, true, 4) : w == 2 ? Raw::frame(get, 5) : w == 3 ? Raw::frame("x", 0) : std::string("\x82\xff\x7f\xff\xff\xff\xff\xff\xff\xff" "key!", 14)); r.slurp(); return 0; }
		case 14: { auto s = r.msg(get, m); r.put(s.substr(0, sim::draw("cut", 0, s.size() - 1))); if (sim::draw("half", 0, 1)) { ::shutdown(r.fd, SHUT_WR); r.slurp(); } return 1; }
		case 15: r.put(Raw::frame(std::string("\x03\xe8", 2), 8)); if (sim::draw("stays", 0, 1)) stall(); return 0; // closes, may stay connected
		case 16: { int n = sim::draw("pings", 1, 20); for (int i = 0; i < n; ++i) r.put(Raw::frame("ping", sim::draw("pong", 0, 1) ? 9 : 10)); if (sim::draw("reads", 0, 1)) for (int i = 0; i < n; ++i) r.next(p); else stall(); return 0; }
		case 17: { int n = sim::draw("pipelined", 2, 4); std::string s; for (int i = 0; i < n; ++i) s += r.msg(get, m); r.put(s); if (sim::draw("reads", 0, 1)) for (int i = 0; i < n; ++i) r.next(p); else if (sim::draw("stays", 0, 1)) stall(); return n; }
		case 18: { auto s = get; size_t k = s.size() / 2; r.put(Raw::frame(s.substr(0, k), m == Mode::BINARY ? 2 : 1, false)); if (sim::draw("pause", 0, 1)) sim::sleep_ns(sim::draw("pause_ms", 0, 3000) * MS); if (sim::draw("complete", 0, 1)) { r.put(Raw::frame(s.substr(k), 0)); r.next(p); return 1; } stall(); return 1; } // fragments
		case 19: { r.put(r.msg(get, m)); if (r.next(p) < 0) return 1; ::shutdown(r.fd, SHUT_WR); if (sim::draw("reads", 0, 1)) r.slurp(); else stall(); return 1; } // half-close with an item
		}
		return 0;
	}
	static void serve(int fd, Hostile &H) {
		auto quit = [&] { return H.quit.get(); }; Raw r(quit, fd, 8 * SEC); Mode m = H.m; std::string p; H.expect.clear();
		struct Keep { Raw &r; ~Keep() { r.fd = -1; } } keep{r}; // the caller closes
		int hs = sim::draw("handshake", 0, 9);
		if (hs >= 6) { // no proper handshake
			sim::op("handshake %d", hs); H.done += hs == 6 ? 0 : 1; if (hs == 6) { sim::sleep_ns(sim::draw("server_ms", 0, 3000) * MS); }
			else { if (hs != 7) r.more(); if (hs == 7) return; if (hs == 8) r.put(sim::draw("http", 0, 1) ? "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n" : "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: nonsense\r\n\r\n"); else r.put(junk(sim::draw("junk_len", 1, 200)) + "\r\n\r\n"); r.slurp(); return; }
		}
		if (!r.accept_ws()) { ++H.done; return; }
		auto frame = [&](const std::string &d) { return Raw::frame(d, m == Mode::BINARY ? 2 : 1, true, false); };
		while (H.done < H.n && !quit()) {
			int k = sim::draw("answer", 0, 21); ++H.done; sim::op("answer %d", k);
			if (k == 12) { H.expect.clear(); r.put(frame(message(Cmd::COMPUTE, H.item(), m))); return; } // answers before it was asked, and leaves
			if (H.expect.size() < 2) { if (r.from_client(p) != 1) return; H.request(p); } else while (!H.expect.empty()) { if (r.from_client(p) != 1) return; H.request(p); }
			auto compute = [&] { auto q = H.item(); H.expect.push_back(q->id); return frame(message(Cmd::COMPUTE, q, m)); };
			if (k == 11) { sim::sleep_ns(sim::draw("server_ms", 0, 3000) * MS); k = 1; }
			switch (k) {
			case 0: case 20: case 21: r.put(compute()); break;
			case 1: r.put(frame(message(Cmd::NODATA, {}, m))); break;
			case 2: r.put(frame(message(Cmd::COMPUTE, {}, m))); r.slurp(); return;
			case 3: r.put(frame(message(Cmd::GETDATA, {}, m))); r.slurp(); return;
			case 4: r.put(frame(message(Cmd::RESULT, sim::draw("with_item", 0, 1) ? H.item() : Ptr(), m))); r.slurp(); return;
			case 5: r.put(frame(message(Cmd::NONE, {}, m))); r.slurp(); return;
			case 6: r.put(frame(m == Mode::BINARY ? junk(sim::draw("junk_len", 0, 200)) : std::string(sim::draw("junk_len", 0, 200), '#'))); r.slurp(); return;
			case 7: { auto s = frame(message(Cmd::COMPUTE, H.item(), m)); r.put(s.substr(0, sim::draw("cut", 0, s.size() - 1))); if (sim::draw("stays", 0, 1)) until(quit, sim::draw("stall_s", 1, 40) * SEC); return; }
			case 8: return;                                                   // leaves
			case 9: sim::net::reset_all(PORT); return;
			case 10: { auto s = message(Cmd::COMPUTE, H.item(), m); r.put(frame(s.substr(0, sim::draw("cut", 0, s.size() - 1)))); r.slurp(); return; } // a message cut short in a complete frame
			case 13: { int w = sim::draw("malformed", 0, 4); auto s = message(Cmd::COMPUTE, H.item(), m); r.put(w == 0 ? Raw::frame(s, 1, true, true) : w == 1 ? Raw::frame(s, 2, true, false, 4) : w == 2 ? Raw::frame(s, 5, true, false) : w == 3 ? Raw::frame("x", 0, true, false) : std::string("\x82\x7f\x7f\xff\xff\xff\xff\xff\xff\xff", 10)); r.slurp(); return; }
			case 14: r.put(Raw::frame(std::string("\x03\xe8", 2), 8, true, false)); if (sim::draw("reads", 0, 1)) r.slurp(); return; // closes in order
			case 15: r.put(Raw::frame("ping", sim::draw("pong", 0, 1) ? 9 : 10, true, false) + compute()); break;
			case 16: { auto q = H.item(); H.expect.push_back(q->id); auto s = message(Cmd::COMPUTE, q, m); size_t c = sim::draw("cut", 1, s.size() - 1); r.put(Raw::frame(s.substr(0, c), m == Mode::BINARY ? 2 : 1, false, false)); sim::sleep_ns(sim::draw("pause_ms", 0, 3000) * MS); r.put(Raw::frame(s.substr(c), 0, true, false)); break; } // in two fragments
			case 17: { auto s = compute(); r.put(s + compute()); break; }  // two at once
			case 18: { r.put(compute()); r.put(Raw::frame("ping", 9, true, false)); break; }
			case 19: { auto s = compute(); r.put(s); ::shutdown(fd, SHUT_WR); if (sim::draw("reads", 0, 1)) r.slurp(); return; } // half-close
			}
		}
		r.from_client(p);
	}
};
} // namespace
SIM_SCENARIO(C20, clean, 3) { transport<Ws>(false); }
SIM_SCENARIO(C20, faults, 4) { transport<Ws>(true); }
SIM_SCENARIO(C21, rogues, 4) { rogues<Ws>(false); }
SIM_SCENARIO(C21, rogues_and_network, 3) { rogues<Ws>(true); }
SIM_SCENARIO(C11, websocket_departures, 1) { departures<Ws>(); }
SIM_SCENARIO(C16, websocket, 1) { shutdown_remote<Ws>(); }
SIM_SCENARIO(C22, hostile_server, 2) { hostile<Ws>(); }
SIM_SCENARIO(C22, no_server, 1) { no_server<Ws>(); }
SIM_SCENARIO(C22, lifecycle, 4) { lifecycle<Ws>(); }
SIM_SCENARIO(C22, limits, 2) { limits<Ws>(false); }
// Known finding: see C19
SIM_SCENARIO(C22, limit_last_result, 0) { limits<Ws>(true); }
