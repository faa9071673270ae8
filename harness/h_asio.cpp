// C17, C18, C19: plain TCP transport (GAsioConsumerT); socket parts of C11 and C16.
#include "remote.hpp"
#include "courtier/GAsioConsumerT.hpp"
using namespace rmt;

namespace {
struct Asio {
	static constexpr bool reconnects = true; static constexpr const char *name = "tcp"; static constexpr int n_rogues = 14;
	static std::shared_ptr<Consumer> consumer(Mode m, int threads, int reconnects) {
		auto c = std::make_shared<GAsioConsumerT<Item>>(); c->setServerName("localhost"); c->setPort(PORT); c->setSerializationMode(m); c->setNThreads(threads); c->setMaxReconnects(reconnects); return c;
	}
	static bool put(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (k <= 0) return false; o += k; } return true; }
	// waits for the answer, but not for ever: a peer may give up when told to
	static std::string slurp(int fd, const std::function<bool()> &quit, i64 limit, bool *eof = nullptr) {
		std::string r; char b[4096]; i64 t0 = sim::now();
		for (;;) { pollfd p{fd, POLLIN, 0}; if (::poll(&p, 1, 200) == 1) { ssize_t k = ::recv(fd, b, sizeof b, 0); if (k <= 0) { if (eof) *eof = k == 0; return r; } r.append(b, k); } if ((quit && quit()) || sim::now() - t0 > limit) return r; }
	}
	static std::string junk(int n) { std::string s; for (int i = 0; i < n; ++i) s += char(sim::draw("junk", 0, 255)); return s; }
	static int stalled(Mode m) { int fd = sim::net::raw_connect(PORT, 5 * SEC); if (fd < 0) return fd; if (sim::draw("stall_with_data", 0, 1)) { auto s = message(Cmd::GETDATA, {}, m); put(fd, s.substr(0, sim::draw("stall_bytes", 0, s.size()))); } return fd; }
	static int rogue(int kind, Mode m, std::function<bool()> quit) {
		int fd = kind == 12 ? -1 : sim::net::raw_connect(PORT, 5 * SEC); int taken = 0;
		if (kind != 12 && fd < 0) return 0;
		auto get = message(Cmd::GETDATA, {}, m);
		auto stranger = [&] { auto p = rmt::make(7777, OK, 0); p->setBufferId(424242); p->process(); return p; };
		switch (kind) {
		case 0: break;                                                                         // connect and leave
		case 1: put(fd, junk(sim::draw("junk_len", 1, 200))); ::shutdown(fd, SHUT_WR); slurp(fd, quit, 5 * SEC); break;
		case 2: ::shutdown(fd, SHUT_WR); slurp(fd, quit, 5 * SEC); break;
		case 3: put(fd, get.substr(0, sim::draw("stall_bytes", 0, get.size()))); until(quit, sim::draw("stall_s", 1, 40) * SEC); taken = 1; break; // stall with an incomplete request
		case 4: put(fd, get.substr(0, sim::draw("cut", 0, get.size() - 1))); ::shutdown(fd, SHUT_WR); taken = 1; slurp(fd, quit, 5 * SEC); break;
		case 5: put(fd, get); ::shutdown(fd, SHUT_WR); taken = 1; if (sim::draw("linger", 0, 1)) sim::sleep_ns(sim::draw("linger_ms", 0, 80) * MS); break; // leaves without reading
		case 6: { put(fd, get); ::shutdown(fd, SHUT_WR); taken = 1; char b[16]; ::recv(fd, b, sizeof b, 0); until(quit, sim::draw("slow_s", 0, 20) * SEC); break; } // reads a little, then stalls
		case 7: put(fd, message(Cmd::RESULT, stranger(), m)); ::shutdown(fd, SHUT_WR); taken = 1; slurp(fd, quit, 5 * SEC); break; // result for a submitter nobody knows
		case 8: put(fd, message(Cmd::RESULT, {}, m)); ::shutdown(fd, SHUT_WR); taken = 1; slurp(fd, quit, 5 * SEC); break;
		case 9: { Cmd c[] = {Cmd::NONE, Cmd::NODATA, Cmd::COMPUTE}; put(fd, message(c[sim::draw("command", 0, 2)], {}, m)); ::shutdown(fd, SHUT_WR); slurp(fd, quit, 5 * SEC); break; }
		case 10: { std::string s(20000 + sim::draw("flood", 0, 60000), 'x'); put(fd, s); ::shutdown(fd, SHUT_WR); slurp(fd, quit, 5 * SEC); break; }
		case 11: put(fd, get + junk(sim::draw("junk_len", 1, 50))); ::shutdown(fd, SHUT_WR); taken = 1; slurp(fd, quit, 5 * SEC); break;
		case 12: { std::vector<int> f; int n = sim::draw("storm", 2, 25); for (int i = 0; i < n; ++i) { int x = sim::net::raw_connect(PORT, 2 * SEC); if (x >= 0) f.push_back(x); } if (sim::draw("storm_holds", 0, 1)) until(quit, sim::draw("storm_s", 0, 20) * SEC); for (int x : f) ::close(x); break; }
		case 13: { int one = 0; (void)one; put(fd, get); taken = 1; ::shutdown(fd, SHUT_RDWR); break; }
		}
		if (fd >= 0) { sim::op("rogue closes"); ::close(fd); }
		return taken;
	}
	static void serve(int fd, Hostile &H) {
		auto quit = [&] { return H.quit.get(); }; int k = sim::draw("answer", 0, 15); Mode m = H.m; ++H.done; sim::op("answer %d", k);
		if (k == 11) { sim::sleep_ns(sim::draw("server_ms", 0, 3000) * MS); k = 1; }
		if (k != 12) { bool eof = false; std::string r = slurp(fd, quit, 8 * SEC, &eof); if (r.empty() || !eof) { H.expect.clear(); return; } H.request(r); } else H.expect.clear();
		auto put = [&](int f, const std::string &d) { size_t o = 0; i64 t0 = sim::now(); while (o < d.size()) { pollfd p{f, POLLOUT, 0}; if (::poll(&p, 1, 200) == 1) { ssize_t k = ::send(f, d.data() + o, d.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT); if (k <= 0) return; o += k; } else if (quit() || sim::now() - t0 > 8 * SEC) return; } };
		auto expect = [&](const Ptr &p) { H.expect.push_back(p->id); };
		switch (k) {
		case 0: case 14: case 15: { auto p = H.item(); expect(p); put(fd, message(Cmd::COMPUTE, p, m)); break; }
		case 1: put(fd, message(Cmd::NODATA, {}, m)); break;
		case 2: put(fd, message(Cmd::COMPUTE, {}, m)); break;
		case 3: put(fd, message(Cmd::GETDATA, {}, m)); break;
		case 4: put(fd, message(Cmd::RESULT, sim::draw("with_item", 0, 1) ? H.item() : Ptr(), m)); break;
		case 5: put(fd, message(Cmd::NONE, {}, m)); break;
		case 6: put(fd, junk(sim::draw("junk_len", 1, 200))); break;
		case 7: { auto s = message(Cmd::COMPUTE, H.item(), m); put(fd, s.substr(0, sim::draw("cut", 0, s.size() - 1))); break; }
		case 8: break;
		case 9: sim::net::reset_all(PORT); break;
		case 10: put(fd, message(Cmd::COMPUTE, H.item(), m) + junk(sim::draw("junk_len", 1, 50))); break;
		case 12: put(fd, message(Cmd::COMPUTE, H.item(), m)); break; // answers before it was asked, and closes
		case 13: put(fd, std::string(20000 + sim::draw("flood", 0, 60000), 'x')); break;
		}
		::shutdown(fd, SHUT_WR);
	}
};
} // namespace
SIM_SCENARIO(C17, clean, 3) { transport<Asio>(false); }
SIM_SCENARIO(C17, faults, 4) { transport<Asio>(true); }
SIM_SCENARIO(C18, rogues, 4) { rogues<Asio>(false); }
SIM_SCENARIO(C18, rogues_and_network, 3) { rogues<Asio>(true); }
SIM_SCENARIO(C11, tcp_departures, 1) { departures<Asio>(); }
SIM_SCENARIO(C16, tcp, 1) { shutdown_remote<Asio>(); }

// ------------------------------------------------------------------ C19
SIM_SCENARIO(C19, no_server, 1) { no_server<Asio>(); }
SIM_SCENARIO(C19, lifecycle, 4) { lifecycle<Asio>(); }
SIM_SCENARIO(C19, hostile_server, 2) { hostile<Asio>(); }
SIM_SCENARIO(C19, limits, 2) { limits<Asio>(false); }
// Known finding: the result of the item whose processing reaches the limit is never sent.
SIM_SCENARIO(C19, limit_last_result, 0) { limits<Asio>(true); }
