// Scenarios shared by the plain TCP (C17-C19) and the websocket transport (C20-C22).
// Everything runs in one simulated process: broker, server consumer, its io threads,
// real clients, scripted rogue peers and submitters; the network is sim/net.cpp.
#pragma once
#include "work.hpp"
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include "courtier/GBrokerT.hpp"
#include "courtier/GExecutorT.hpp"
#include "courtier/GCommandContainerT.hpp"

namespace rmt {
using namespace Gem::Courtier; using namespace w; using sim::i64;
using Port = GBufferPortT<Item>; using Ptr = std::shared_ptr<Item>; using Mode = Gem::Common::serializationMode;
using Cmd = networked_consumer_payload_command; using Client = GBaseClientT<Item>; using Consumer = GBaseConsumerT<Item>;
static const unsigned short PORT = 10000;
static const char *modes[] = {"text", "xml", "binary"};

inline Ptr make(int id, int kind, int ms, bool big = false) {
	auto p = std::make_shared<Item>(id, kind, ms, big ? sim::draw("payload_big", 100, 6000) : sim::draw("payload", 0, 40), 1 + sim::draw("n_results", 0, 2));
	p->add_processors(sim::draw("pre", 0, 4) == 4, sim::draw("post", 0, 4) == 4); p->set_processing_status(processingStatus::DO_PROCESS); return p;
}
inline std::string message(Cmd c, Ptr p, Mode m) { GCommandContainerT<Item, Cmd> cc(c, p); return container_to_string(cc, m); }

// one submitter with its queue pair
struct Submitter {
	std::shared_ptr<Port> port = std::make_shared<Port>(); int base; std::map<int, Ptr> sent; std::map<int, int> back; std::map<int, std::string> evid;
	explicit Submitter(int b) : base(b) { GBROKER(Item)->enrol_buffer_port(port); }
	void submit(Ptr p) {
		p->setBufferId(port->getUniqueTag()); p->setCollectionPosition(p->id % 100); p->setIterationCounter(p->id / 100); p->setResubmissionCounter(p->id % 3);
		sent[p->id] = p; port->push_raw(p);
	}
	bool fetch(double sec, const char *where) {
		Ptr p; if (!port->pop_processed(p, std::chrono::duration<double>(sec))) return false;
		{ sim::NoPreempt np;
		if (!p) sim::violate("empty-result", "an empty result was delivered");
		if (!sent.count(p->id)) sim::violate("result-to-wrong-submitter", "%s: submitter %d received the result of item %d", where, base, p->id);
		if (++back[p->id] > 1) sim::violate("result-credited-twice", "%s: item %d was returned %d times", where, p->id, back[p->id]);
		auto &o = *sent[p->id];
		if (p->kind != o.kind || p->nres != o.nres || p->work_ms != o.work_ms || p->data != o.data || p->blob != o.blob) sim::violate("item-altered", "%s: item %d came back with an altered content", where, p->id);
		if ((int)p->getCollectionPosition() != p->id % 100 || (int)p->getIterationCounter() != p->id / 100 || (int)p->getResubmissionCounter() != p->id % 3 || p->getBufferId() != o.getBufferId()) sim::violate("identification-lost", "%s: item %d came back with a different position, iteration, resubmission count or buffer id", where, p->id);
		Rec r = rec(p->id);
		if (r.running) sim::violate("result-before-end", "%s: item %d was returned while it is still being processed", where, p->id);
		}
		check_returned(*p, where);
		return true;
	}
	int missing() const { return (int)sent.size() - (int)back.size(); }
	std::string missing_ids() const { std::string s; for (auto &x : sent) if (!back.count(x.first)) s += " " + std::to_string(x.first); return s; }
};

// runs clients one after another, as an operator (or a batch system) would
struct ClientHost {
	struct St { h::Cell<bool> stop, dead; std::shared_ptr<Client> cur; int runs = 0, ended_normally = 0; std::string crash; };
	std::shared_ptr<St> s = std::make_shared<St>(); std::thread t;
	template <typename F> ClientHost(F make_client, bool respawn, i64 start_delay, std::function<void(Client &)> setup = {}) {
		auto st = s;
		t = std::thread([=] {
			sim::label("client"); if (start_delay) sim::sleep_ns(start_delay);
			do {
				auto c = make_client(); if (!c) break; if (setup) setup(*c);
				bool stop; { sim::NoPreempt np; st->cur = c; ++st->runs; stop = st->stop.v; }
				if (stop) break;
				sim::op("client runs");
				try { c->run(); sim::op("client ended"); } catch (std::exception &e) { sim::NoPreempt np; st->crash = e.what(); sim::note("client left by an exception"); } catch (...) { sim::NoPreempt np; st->crash = "unknown exception"; }
				std::shared_ptr<Client> last; { sim::NoPreempt np; ++st->ended_normally; last.swap(st->cur); if (!st->crash.empty()) { sim::violate("client-crash", "a client's run() was left by an exception: %.600s", st->crash.c_str()); } }
				c.reset(); last.reset();
				if (respawn && !st->stop.get()) sim::sleep_ns(sim::draw("respawn_ms", 10, 500) * MS);
			} while (respawn && !st->stop.get());
			st->dead.set(true); sim::op("client gone");
		});
	}
	ClientHost(ClientHost &&) = default;
	void stop() { std::shared_ptr<Client> c; { sim::NoPreempt np; s->stop.v = true; c = s->cur; } if (c) c->flagCloseRequested(); }
	bool dead() { return s->dead.get(); }
	int runs() { sim::NoPreempt np; return s->runs; }
	void join() { if (t.joinable()) t.join(); }
};
using Hosts = std::vector<std::unique_ptr<ClientHost>>;

template <typename F> void bounded(const char *what, i64 limit, F f) {
	sim::op("%s", what); i64 t0 = sim::now(), l0 = sim::lost_time() - sim::pending_stall(); f(); i64 el = sim::now() - t0 - (sim::lost_time() - l0);
	if (el > limit) sim::violate("too-slow", "%s took %.1f simulated seconds (limit %.1f)", what, el / 1e9, limit / 1e9);
	sim::op("idle");
}
inline bool until(const std::function<bool()> &p, i64 t) { return sim::wait_until(p, t, 20 * MS); }
// wait with a limit that does not count time taken away by the simulator
inline bool within(const std::function<bool()> &p, i64 limit) {
	i64 t0 = sim::now(), l0 = sim::lost_time() - sim::pending_stall();
	for (;;) { if (until(p, 500 * MS)) return true; if (sim::now() - t0 - (sim::lost_time() - l0) > limit) return p(); }
}
// An item must come back in time. The first ones may still be handed to requests of peers that have
// already gone away (the server only notices when it answers them), so new items follow.
inline void must_serve(const char *cls, const char *where, i64 limit) {
	Submitter L(90); i64 t0 = sim::now(), l0 = sim::lost_time() - sim::pending_stall(), next = 0; int n = 0;
	for (;;) {
		i64 el = sim::now() - t0 - (sim::lost_time() - l0);
		if (el >= next && n < 90) { L.submit(make(9000 + n++, OK, 5)); next = el + 2 * SEC; }
		if (L.fetch(0.25, where)) return;
		if (el > limit) sim::violate(cls, "none of %d items submitted %s within %.0f s was returned", n, where, limit / 1e9);
	}
}
inline void well_behaved_network(bool big = false) { sim::cfg.max_steps = 4000000; sim::cfg.p_stall = std::min(sim::cfg.p_stall, 0.001); sim::net::cfg.p_short = sim::swarm("short_io") ? (big ? 0.1 : 0.3) : 0; if (sim::swarm("slow_net")) { sim::net::cfg.p_slow = 0.05; sim::net::cfg.slow_max = sim::draw("slow_max_ms", 50, big ? 200 : 1500) * MS; } if (sim::swarm("small_windows")) sim::net::cfg.rcvbuf = sim::draw("rcvbuf", big ? 4096 : 256, 8192); }
inline void faulty_network(bool big = false) {
	well_behaved_network(big); double f = 0.002 * (1 << sim::draw("fault_level", 0, 5));
	if (sim::swarm("resets")) sim::net::cfg.p_reset = f; if (sim::swarm("truncations")) sim::net::cfg.p_fin = f; if (sim::swarm("refusals")) sim::net::cfg.p_refuse = f * 2;
	if (sim::swarm("accept_failures")) sim::net::cfg.p_accept = f * 2; if (sim::swarm("dns_failures")) sim::net::cfg.p_dns = f; if (sim::swarm("slow_connects")) sim::net::cfg.p_connect_slow = f;
}
inline Mode draw_mode() { int m = sim::draw("format", 0, 2); return m == 0 ? Mode::TEXT : m == 1 ? Mode::XML : Mode::BINARY; }

// collects results until everything is back or nothing arrived for idle seconds
inline void collect(std::vector<std::unique_ptr<Submitter>> &S, i64 idle, const char *where) {
	i64 last, l0; auto mark = [&] { last = sim::now(); l0 = sim::lost_time() - sim::pending_stall(); }; mark();
	for (;;) {
		bool open = false, got = false;
		for (auto &s : S) { while (s->missing() && s->fetch(0.0, where)) got = true; if (s->missing()) open = true; }
		if (!open) return;
		if (got) mark();
		if (sim::now() - last - (sim::lost_time() - l0) > idle) return;
		for (auto &s : S) if (s->missing()) { if (s->fetch(0.25, where)) mark(); break; }
	}
}
inline int missing(std::vector<std::unique_ptr<Submitter>> &S) { int n = 0; for (auto &s : S) n += s->missing(); return n; }

// ---- C17 / C20 ------------------------------------------------------------------
// T: struct with  static std::shared_ptr<Consumer> consumer(Mode, int threads, int max_reconnects)
template <typename T> void transport(bool faulty) {
	Mode m = draw_mode(); int nc = sim::draw("clients", 1, 4), ns = sim::draw("submitters", 1, 3), per = sim::draw("items", 1, 7);
	auto br = GBROKER(Item); auto con = T::consumer(m, sim::draw("server_threads", 1, 4), 20);
	bool errs = sim::swarm("failing_items"), big = sim::draw("big", 0, 3) == 3; sim::cfg.max_steps = 3000000;
	if (faulty) faulty_network(big); else well_behaved_network(big);
	br->enrol_consumer(con);
	Hosts H; for (int c = 0; c < nc; ++c) H.emplace_back(new ClientHost([con] { return con->getClient(); }, faulty, sim::draw("client_start_ms", 0, 300) * MS));
	std::vector<std::unique_ptr<Submitter>> S; h::Threads TH; i64 work = 0;
	for (int s = 0; s < ns; ++s) S.emplace_back(new Submitter(s));
	for (int s = 0; s < ns; ++s) for (int i = 0; i < per; ++i) { int ms = sim::draw("work_ms", 0, 200); work += ms * MS; auto p = make(s * 100 + i, errs ? draw_kind("kind") : OK, ms, big); if (sim::draw("pace", 0, 5) == 5) sim::sleep_ns(sim::draw("pace_ms", 1, 300) * MS); S[s]->submit(p); }
	sim::op("collecting");
	collect(S, (faulty ? 6 : 120) * SEC, T::name);
	int lost = missing(S);
	if (!faulty && lost) sim::violate("item-lost", "%d of %d items did not come back although clients and connections are well-behaved (first submitter misses%s)", lost, ns * per, S[0]->missing_ids().c_str());
	if (faulty) {
		sim::stop_faults(); collect(S, 15 * SEC, T::name); lost = missing(S);
		if (lost > (int)sim::net::broken()) sim::violate("item-lost", "%d items did not come back but only %llu connections were interrupted", lost, (unsigned long long)sim::net::broken());
		// the system is still fully usable
		must_serve("no-service-after-faults", "after the faults", 60 * SEC);
		if (lost) sim::probe("deliveries-lost"); else sim::probe("nothing-lost");
	}
	for (auto &kv : recs()) if (kv.first != 7777 && kv.second.started > 1) sim::violate("processed-twice", "item %d was processed %d times", kv.first, kv.second.started);
	for (auto &s : S) for (auto &b : s->back) { (void)b; }
	if (!faulty) for (auto &h : H) if (h->dead()) sim::violate("client-terminated", "a client ended although its connections are healthy and no limit was set");
	sim::op("stopping clients"); for (auto &h : H) h->stop();
	bool all = within([&] { for (auto &h : H) if (!h->dead()) return false; return true; }, 60 * SEC);
	if (!all) sim::violate("client-hangs", "a client does not terminate although it was asked to and the server answers");
	for (auto &h : H) h->join();
	bounded("broker->finalize()", 10 * SEC, [&] { br->finalize(); });
	sim::sample(std::string(modes[(int)m]) + " clients=" + std::to_string(nc) + " submitters=" + std::to_string(ns) + " items=" + std::to_string(ns * per));
}

// ---- C18 / C21 ------------------------------------------------------------------
// T::rogue(kind, mode): plays one misbehaving connection; returns the number of items it may have been given
template <typename T> void rogues(bool net_faults) {
	Mode m = draw_mode(); int nc = sim::draw("clients", 1, 3), ns = sim::draw("submitters", 1, 2), per = sim::draw("items", 1, 6), nr = sim::draw("rogues", 1, 5); sim::cfg.max_steps = 4000000;
	auto br = GBROKER(Item); int nthr = sim::draw("server_threads", 1, 4); auto con = T::consumer(m, nthr, 50);
	if (net_faults) faulty_network(); else well_behaved_network();
	br->enrol_consumer(con);
	Hosts H; for (int c = 0; c < nc; ++c) H.emplace_back(new ClientHost([con] { return con->getClient(); }, net_faults, sim::draw("client_start_ms", 0, 300) * MS));
	h::Cell<int> stolen, active; h::Cell<bool> quit; std::vector<std::thread> R;
	for (int r = 0; r < nr; ++r) { active.add(1); R.emplace_back([&] {
		sim::label("rogue"); int n = sim::draw("attacks", 1, 6);
		for (int i = 0; i < n; ++i) { sim::sleep_ns(sim::draw("rogue_pause_ms", 0, 300) * MS); int k = sim::draw("attack", 0, T::n_rogues - 1); sim::op("attack %d", k); stolen.add(T::rogue(k, m, [&] { return quit.get(); })); }
		active.add(-1); sim::op("rogue done");
	}); }
	std::vector<std::unique_ptr<Submitter>> S; for (int s = 0; s < ns; ++s) S.emplace_back(new Submitter(s));
	for (int s = 0; s < ns; ++s) for (int i = 0; i < per; ++i) { if (sim::draw("pace", 0, 2) == 2) sim::sleep_ns(sim::draw("pace_ms", 1, 600) * MS); S[s]->submit(make(s * 100 + i, OK, sim::draw("work_ms", 0, 200))); }
	sim::op("collecting"); collect(S, 8 * SEC, T::name);
	// rogues that stall for ever are still connected here: the server must serve the others all the same
	sim::stop_faults();
	collect(S, 20 * SEC, T::name);
	quit.set(true);
	if (!within([&] { return active.get() == 0; }, 120 * SEC)) sim::violate("server-stuck", "a peer of the server is still waiting for its answer");
	for (auto &t : R) t.join();
	int lost = missing(S), allowed = stolen.get() + (int)sim::net::broken();
	if (lost > allowed) sim::violate("item-lost", "%d items did not come back, but misbehaving peers and interrupted connections account for at most %d", lost, allowed);
	must_serve("no-service-after-faults", "after the attacks", 60 * SEC);
	if (!net_faults) for (auto &h : H) if (h->dead()) sim::violate("client-terminated", "a well-behaved client with healthy connections was terminated by the misbehaviour of others");
	for (auto &kv : recs()) if (kv.first != 7777 && kv.second.started > 1) sim::violate("processed-twice", "item %d was processed %d times", kv.first, kv.second.started);
	for (auto &h : H) h->stop();
	if (!within([&] { for (auto &h : H) if (!h->dead()) return false; return true; }, 60 * SEC)) sim::violate("client-hangs", "a client does not terminate although it was asked to and the server answers");
	for (auto &h : H) h->join();
	bounded("broker->finalize()", 10 * SEC, [&] { br->finalize(); });
	sim::sample(std::string(modes[(int)m]) + " clients=" + std::to_string(nc) + " rogues=" + std::to_string(nr) + " items=" + std::to_string(ns * per));
}

// ---- C11, remote part: submitters leave while clients work for them -------------
template <typename T> void departures() {
	Mode m = draw_mode(); int nc = sim::draw("clients", 1, 3), ns = sim::draw("submitters", 2, 4), per = sim::draw("items", 1, 5);
	auto br = GBROKER(Item); auto con = T::consumer(m, sim::draw("server_threads", 1, 4), 20); well_behaved_network(); br->enrol_consumer(con);
	Hosts H; for (int c = 0; c < nc; ++c) H.emplace_back(new ClientHost([con] { return con->getClient(); }, false, sim::draw("client_start_ms", 0, 100) * MS));
	std::vector<std::unique_ptr<Submitter>> S; for (int s = 0; s < ns; ++s) S.emplace_back(new Submitter(s));
	for (int i = 0; i < per; ++i) for (int s = 0; s < ns; ++s) S[s]->submit(make(s * 100 + i, OK, sim::draw("work_ms", 0, 400)));
	int leave = sim::draw("leaving", 1, ns - 1); sim::sleep_ns(sim::draw("leave_ms", 0, 1000) * MS);
	std::vector<std::weak_ptr<Port>> gone;
	for (int k = 0; k < leave; ++k) { if (sim::draw("pace", 0, 1)) sim::sleep_ns(sim::draw("leave_gap_ms", 0, 300) * MS); gone.push_back(S.back()->port); S.back()->port->producer_disconnect(); S.pop_back(); if (sim::draw("new_enrolment", 0, 1)) S.insert(S.begin(), std::unique_ptr<Submitter>(new Submitter(50 + k))); }
	sim::op("collecting"); collect(S, 40 * SEC, T::name);
	if (int lost = missing(S)) sim::violate("item-lost", "%d items of the remaining submitters did not come back", lost);
	sim::sleep_ns(2 * SEC); // results of the departed arrive
	must_serve("no-service", "after the departures", 30 * SEC);
	for (auto &h : H) if (h->dead()) sim::violate("client-terminated", "the departure of a submitter has terminated a client");
	for (auto &h : H) h->stop();
	if (!within([&] { for (auto &h : H) if (!h->dead()) return false; return true; }, 60 * SEC)) sim::violate("client-hangs", "a client does not terminate although it was asked to and the server answers");
	for (auto &h : H) h->join();
	for (auto &g : gone) if (!g.expired()) sim::violate("port-leaked", "the queue of a departed submitter is still held");
	bounded("broker->finalize()", 10 * SEC, [&] { br->finalize(); });
}

// ---- C16, remote part: shut-down at any moment, then a new run on the same port ----
template <typename T> void shutdown_remote() {
	for (int round = 0; round < 2; ++round) {
		Mode m = draw_mode(); int nc = sim::draw("clients", 0, 3), n = sim::draw("items", 0, 8), nr = sim::draw("stalled_peers", 0, 2);
		int before = sim::live_threads();
		well_behaved_network();
		auto br = GBROKER(Item); std::weak_ptr<Consumer> wc; { auto con = T::consumer(m, sim::draw("server_threads", 1, 4), 2); wc = con;
		Hosts H; std::vector<int> fds; i64 maxwork = 0;
		sim::op("enrol_consumer"); br->enrol_consumer(con);
		auto S = std::unique_ptr<Submitter>(new Submitter(round * 10));
		for (int c = 0; c < nc; ++c) H.emplace_back(new ClientHost([con = std::weak_ptr<Consumer>(con)] { auto c = con.lock(); return c ? c->getClient() : nullptr; }, false, 0));
		for (int r = 0; r < nr; ++r) { int fd = T::stalled(m); if (fd >= 0) fds.push_back(fd); }
		for (int i = 0; i < n; ++i) { i64 ms = sim::draw("work_ms", 0, 800); maxwork = std::max(maxwork, ms * MS); S->submit(make(round * 1000 + i, OK, ms)); }
		sim::sleep_ns(sim::draw("when_ms", 0, 1500) * MS);
		if (sim::draw("fetch", 0, 1)) while (S->missing() && S->fetch(0.0, "before the shut-down")) {}
		if (sim::draw("producer_gone", 0, 2) == 2) { S->port->producer_disconnect(); }
		bounded("broker->finalize()", 10 * SEC, [&] { br->finalize(); });
		con.reset();
		while (S->missing() && S->fetch(0.0, "after the shut-down")) {}
		int got = (int)S->back.size(); sim::sleep_ns(1 * SEC); while (S->missing() && S->fetch(0.0, "after the shut-down")) {}
		if ((int)S->back.size() != got) sim::violate("result-after-shutdown", "a result was credited after the shut-down has completed");
		S.reset();
		// The server is gone: nobody may be left hanging on it.
		if (!within([&] { for (auto &h : H) if (!h->dead()) return false; return true; }, 60 * SEC + maxwork)) sim::violate("client-hangs", "a client has not terminated although the server was shut down");
		for (auto &h : H) h->join();
		for (int fd : fds) ::close(fd);
		br.reset(); RESETGBROKER(Item); }
		if (!wc.expired()) sim::violate("consumer-leaked", "the consumer (and its listening socket) is still alive after the shut-down");
		if (sim::live_threads() != before) sim::violate("threads-left", "%d threads alive after the shut-down", sim::live_threads() - before);
	}
}
// ---- C19 / C22 ------------------------------------------------------------------
// Nobody listens: the configured number of attempts, then the end.
template <typename T> void no_server() {
	int max = sim::draw("max_reconnects", 0, 6); auto con = T::consumer(draw_mode(), 1, max);
	well_behaved_network(); if (sim::draw("names", 0, 3) == 3) sim::net::cfg.p_dns = 0.2;
	i64 t0 = sim::now(), l0 = sim::lost_time(); auto c0 = sim::net::connects(); { ClientHost h([con] { return con->getClient(); }, false, 0); h.join(); }
	i64 el = sim::now() - t0 - (sim::lost_time() - l0); int n = sim::net::connects() - c0;
	if (!T::reconnects) max = 0; // a single attempt
	if (sim::net::cfg.p_dns == 0 && n != max + 1) sim::violate("attempts", "%d connection attempts were made, %d reconnects are configured", n, max);
	if (n > max + 1) sim::violate("attempts", "%d connection attempts were made, %d reconnects are configured", n, max);
	if (el > (max * 2 + 10) * SEC + n * sim::net::cfg.slow_max) sim::violate("too-slow", "%d attempts took %.1f s", n, el / 1e9);
}
// The server appears late, disappears for a while, and finally goes away for good.
template <typename T> void lifecycle() {
	Mode m = draw_mode(); int max = sim::draw("max_reconnects", 4, 12), nc = sim::draw("clients", 1, 3), n = sim::draw("items", 0, 6); well_behaved_network();
	bool faults = sim::swarm("network_faults"); if (faults) faulty_network(); else sim::net::cfg.p_slow = 0;
	auto tmpl = T::consumer(m, 1, max); auto br = GBROKER(Item);
	// what the setup of a client allows: less than max * 0.5 s
	i64 late = T::reconnects ? sim::draw("server_late_ms", 0, 500 * (max - 3)) * MS : 0; i64 l0 = sim::lost_time();
	Hosts H; auto start = [&] { for (int c = 0; c < nc; ++c) H.emplace_back(new ClientHost([tmpl] { return tmpl->getClient(); }, false, 0)); }; if (T::reconnects) start();
	sim::sleep_ns(late); auto con = T::consumer(m, sim::draw("server_threads", 1, 4), max); br->enrol_consumer(con); if (!T::reconnects) start();
	bool punctual = sim::lost_time() == l0;
	std::vector<std::unique_ptr<Submitter>> S; S.emplace_back(new Submitter(0));
	for (int i = 0; i < n; ++i) S[0]->submit(make(i, OK, sim::draw("work_ms", 0, 300)));
	int alive = 0; collect(S, 8 * SEC, T::name);
	if (!faults && punctual) { if (missing(S)) sim::violate("no-recovery", "the server came up %.2f s late (%d reconnects allowed), %d of %d items have not been processed", late / 1e9, max, missing(S), n); for (auto &h : H) if (h->dead()) sim::violate("client-terminated", "a client ended although the server came up within its reconnection limit"); }
	int outages = T::reconnects && !faults && punctual ? sim::draw("outages", 0, 5) : 0; if (outages) sim::sleep_ns(2 * SEC); // every client has time to connect
	for (int k = 0; k < outages && sim::lost_time() == l0; ++k) { // connections are refused for a while, again and again
		sim::op("outage"); sim::net::set_refuse(true); sim::sleep_ns(sim::draw("outage_ms", 1, 500 * (max - 3)) * MS); sim::net::set_refuse(false);
		for (int i = 0; i < 2; ++i) S[0]->submit(make(50 + 2 * k + i, OK, 10));
		collect(S, 8 * SEC, T::name); sim::sleep_ns(2 * SEC); // every client has time to connect again
		if (sim::lost_time() != l0) break;
		if (missing(S)) sim::violate("no-recovery", "items submitted after outage %d were not processed", k + 1);
		for (auto &h : H) if (h->dead()) sim::violate("client-terminated", "a client ended although outage %d was shorter than its reconnection limit allows for", k + 1);
	}
	if (!faults && punctual && sim::lost_time() == l0 && sim::draw("idle", 0, 2) == 2) { // no work for a long time
		sim::op("idle"); sim::sleep_ns(sim::draw("idle_s", 5, 40) * SEC); for (int i = 0; i < 2; ++i) S[0]->submit(make(80 + i, OK, 10));
		collect(S, 8 * SEC, T::name); if (sim::lost_time() == l0 && missing(S)) sim::violate("no-recovery", "items submitted after a long time without work were not processed");
	}
	for (auto &h : H) if (!h->dead()) ++alive;
	// the server goes away for good
	int how = sim::draw("end", 0, 2); sim::op("server goes away"); sim::stop_faults();
	if (how == 0) { br->finalize(); con.reset(); }                                       // orderly
	else { sim::net::set_refuse(true); if (how == 1) sim::net::reset_all(PORT); else { sim::sleep_ns(sim::draw("end_ms", 0, 500) * MS); sim::net::reset_all(PORT); } } // the host is lost
	i64 limit = (max + 2) * 1100 * MS + 15 * SEC + 3 * sim::net::cfg.slow_max;
	if (!within([&] { for (auto &h : H) if (!h->dead()) return false; return true; }, limit)) sim::violate("client-hangs", "a client has not terminated %.1f s after the server went away for good", limit / 1e9);
	for (auto &h : H) h->join();
	sim::net::set_refuse(false); br->finalize(); if (alive) sim::probe("client-outlived-server");
}
// Limits and stop requests end the client in bounded time.
template <typename T> void limits(bool strict) {
	Mode m = draw_mode(); well_behaved_network(); auto br = GBROKER(Item); auto con = T::consumer(m, sim::draw("server_threads", 1, 4), 5); br->enrol_consumer(con);
	int what = strict ? 0 : sim::draw("limit", 0, 2), n = sim::draw("items", 0, 8), pm = what == 0 ? sim::draw("process_max", 1, 6) : 0; double mt = what == 1 ? sim::draw("max_time_ms", 1, 4000) / 1000.0 : 0; i64 when = what == 2 ? sim::draw("stop_ms", 0, 3000) * MS : 0;
	i64 maxwork = 0; std::vector<std::unique_ptr<Submitter>> S; S.emplace_back(new Submitter(0)); for (int i = 0; i < n; ++i) { i64 ms = sim::draw("work_ms", 0, 700); maxwork = std::max(maxwork, ms * MS); S[0]->submit(make(i, OK, ms)); }
	i64 tc = sim::now(); std::shared_ptr<Client> c = con->getClient(); c->setProcessMax(pm); if (mt) c->setMaxTime(std::chrono::duration<double>(mt));
	h::Cell<bool> ended; i64 t0 = sim::now(), l0 = sim::lost_time(), tend = 0; std::thread t([&] { sim::label("client"); sim::op("run"); try { c->run(); } catch (std::exception &e) { sim::violate("client-crash", "run() was left by an exception: %.600s", e.what()); } tend = sim::now(); ended.set(true); });
	if (what == 2) { sim::sleep_ns(when); c->flagCloseRequested(); }
	i64 base = what == 1 ? (i64)(mt * 1e9) : what == 2 ? when : 0; i64 limit = base + maxwork + 5 * SEC + 6 * sim::net::cfg.slow_max;
	if (what == 0 && n < pm) { collect(S, 20 * SEC, T::name); if (S[0]->missing()) sim::violate("item-lost", "%d items did not come back", S[0]->missing()); if (ended.get()) sim::violate("stopped-early", "the client ended after %u of %d items", c->getNProcessed(), pm); c->flagCloseRequested(); limit = sim::now() - t0 + 10 * SEC; }
	else if (what == 0) limit = 20 * SEC + n * (maxwork + 2 * SEC + 8 * sim::net::cfg.slow_max);
	if (!within([&] { return ended.get(); }, limit)) sim::violate("client-hangs", "the client has not terminated in time (limit kind %d)", what);
	t.join(); (void)l0;
	if (what == 0 && (int)c->getNProcessed() != std::min(n, pm)) sim::violate("process-limit", "the client has processed %u of %d items, its limit is %d", c->getNProcessed(), n, pm);
	if (what == 1 && tend - tc < (i64)(mt * 1e9)) sim::violate("stopped-early", "the client ended after %.3f s, its time limit is %.3f s", (tend - tc) / 1e9, mt);
	sim::sleep_ns(3 * SEC + 3 * sim::net::cfg.slow_max + sim::pending_stall()); collect(S, 1 * SEC, T::name);
	int done = 0; for (auto &kv : recs()) done += kv.second.finished;
	if ((int)S[0]->back.size() < done - (strict ? 0 : 1)) sim::violate(strict ? "last-result-lost" : "results-lost", "the client has processed %d items, but only %zu results came back", done, S[0]->back.size());
	br->finalize();
}
// A server that does not behave: whatever it answers, run() must not be left by an exception, every work item is
// processed at most once and answered if the exchange was proper, and the client ends once the server is gone.
struct Hostile {
	Mode m; int n, done = 0, next = 0, sent = 0; std::vector<int> expect; h::Cell<bool> quit; // expect: items the client owes us an answer for
	Ptr item() { static const int kinds[] = {OK, OK, OK, STD, GEM, FOREIGN, FLAG}; ++sent; return rmt::make(next++, kinds[sim::draw("kind", 0, 6)], sim::draw("work_ms", 0, 300)); }
	// a complete message of the client
	void request(const std::string &s) {
		GCommandContainerT<Item, Cmd> cc; try { container_from_string(s, cc, m); } catch (std::exception &e) { sim::violate("unreadable-request", "the client sent a message of %zu bytes that cannot be read: %s", s.size(), e.what()); }
		sim::NoPreempt np; auto c = cc.get_command(); auto p = cc.get_payload();
		if (!expect.empty()) {
			int id = expect.front(); expect.erase(expect.begin());
			if (c != Cmd::RESULT || !p) sim::violate("no-answer", "the client was given item %d and answers with command %d%s", id, (int)c, p ? "" : " without a payload");
			if (p->id != id) sim::violate("wrong-answer", "the client was given item %d and returned item %d", id, p->id);
			auto st = p->getProcessingStatus(); bool fails = p->kind != OK;
			if (st == processingStatus::DO_PROCESS || st == processingStatus::DO_IGNORE || (st == processingStatus::PROCESSED) == fails) sim::violate("wrong-status", "item %d (kind %d) was returned with status %d", id, p->kind, (int)st);
		} else if (c == Cmd::RESULT && p && rec(p->id).finished != 1) sim::violate("wrong-answer", "the client returned item %d, which it has not processed exactly once", p->id);
	}
};
template <typename T> void hostile() {
	int max = sim::draw("max_reconnects", 0, 5); auto H = std::make_shared<Hostile>(); H->m = draw_mode(); H->n = sim::draw("answers", 1, 9); well_behaved_network();
	int lfd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(PORT); a.sin_addr.s_addr = htonl(INADDR_ANY);
	if (lfd < 0 || ::bind(lfd, (sockaddr *)&a, sizeof a) || ::listen(lfd, 16)) sim::violate("harness", "the scripted server cannot listen");
	auto con = T::consumer(H->m, 1, max);
	std::thread srv([&] {
		sim::label("server"); sim::op("serves");
		while (H->done < H->n && !H->quit.get()) {
			pollfd p{lfd, POLLIN, 0}; if (::poll(&p, 1, 200) != 1) continue;
			int fd = ::accept(lfd, nullptr, nullptr); if (fd < 0) continue;
			T::serve(fd, *H); sim::op("server closes"); ::close(fd);
		}
		::close(lfd); sim::net::set_refuse(true); sim::net::reset_all(PORT); sim::op("server gone");
	});
	{
		ClientHost c([con] { return con->getClient(); }, false, sim::draw("client_start_ms", 0, 100) * MS);
		if (!within([&] { return c.dead(); }, 60 * SEC + H->n * 8 * SEC + (max + 2) * 1100 * MS * (H->n + 1) + (H->n + max + 3) * 3 * sim::net::cfg.slow_max)) sim::violate("client-hangs", "the client has not terminated although its server is gone");
		c.join();
	}
	H->quit.set(true); srv.join(); sim::net::set_refuse(false);
	for (auto &kv : recs()) if (kv.second.started > 1) sim::violate("processed-twice", "item %d was processed %d times", kv.first, kv.second.started);
	sim::sample(std::string(modes[(int)H->m]) + " hostile answers=" + std::to_string(H->done) + " items=" + std::to_string(H->sent));
}
} // namespace rmt
