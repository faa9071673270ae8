// C10-C16: broker, local consumers, executors, work item status.
#include "work.hpp"
#include <algorithm>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GExecutorT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
BOOST_CLASS_EXPORT_IMPLEMENT(w::Item)
BOOST_CLASS_EXPORT_IMPLEMENT(w::Proc)

using namespace Gem::Courtier;
using namespace w;
using sim::i64;
static struct Init { Init() { sim::declare_components(
	"Geneva courtier library (broker, buffer ports, serial / multi-threaded consumers and workers, serial / multi-threaded / broker executors, work item base class, socket and websocket consumers and clients), common library, boost::asio, boost::beast, boost::serialization, libstdc++: real, unmodified",
	"pthread/futex scheduling, clocks, sleeping, TCP/epoll/eventfd/timerfd, file writes: simulator; work items and (for C10, C14) unreliable workers: harness"); } } init_;

using Port = GBufferPortT<Item>;
using Ptr = std::shared_ptr<Item>;
using Broker = GBrokerT<Item>;
static Ptr make(int id, int kind, int ms) { auto p = std::make_shared<Item>(id, kind, ms, sim::draw("payload", 0, 6), 1 + sim::draw("n_results", 0, 2)); p->add_processors(sim::draw("pre", 0, 3) == 3, sim::draw("post", 0, 3) == 3); p->set_processing_status(processingStatus::DO_PROCESS); return p; }
template <typename F> static void bounded(const char *what, i64 limit, F f) {
	sim::op("%s", what); i64 t0 = sim::now(), l0 = sim::lost_time() - sim::pending_stall(); f(); i64 el = sim::now() - t0 - (sim::lost_time() - l0);
	if (el > limit) sim::violate("too-slow", "%s took %.1f simulated seconds (limit %.1f)", what, el / 1e9, limit / 1e9);
	sim::op("idle");
}

// ------------------------------------------------------------------ C10
SIM_SCENARIO(C10, routing, 4) {
	auto br = std::make_shared<Broker>();
	int ns = sim::draw("submitters", 1, 4), nc = sim::draw("consumers", 1, 4), per = sim::draw("items", 1, 10);
	struct Sub { std::shared_ptr<Port> port; std::vector<Ptr> items; std::vector<sim::u64> pushed_inv, pushed_ret; std::map<int, int> back; };
	std::vector<Sub> S(ns);
	struct Del { sim::u64 inv, ret; int n = 0; };
	std::map<int, Del> del; h::Cell<int> outstanding; outstanding.set(ns * per); h::Cell<int> puts;
	h::Threads T;
	for (int s = 0; s < ns; ++s) {
		S[s].port = std::make_shared<Port>(); S[s].pushed_inv.resize(per); S[s].pushed_ret.resize(per);
		for (int i = 0; i < per; ++i) S[s].items.push_back(make(s * 100 + i, OK, 0));
	}
	bool late = sim::swarm("late_enrolment");
	if (!late) for (auto &s : S) br->enrol_buffer_port(s.port);
	for (int s = 0; s < ns; ++s) T.go("submitter", [&, s] {
		Sub &me = S[s];
		if (late) { sim::sleep_ns(sim::draw("enrol_ms", 0, 100) * MS); sim::op("enrol_buffer_port"); br->enrol_buffer_port(me.port); }
		int got = 0; bool interleave = sim::draw("interleave", 0, 1);
		auto fetch = [&](bool wait) {
			Ptr p; sim::op("pop_processed");
			if (wait && sim::draw("pop_blocking", 0, 1)) me.port->pop_processed(p); else if (!me.port->pop_processed(p, std::chrono::duration<double>(wait ? 0.5 : 0.0))) return;
			sim::NoPreempt np; if (!p) sim::violate("empty-result", "an empty result was delivered to submitter %d", s);
			if (p->id / 100 != s) sim::violate("result-to-wrong-submitter", "submitter %d received the result of item %d", s, p->id);
			if (++me.back[p->id] > 1) sim::violate("result-delivered-twice", "item %d was returned %d times", p->id, me.back[p->id]);
			if (del[p->id].n != 1) sim::violate("result-without-delivery", "item %d was returned but delivered to %d workers", p->id, del[p->id].n);
			if (p != me.items[p->id % 100]) sim::violate("result-replaced", "item %d came back as a different object", p->id);
			++got;
		};
		for (int i = 0; i < per; ++i) {
			me.items[i]->setBufferId(me.port->getUniqueTag()); sim::op("push_raw(%d)", me.items[i]->id);
			me.pushed_inv[i] = sim::seq();
			if (sim::draw("push_timed", 0, 1)) { while (!me.port->push_raw(me.items[i], std::chrono::duration<double>(1.0))) {} } else me.port->push_raw(me.items[i]);
			me.pushed_ret[i] = sim::seq();
			if (interleave && sim::draw("poll", 0, 2) == 0 && got < per) fetch(false);
		}
		while (got < per) fetch(true);
		sim::op("done");
	});
	for (int c = 0; c < nc; ++c) T.go("consumer", [&] {
		while (outstanding.get() > 0) {
			Ptr p; sim::u64 inv = sim::seq(); sim::op("get");
			int ms = sim::draw("get_ms", 0, 60);
			if (!br->get(p, std::chrono::duration<double>(ms / 1000.0))) { if (p) sim::violate("get-lies", "get() reports failure but returned item %d", p->id); if (ms == 0) sim::sleep_ns(1 * MS); continue; }
			{ sim::NoPreempt np; if (!p) sim::violate("get-lies", "get() reports success without an item"); outstanding.v--;
			Del &d = del[p->id]; if (++d.n > 1) sim::violate("delivered-twice", "item %d was delivered to %d workers", p->id, d.n); d.inv = inv; d.ret = sim::seq(); }
			int k = sim::draw("work", 0, 4); if (k == 1) sim::yield_point(); else if (k > 1) sim::sleep_ns(sim::draw("work_ms", 0, 40) * MS);
			sim::op("put(%d)", p->id);
			if (sim::draw("put_timed", 0, 1)) { if (!br->put(p, std::chrono::duration<double>(5.0))) sim::violate("put-failed", "the result of item %d could not be handed back", p->id); } else br->put(p);
		}
		sim::op("done");
	});
	T.join();
	for (int s = 0; s < ns; ++s) for (int i = 0; i < per; ++i) for (int j = i + 1; j < per; ++j)
		if (S[s].pushed_ret[i] < S[s].pushed_inv[j] && del[s * 100 + j].ret < del[s * 100 + i].inv) sim::violate("submission-order", "item %d was delivered before item %d of the same submitter", s * 100 + j, s * 100 + i);
	sim::sample("submitters=" + std::to_string(ns) + " consumers=" + std::to_string(nc) + " items=" + std::to_string(per));
	br->finalize();
}
// Service is shared between the submitters.
SIM_SCENARIO(C10, fairness, 2) {
	auto br = std::make_shared<Broker>();
	int ns = sim::draw("submitters", 2, 6), total = 0;
	std::vector<std::shared_ptr<Port>> P(ns); std::vector<int> left(ns), waited(ns);
	std::vector<bool> enrolled(ns);
	int first = sim::draw("enrolled_first", 1, ns), idle = 0;
	auto enrol = [&](int s) { P[s] = std::make_shared<Port>(); br->enrol_buffer_port(P[s]); enrolled[s] = true; int n = sim::draw("backlog", 0, 30); for (int i = 0; i < n; ++i) { auto p = make(s * 100 + i, OK, 0); p->setBufferId(P[s]->getUniqueTag()); P[s]->push_raw(p); } left[s] = n; total += n; idle = 0; for (auto &x : waited) x = 0; };
	for (int s = 0; s < first; ++s) enrol(s);
	int next = first;
	while (total > 0 || next < ns) {
		if (next < ns && (total == 0 || sim::draw("enrol_now", 0, 9) == 0)) { enrol(next++); continue; }
		// a submitter whose items have all been processed leaves; its queue is released with the next enrolment
		if (total > 0 && sim::draw("departure", 0, 5) == 0) { int s = sim::draw("who", 0, ns - 1); if (enrolled[s] && P[s] && left[s] == 0) { P[s]->producer_disconnect(); P[s].reset(); sim::probe("departed"); } }
		Ptr p; sim::op("get");
		int active = 0; for (int s = 0; s < ns; ++s) active += enrolled[s];
		bool ok = br->get(p, std::chrono::duration<double>(0.0));
		for (int s = 0; s < ns; ++s) if (left[s] > 0) waited[s]++;
		if (ok) { int s = p->id / 100; if (left[s]-- <= 0) sim::violate("item-invented", "submitter %d has no items left", s); total--; waited[s] = 0; idle = 0; br->put(p); }
		else if (++idle > active) sim::violate("starved", "%d consecutive requests returned nothing although %d items are queued", idle, total);
		for (int s = 0; s < ns; ++s) if (left[s] > 0 && waited[s] > active) sim::violate("starved", "the item at the head of submitter %d's queue was passed over in %d requests with %d submitters", s, waited[s], active);
	}
	br->finalize();
}

// ------------------------------------------------------------------ C11
static std::shared_ptr<GBaseConsumerT<Item>> local_consumer(int threads) {
	if (threads == 0) return std::make_shared<GSerialConsumerT<Item>>();
	return std::make_shared<GStdThreadConsumerT<Item>>(threads);
}
SIM_SCENARIO(C11, departures, 4) {
	auto br = GBROKER(Item);
	int nthreads = sim::draw("worker_threads", 0, 4), ns = sim::draw("submitters", 2, 6), per = sim::draw("items", 1, 6);
	br->enrol_consumer(local_consumer(nthreads));
	std::vector<bool> leaves(ns); for (int s = 0; s < ns; ++s) leaves[s] = sim::draw("leaves", 0, 1);
	std::vector<std::weak_ptr<Port>> wp(ns); std::vector<std::weak_ptr<Item>> wi; h::Cell<int> done;
	h::Threads T;
	for (int s = 0; s < ns; ++s) T.go(leaves[s] ? "leaving-submitter" : "submitter", [&, s] {
		sim::sleep_ns(sim::draw("start_ms", 0, 200) * MS);
		auto port = std::make_shared<Port>(); { sim::NoPreempt np; wp[s] = port; }
		sim::op("enrol_buffer_port"); br->enrol_buffer_port(port);
		std::map<int, int> back; std::vector<Ptr> items;
		int n = leaves[s] ? (int)sim::draw("items_before_leaving", 0, per) : per;
		for (int i = 0; i < per; ++i) {
			if (leaves[s] && i == n) break;
			auto p = make(s * 100 + i, draw_kind("kind"), sim::draw("work_ms", 0, 120));
			{ sim::NoPreempt np; wi.push_back(p); if (!leaves[s]) items.push_back(p); }
			p->setBufferId(port->getUniqueTag()); sim::op("push_raw(%d)", p->id); port->push_raw(p);
		}
		if (leaves[s]) { int f = sim::draw("fetch_before_leaving", 0, n); Ptr p; for (int i = 0; i < f; ++i) port->pop_processed(p, std::chrono::duration<double>(0.2)); sim::op("leaving"); port->producer_disconnect(); port.reset(); done.add(1); sim::op("gone"); return; }
		while ((int)back.size() < per) {
			Ptr p; sim::op("pop_processed (%zu of %d)", back.size(), per); port->pop_processed(p);
			if (p->id / 100 != s) sim::violate("result-to-wrong-submitter", "submitter %d received the result of item %d", s, p->id);
			if (++back[p->id] > 1) sim::violate("result-delivered-twice", "item %d was returned %d times", p->id, back[p->id]);
			check_returned(*p, "remaining submitter");
		}
		port->producer_disconnect(); done.add(1); sim::op("done");
	});
	T.join();
	// a further submitter; its enrolment is when departed queues are released
	auto port = std::make_shared<Port>(); br->enrol_buffer_port(port);
	auto p = make(9999, OK, 1); p->setBufferId(port->getUniqueTag()); port->push_raw(p); Ptr q; sim::op("last submitter"); port->pop_processed(q); check_returned(*q, "last submitter");
	// everything still being worked on for departed submitters finishes within work time + get timeout
	sim::stop_faults(); sim::sleep_ns(5 * SEC + sim::pending_stall());
	for (int s = 0; s < ns; ++s) if (!wp[s].expired()) sim::violate("port-leaked", "the queue of departed submitter %d is still held", s);
	for (auto &x : wi) if (auto it = x.lock()) sim::violate("item-leaked", "item %d of a departed submitter is still held", it->id);
	if (rec(9999).started != 1) sim::violate("lost", "last item");
	bounded("broker->finalize()", 30 * SEC, [&] { br->finalize(); });
	if (sim::live_threads() != 1) sim::violate("threads-left", "%d worker threads alive after the shut-down", sim::live_threads() - 1);
}

// The number of submitters at a time is limited, the number of submitters in the lifetime of a program is not.
SIM_SCENARIO(C11, many_submitters, 1) {
	sim::cfg.mem_mean *= 16; sim::cfg.max_steps = 4000000; auto br = GBROKER(Item); br->enrol_consumer(local_consumer(sim::draw("worker_threads", 1, 2)));
	int n = sim::draw("submitters", 1001, 1100), keep = sim::draw("stay", 0, 3); std::vector<std::shared_ptr<Port>> stay;
	for (int i = 0; i < n; ++i) { auto port = std::make_shared<Port>(); try { br->enrol_buffer_port(port); } catch (std::exception &e) { sim::violate("refused", "submitter %d is refused, %zu are active: %.300s", i, stay.size(), e.what()); } if ((int)stay.size() < keep) stay.push_back(port); else port->producer_disconnect(); }
	auto port = std::make_shared<Port>(); br->enrol_buffer_port(port); stay.push_back(port); for (size_t i = 0; i < stay.size(); ++i) { auto p = make((int)i, OK, 1); p->setBufferId(stay[i]->getUniqueTag()); stay[i]->push_raw(p); }
	for (size_t i = 0; i < stay.size(); ++i) { Ptr q; stay[i]->pop_processed(q); if (q->id != (int)i) sim::violate("result-to-wrong-submitter", "submitter %zu received the result of item %d", i, q->id); check_returned(*q, "remaining submitter"); stay[i]->producer_disconnect(); }
	br->finalize();
}

// ------------------------------------------------------------------ C12
SIM_SCENARIO(C12, processing, 4) {
	auto br = GBROKER(Item);
	int nthreads = sim::draw("worker_threads", 0, 5), eff = nthreads ? nthreads : 1;
	int before = sim::live_threads();
	auto c = local_consumer(nthreads); br->enrol_consumer(c);
	if (sim::live_threads() - before != eff) sim::violate("wrong-thread-count", "%d worker threads were started instead of %d", sim::live_threads() - before, eff);
	auto port = std::make_shared<Port>(); br->enrol_buffer_port(port);
	int n = sim::draw("items", 1, 14); bool rendezvous = sim::swarm("rendezvous");
	std::vector<Ptr> items; std::map<int, int> back;
	if (rendezvous) n = eff;
	h::Cell<bool> all_met;
	if (rendezvous) book().work = [&](int) { if (!sim::wait_until([&] { return all_met.v || book().running >= eff; }, 300 * SEC, 10 * MS)) sim::violate("not-parallel", "only %d of %d items are processed at the same time by %d threads", book().running, eff, eff); all_met.set(true); };
	for (int i = 0; i < n; ++i) { auto p = make(i, rendezvous ? OK : draw_kind("kind"), rendezvous ? 0 : (int)sim::draw("work_ms", 0, 100) - 20); p->setBufferId(port->getUniqueTag()); items.push_back(p); sim::op("push_raw(%d)", i); port->push_raw(p); if (sim::draw("gap", 0, 5) == 0) sim::sleep_ns(sim::draw("gap_ms", 0, 400) * MS); }
	while ((int)back.size() < n) { Ptr p; sim::op("pop_processed (%zu of %d)", back.size(), n); port->pop_processed(p); if (++back[p->id] > 1) sim::violate("returned-twice", "item %d was returned twice", p->id); check_returned(*p, "local consumer"); }
	for (int i = 0; i < n; ++i) if (rec(i).started != 1 + 0 && items[i]->kind != PRE) sim::violate("executions", "item %d was processed %d times", i, rec(i).started);
	if (book().maxrun > eff) sim::violate("too-parallel", "%d items were processed at the same time by %d threads", book().maxrun, eff);
	if (sim::live_threads() - before != eff) sim::violate("worker-died", "%d worker threads are left of %d", sim::live_threads() - before, eff);
	bounded("broker->finalize()", 30 * SEC, [&] { br->finalize(); });
	if (sim::live_threads() != before) sim::violate("threads-left", "%d worker threads alive after the shut-down", sim::live_threads() - before);
	sim::sample("threads=" + std::to_string(nthreads) + " items=" + std::to_string(n));
}
// Shut-down with items queued and in processing.
static void shutdown_any_time(bool restart) {
	for (int round = 0; round < (restart ? 2 : 1); ++round) {
		int before = sim::live_threads();
		auto br = GBROKER(Item);
		int nthreads = sim::draw("worker_threads", 0, 4);
		int n = sim::draw("items", 0, 12), maxwork = 0, base = round * 1000;
		std::vector<Ptr> items; auto port = std::make_shared<Port>();
		bool consumer_first = sim::draw("consumer_first", 0, 1);
		if (consumer_first) br->enrol_consumer(local_consumer(nthreads));
		br->enrol_buffer_port(port);
		for (int i = 0; i < n; ++i) { int ms = sim::draw("work_ms", 0, 600); if (ms > maxwork) maxwork = ms; auto p = make(base + i, draw_kind("kind"), ms); p->setBufferId(port->getUniqueTag()); items.push_back(p); port->push_raw(p); }
		if (!consumer_first) br->enrol_consumer(local_consumer(nthreads));
		if (sim::draw("fetch", 0, 1)) { Ptr p; int k = sim::draw("fetch_n", 0, n); for (int i = 0; i < k; ++i) if (port->pop_processed(p, std::chrono::duration<double>(0.3))) check_returned(*p, "before shut-down"); }
		sim::sleep_ns(sim::draw("when_ms", 0, 800) * MS);
		if (sim::draw("producer_gone", 0, 2) == 2) port->producer_disconnect();
		bounded("broker->finalize()", (maxwork + 2000) * MS, [&] { br->finalize(); });
		{ sim::NoPreempt np; book().closed = true; for (auto &kv : book().r) { if (kv.second.running) sim::violate("running-after-shutdown", "item %d is still being processed after the shut-down", kv.first); if (kv.second.started > 1) sim::violate("executions", "item %d was processed %d times", kv.first, kv.second.started); } }
		if (sim::live_threads() != before) sim::violate("threads-left", "%d worker threads alive after the shut-down", sim::live_threads() - before);
		Ptr p; while (port->pop_processed(p, std::chrono::duration<double>(0.0))) check_returned(*p, "after shut-down");
		for (auto &x : items) if (rec(x->id).started == 0 && x->kind != PRE && x->getProcessingStatus() != processingStatus::DO_PROCESS) sim::violate("status-of-unprocessed", "item %d was never processed but has status %s", x->id, x->getProcessingStatusAsStr().c_str());
		sim::sleep_ns(3 * SEC);
		br->finalize();
		br.reset(); RESETGBROKER(Item);
		book().closed = false;
	}
}
SIM_SCENARIO(C12, shutdown, 2) { shutdown_any_time(false); }
SIM_SCENARIO(C16, local, 3) { shutdown_any_time(true); }

// ------------------------------------------------------------------ C13
static void batch(int exkind) {
	std::shared_ptr<GBaseExecutorT<Item>> ex; std::shared_ptr<Broker> br;
	int threads = 1 + sim::draw("threads", 0, 4);
	if (exkind == 0) ex = std::make_shared<GSerialExecutorT<Item>>();
	else if (exkind == 1) ex = std::make_shared<GMTExecutorT<Item>>(threads);
	else { br = GBROKER(Item); br->enrol_consumer(local_consumer(exkind == 2 ? threads : 0)); br->capableOfFullReturn(); ex = std::make_shared<GBrokerExecutorT<Item>>(); }
	sim::op("executor init"); ex->init();
	int nb = sim::draw("batches", 1, 3); bool allow_errors = sim::swarm("errors"); bool ext = sim::draw("external_counter", 0, 1);
	for (int b = 0; b < nb; ++b) {
		int n = sim::draw("items", 1, 10);
		std::vector<Ptr> items; std::vector<int> what(n); int due = 0;
		for (int i = 0; i < n; ++i) {
			auto p = make(b * 100 + i, allow_errors ? draw_kind("kind") : OK, (int)sim::draw("work_ms", 0, 60) - 10);
			int wsel = sim::draw("due", 0, 6); what[i] = wsel <= 4 ? 0 : wsel - 4;
			if (what[i] == 2 && p->kind != OK) what[i] = 1;
			if (what[i] == 0) ++due;
			if (what[i] == 1) p->set_processing_status(processingStatus::DO_IGNORE);
			if (what[i] == 2) p->process(); // processed earlier
			items.push_back(p);
		}
		auto orig = items; std::vector<int> execs; for (auto &p : items) execs.push_back(rec(p->id).started);
		sim::op("workOn(batch %d, %d of %d items due)", b, due, n);
		auto st = ex->workOn(items, sim::draw("resubmit", 0, 1), std::make_tuple(ITERATION_COUNTER_TYPE(b * 3), ext), "harness");
		sim::op("idle");
		if ((int)items.size() != n) sim::violate("batch-size", "the batch has %zu items instead of %d", items.size(), n);
		int err = 0, missing = 0;
		for (int i = 0; i < n; ++i) {
			auto &p = items[i];
			if (!p || p->id != b * 100 + i) sim::violate("item-misplaced", "position %d holds item %d", b * 100 + i, p ? p->id : -1);
			int ex_n = rec(p->id).started - execs[i];
			if (what[i]) {
				if (ex_n) sim::violate("excluded-item-processed", "item %d was processed although it was excluded", p->id);
				if (p->getProcessingStatus() != (what[i] == 1 ? processingStatus::DO_IGNORE : processingStatus::PROCESSED)) sim::violate("excluded-item-changed", "excluded item %d has status %s", p->id, p->getProcessingStatusAsStr().c_str());
				if (what[i] == 2) check_returned(*p, "processed earlier");
			} else {
				if (ex_n != 1 && p->kind != PRE) sim::violate("executions", "item %d was processed %d times", p->id, ex_n);
				if (p->getProcessingStatus() == processingStatus::DO_PROCESS) { ++missing; continue; }
				check_returned(*p, "batch"); if (p->has_errors()) ++err;
			}
		}
		if (missing) sim::violate("batch-incomplete", "%d items were not returned although the workers are reliable", missing);
		if (st.is_complete != (missing == 0)) sim::violate("completeness-lie", "is_complete=%d with %d missing items", st.is_complete, missing);
		if (st.has_errors != (err > 0)) sim::violate("errors-lie", "has_errors=%d with %d failed items", st.has_errors, err);
		auto old = ex->getOldWorkItems(); if (!old.empty()) sim::violate("old-items", "%zu old work items without any late return", old.size());
	}
	sim::op("executor finalize"); ex->finalize(); ex.reset();
	if (br) { bounded("broker->finalize()", 30 * SEC, [&] { br->finalize(); }); }
	sim::sample("executor=" + std::to_string(exkind) + " batches=" + std::to_string(nb) + " threads=" + std::to_string(threads));
}
SIM_SCENARIO(C13, serial, 1) { batch(0); }
SIM_SCENARIO(C13, threaded, 3) { batch(1); }
SIM_SCENARIO(C13, broker, 4) { batch(sim::draw("consumer", 2, 3)); }

// ------------------------------------------------------------------ C14
// A consumer whose workers process copies (as a network does), late, never or out of order.
struct Unreliable : GBaseConsumerT<Item> {
	std::shared_ptr<Broker> br = GBROKER(Item); std::vector<std::thread> t; int n; bool full; std::function<void(Unreliable *)> run;
	Unreliable(int n_, bool f) : n(n_), full(f) {}
protected:
	void shutdown_() override { GBaseConsumerT<Item>::shutdown_(); for (auto &x : t) x.join(); t.clear(); }
private:
	void addCLOptions_(boost::program_options::options_description &, boost::program_options::options_description &) override {}
	void actOnCLOptions_(const boost::program_options::variables_map &) override {}
	std::string getConsumerName_() const override { return "Unreliable"; }
	std::string getMnemonic_() const override { return "unr"; }
	void async_startProcessing_() override { for (int i = 0; i < n; ++i) t.emplace_back([this] { sim::label("worker"); run(this); }); }
	std::size_t getNProcessingUnitsEstimate_(bool &e) const override { e = true; return n; }
	bool capableOfFullReturn_() const override { return full; }
};
static void unreliable(int mode) { // 0: time-outs, 1: no time-out requested, 2: full return requested, partial return rate accepted
	auto br = GBROKER(Item);
	int nw = sim::draw("workers", 1, 4), nb = sim::draw("batches", 1, 4);
	bool errors = sim::swarm("errors"), resubmit = mode == 2 ? false : sim::swarm("resubmit");
	double p_lose = mode != 1 && sim::swarm("lossy") ? 0.02 + 0.06 * sim::draw("loss", 0, 8) : 0, p_late = sim::swarm("late") ? 0.1 * sim::draw("lateness", 1, 6) : 0;
	int late_ms = sim::draw("late_ms", 100, 5000); sim::cfg.max_steps = 3000000;
	h::Cell<int> inside;
	struct Late { i64 when; Ptr p; }; auto late = std::make_shared<std::vector<Late>>();
	auto con = std::make_shared<Unreliable>(nw, mode == 2); std::map<int, int> budget;
	int returned_ok = 0; std::map<int, int> lost;
	con->run = [&](Unreliable *c) {
		while (!c->stopped()) {
			Ptr p; sim::op("get");
			bool ok = c->br->get(p, std::chrono::duration<double>(0.2));
			if (ok) {
				Ptr q; { sim::NoPreempt np; q = std::make_shared<Item>(*p); }
				p.reset();
				if (sim::fault("lose-item", mode == 2 ? 3 * p_lose : p_lose) && (mode == 2 ? budget[q->id / 100] > 0 : returned_ok || !sim::faults_active())) { sim::NoPreempt np; lost[q->id]++; budget[q->id / 100]--; continue; }
				try { q->process(); } catch (g_processing_exception &) {}
				if (sim::fault("late-result", p_late)) { sim::NoPreempt np; late->push_back({sim::now() + (i64)sim::fault_value("late_ms", late_ms) * MS, q}); continue; }
				if (q->is_processed()) returned_ok++;
				sim::op("put"); c->br->put(q, std::chrono::duration<double>(0.5));
			}
			Ptr due; { sim::NoPreempt np; for (size_t i = 0; i < late->size(); ++i) if ((*late)[i].when <= sim::now()) { due = (*late)[i].p; late->erase(late->begin() + i); break; } }
			if (due) { if (due->is_processed()) returned_ok++; sim::probe("late-result-put"); sim::op("late put"); c->br->put(due, std::chrono::duration<double>(0.5)); }
		}
		sim::op("done");
	};
	br->enrol_consumer(con);
	auto ex = std::make_shared<GBrokerExecutorT<Item>>();
	double wf = 1.0 + 0.25 * sim::draw("wait_factor", 0, 8); if (mode == 1) { ex->setWaitFactor(-0.5 * sim::draw("no_timeout", 0, 2)); wf = 100; } else ex->setWaitFactor(wf);
	int maxres = sim::draw("max_resubmissions", 0, 4); ex->setMaxResubmissions(maxres);
	int perc = 0; if (mode == 2 || (mode == 0 && sim::draw("partial", 0, 3) == 3)) { perc = sim::draw("percentage", 1, 100); ex->setMinPartialReturnPercentage(perc); }
	ex->init();
	std::map<int, std::vector<Ptr>> handed_old; double maxwork = 0;
	std::set<int> seen_current; std::set<std::pair<int, std::string>> credited;
	int work_max = sim::draw("work_max_ms", 1, 500);
	for (int b = 0; b < nb; ++b) {
		int n = sim::draw("items", 1, 8); std::vector<Ptr> items; int due = 0;
		std::vector<bool> isdue(n);
		for (int i = 0; i < n; ++i) { int ms = sim::draw("work_ms", 0, work_max) ; maxwork = std::max(maxwork, ms / 1000.0); auto p = make(b * 100 + i, errors ? draw_kind("kind") : OK, ms); isdue[i] = sim::draw("due", 0, 7) > 0; if (!isdue[i]) p->set_processing_status(processingStatus::DO_IGNORE); else ++due; items.push_back(p); }
		budget[b] = due - (due * perc + 99) / 100;
		i64 t0 = sim::now(); sim::op("workOn(batch %d)", b);
		auto st = ex->workOn(items, resubmit, std::make_tuple(ITERATION_COUNTER_TYPE(0), false), "harness"); sim::op("idle");
		double el = (sim::now() - t0) / 1e9;
		// worst case per cycle: wait factor * (average return time * items + longest processing), average and longest bounded by what the workers need
		double worst = (late_ms / 1000.0 * (p_late > 0) + (maxwork + 1.0) * (n * (maxres + 2.0))) + 5 + sim::lost_time() / 1e9;
		double limit = (maxres + 1) * wf * (worst * (n + 1) + worst) * 4 + 60;
		if (el > limit) sim::violate("unbounded-wait", "evaluating batch %d took %.1f s (bound %.1f s)", b, el, limit);
		if ((int)items.size() != n) sim::violate("batch-size", "the batch has %zu items instead of %d", items.size(), n);
		int missing = 0, err = 0;
		for (int i = 0; i < n; ++i) {
			auto &p = items[i]; if (!p || p->id != b * 100 + i) sim::violate("item-misplaced", "position %d holds item %d", b * 100 + i, p ? p->id : -1);
			if (!isdue[i]) { if (rec(p->id).started || p->getProcessingStatus() != processingStatus::DO_IGNORE) sim::violate("excluded-item-processed", "excluded item %d", p->id); continue; }
			if (p->getProcessingStatus() == processingStatus::DO_PROCESS) { ++missing; continue; }
			check_returned(*p, "batch"); if (p->has_errors()) ++err; else credited.insert({p->id, p->getCurrentEvaluationID()});
		}
		if (mode == 1 && missing) sim::violate("gave-up-early", "%d items are missing although no time-out was requested and no item was lost", missing);
		if (perc && mode == 2 && (due - missing) * 100 < due * perc) sim::violate("gave-up-early", "%d of %d items came back, %d %% were requested", due - missing, due, perc);
		if (missing) sim::probe("incomplete-batch"); else sim::probe("complete-batch");
		if (st.is_complete != (missing == 0)) sim::violate("completeness-lie", "is_complete=%d with %d missing items", st.is_complete, missing);
		if (st.has_errors != (err > 0)) sim::violate("errors-lie", "has_errors=%d with %d failed items", st.has_errors, err);
		for (auto &o : ex->getOldWorkItems()) {
			sim::probe("old-item-handed-out");
			if (o->id / 100 >= b) sim::violate("old-item-of-current-batch", "item %d of batch %d is handed out as an old item", o->id, b);
			if (!o->is_processed()) sim::violate("old-item-unprocessed", "old item %d has status %s", o->id, o->getProcessingStatusAsStr().c_str());
			check_returned(*o, "old item");
			if (!credited.insert({o->id, o->getCurrentEvaluationID()}).second) sim::violate("result-credited-twice", "one evaluation of item %d was handed out twice", o->id);
			if ((int)o->getCollectionPosition() != o->id % 100) sim::violate("old-item-position", "old item %d claims position %d", o->id, (int)o->getCollectionPosition());
		}
	}
	ex->finalize(); ex.reset();
	bounded("broker->finalize()", 60 * SEC, [&] { br->finalize(); });
	sim::sample("workers=" + std::to_string(nw) + " batches=" + std::to_string(nb) + " wait_factor=" + std::to_string(wf));
}
SIM_SCENARIO(C14, unreliable, 5) { unreliable(0); }
SIM_SCENARIO(C14, no_timeout, 1) { unreliable(1); }
SIM_SCENARIO(C14, partial_return, 2) { unreliable(2); }
// Local worker threads that are merely slow: batches are closed by time-out, the same objects may come back later.
static void slow_local(bool resubmit) {
	auto br = GBROKER(Item);
	int nw = sim::draw("threads", 1, 4), nb = sim::draw("batches", 1, 4);
	auto con = std::make_shared<GStdThreadConsumerT<Item>>(nw); con->setCapableOfFullReturn(false); br->enrol_consumer(con);
	auto ex = std::make_shared<GBrokerExecutorT<Item>>(); ex->setWaitFactor(1.0 + 0.25 * sim::draw("wait_factor", 0, 8)); ex->setMaxResubmissions(sim::draw("max_resubmissions", 0, 4)); ex->init();
	std::set<std::pair<int, std::string>> credited;
	for (int b = 0; b < nb; ++b) {
		int n = sim::draw("items", 1, 8); std::vector<Ptr> items;
		for (int i = 0; i < n; ++i) items.push_back(make(b * 100 + i, OK, sim::draw("slow", 0, 4) == 4 ? sim::draw("slow_ms", 0, 8000) : sim::draw("work_ms", 0, 100)));
		sim::op("workOn(batch %d)", b); i64 t0 = sim::now();
		auto st = ex->workOn(items, resubmit, std::make_tuple(ITERATION_COUNTER_TYPE(0), false), "harness"); sim::op("idle");
		double lim = 3600 + 40 * (sim::lost_time() / 1e9); if (sim::now() - t0 > lim * 1e9) sim::violate("unbounded-wait", "evaluating batch %d took %.1f s (bound %.1f)", b, (sim::now() - t0) / 1e9, lim);
		int missing = 0;
		for (int i = 0; i < n; ++i) { sim::NoPreempt np; auto &p = items[i]; if (!p || p->id != b * 100 + i) sim::violate("item-misplaced", "position %d holds item %d", b * 100 + i, p ? p->id : -1); if (p->getProcessingStatus() == processingStatus::DO_PROCESS) ++missing; else { check_returned(*p, "batch"); credited.insert({p->id, p->getCurrentEvaluationID()}); } }
		if (st.is_complete && missing) sim::violate("completeness-lie", "is_complete with %d missing items", missing);
		for (auto &o : ex->getOldWorkItems()) { sim::NoPreempt np; if (o->id / 100 >= b) sim::violate("old-item-of-current-batch", "item %d", o->id); check_returned(*o, "old item"); }
		if (missing) sim::probe("incomplete-batch");
	}
	ex->finalize(); ex.reset();
	bounded("broker->finalize()", 60 * SEC, [&] { br->finalize(); });
}

SIM_SCENARIO(C14, slow_local, 3) { slow_local(false); }
// With resubmission the same object is queued twice and changed by two threads at once; see DESIGN.md
// (known finding). Never searched (weight 0), only its recorded history is replayed.
SIM_SCENARIO(C14, slow_local_resubmit, 0) { slow_local(true); }

// ------------------------------------------------------------------ C15
template <typename OA, typename IA> static Ptr trip(const Ptr &p) { std::stringstream s; { OA oa(s); const Item *q = p.get(); oa << boost::serialization::make_nvp("item", q); } Item *r = nullptr; { IA ia(s); ia >> boost::serialization::make_nvp("item", r); } return Ptr(r); }
SIM_SCENARIO(C15, lifecycle, 4) {
	// reference model of one item
	struct M { processingStatus ps; bool err = false; std::string text; std::vector<long> res; } m;
	int kind = sim::draw("kind", 0, NKINDS - 1), nres = 1 + sim::draw("n_results", 0, 2);
	auto it = std::make_shared<Item>(7, kind, 0, 2, nres);
	bool pre = sim::draw("pre", 0, 1) || kind == PRE, post = sim::draw("post", 0, 1) || kind == POST; it->add_processors(pre, post);
	m.ps = processingStatus::DO_IGNORE; m.res.assign(nres, 0);
	bool vpre = false, vpost = false; int steps = sim::draw("steps", 1, 14); int iter = 0, pos = 0, resub = 0, buf = 0;
	auto cleared = [&] { m.err = false; m.text.clear(); m.res.assign(nres, 0); };
	auto compare = [&](const char *op) {
		if (it->getProcessingStatus() != m.ps) sim::violate("wrong-status", "after %s the status is %s, expected %s (item %s)", op, it->getProcessingStatusAsStr().c_str(), psToStr(m.ps).c_str(), kindn[kind]);
		bool is_p = m.ps == processingStatus::PROCESSED, is_e = m.ps == processingStatus::EXCEPTION_CAUGHT || m.ps == processingStatus::ERROR_FLAGGED;
		if (it->is_processed() != is_p || it->has_errors() != is_e || it->is_ignored() != (m.ps == processingStatus::DO_IGNORE) || it->is_due_for_processing() != (m.ps == processingStatus::DO_PROCESS)) sim::violate("wrong-status", "after %s the status predicates disagree with the status %s", op, it->getProcessingStatusAsStr().c_str());
		for (int i = 0; i < nres; ++i) { bool threw = false; long v = 0; try { v = it->getStoredResult(i); } catch (gemfony_exception &) { threw = true; }
			if (threw == is_p) sim::violate("result-access", "after %s getStoredResult() %s with status %s", op, threw ? "refuses" : "succeeds", it->getProcessingStatusAsStr().c_str());
			if (is_p && v != m.res[i]) sim::violate("wrong-result", "after %s result %d is %ld, expected %ld", op, i, v, m.res[i]); }
		if (is_e && (it->getStoredErrorDescriptions().empty() || (!m.text.empty() && it->getStoredErrorDescriptions().find(m.text) == std::string::npos))) sim::violate("error-lost", "after %s the error description is '%.200s'", op, it->getStoredErrorDescriptions().c_str());
		if (!is_e && !it->getStoredErrorDescriptions().empty()) sim::violate("error-on-success", "after %s an error description is left: %.200s", op, it->getStoredErrorDescriptions().c_str());
		if (!it->intact() || (int)it->getIterationCounter() != iter || (int)it->getCollectionPosition() != pos || (int)it->getResubmissionCounter() != resub || (int)it->getBufferId() != buf) sim::violate("identification-lost", "after %s the item's content or identification changed", op);
	};
	for (int s = 0; s < steps; ++s) {
		int what = sim::draw("step", 0, 9);
		if (what <= 3) { // process
			Rec before = rec(7); bool ext = sim::draw("external", 0, 4) == 4;
			bool due = m.ps == processingStatus::DO_PROCESS, threw = false, gpe = false; long ret = 0;
			std::function<void(Item &)> f; if (ext) f = [](Item &i) { for (int k = 0; k < i.nres; ++k) i.reg(k, 55 + k); if (i.kind == STD) throw std::runtime_error(errtext(i.id)); if (i.kind == FLAG) i.flag(errtext(i.id)); if (i.kind == FOREIGN) throw Foreign{1}; if (i.kind == BOOST) throw BoostErr(errtext(i.id)); if (i.kind == GEM) throw gemfony_exception(errtext(i.id)); };
			sim::op("process"); std::string id0 = it->getCurrentEvaluationID();
			try { ret = it->process(f); } catch (g_processing_exception &) { threw = gpe = true; } catch (gemfony_exception &) { threw = true; }
			Rec &r = book().r[7];
			if (!due) { if (!threw) sim::violate("processed-when-not-due", "process() ran with status %s", psToStr(m.ps).c_str()); }
			else {
				bool fail_pre = kind == PRE && !vpre, fail_post = kind == POST && !vpost, fail_main = kind != OK && kind != PRE && kind != POST;
				if ((r.pre > before.pre) != (pre && !vpre)) sim::violate("pre-processor", "pre-processor ran: %d, expected %d", r.pre > before.pre, pre && !vpre);
				if (!fail_pre && !ext && r.started != before.started + 1) sim::violate("not-processed", "process_() was called %d times", r.started - before.started);
				if ((r.post > before.post) != (post && !vpost && !fail_pre && (!fail_main || kind == FLAG))) sim::violate("post-processor", "post-processor ran: %d", r.post > before.post);
				cleared();
				if (fail_pre || fail_main || fail_post) { m.ps = kind == FLAG ? processingStatus::ERROR_FLAGGED : processingStatus::EXCEPTION_CAUGHT; m.text = kind == FOREIGN ? "" : errtext(7); if (!gpe) sim::violate("failure-not-signalled", "process() of a failing item (%s) did not throw a processing exception", kindn[kind]); }
				else { m.ps = processingStatus::PROCESSED; for (int i = 0; i < nres; ++i) m.res[i] = ext ? 55 + i : result(7, r.started - 1) + 100000000L * i; if (threw) sim::violate("success-signalled-as-failure", "process() of a succeeding item threw"); if (ret != m.res[0]) sim::violate("wrong-return", "process() returned %ld instead of %ld", ret, m.res[0]); }
				if (it->getCurrentEvaluationID() == id0) sim::violate("evaluation-id", "a new evaluation did not get a new id");
			}
			compare("process()");
		} else if (what <= 5) { // status changes
			processingStatus t[] = {processingStatus::DO_IGNORE, processingStatus::DO_PROCESS, processingStatus::PROCESSED, processingStatus::EXCEPTION_CAUGHT, processingStatus::ERROR_FLAGGED};
			processingStatus to = t[sim::draw("target", 0, 4)]; bool ok = to == m.ps || ((to == processingStatus::DO_IGNORE || to == processingStatus::DO_PROCESS));
			bool threw = false; try { it->set_processing_status(to); } catch (gemfony_exception &) { threw = true; }
			if (threw == ok) sim::violate("status-transition", "setting the status from %s to %s %s", psToStr(m.ps).c_str(), psToStr(to).c_str(), threw ? "is refused" : "is accepted");
			if (ok && to != m.ps) { m.ps = to; cleared(); }
			compare("set_processing_status()");
		} else if (what == 6) { iter = sim::draw("iter", 0, 99); pos = sim::draw("pos", 0, 99); resub = sim::draw("resub", 0, 5); buf = sim::draw("buf", 0, 9); it->setIterationCounter(iter); it->setCollectionPosition(pos); it->setResubmissionCounter(resub); it->setBufferId(buf); compare("setting identification"); }
		else if (what == 7) { vpre = sim::draw("veto_pre", 0, 1); vpost = sim::draw("veto_post", 0, 1); it->vetoPreProcessing(vpre); it->vetoPostProcessing(vpost); compare("veto"); }
		else { // round trip
			std::string ev = it->getCurrentEvaluationID(), er = it->getStoredErrorDescriptions();
			switch (sim::draw("format", 0, 3)) { case 0: it = trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(it); break; case 1: it = trip<boost::archive::xml_oarchive, boost::archive::xml_iarchive>(it); break; case 2: it = trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(it); break; default: it = std::make_shared<Item>(*it); }
			if (it->getCurrentEvaluationID() != ev || it->getStoredErrorDescriptions() != er) sim::violate("round-trip", "evaluation id or error description changed in a round trip");
			if (it->mayBePreProcessed() == vpre || it->mayBePostProcessed() == vpost) sim::violate("round-trip", "veto flags changed in a round trip");
			compare("round trip");
		}
	}
	sim::hash((int)m.ps * 100 + kind); sim::sample(std::string("kind=") + kindn[kind] + " steps=" + std::to_string(steps));
}
// Items processed by concurrent worker threads tell the truth.
SIM_SCENARIO(C15, concurrent, 2) {
	int n = sim::draw("items", 1, 10), nt = sim::draw("threads", 1, 4);
	std::vector<Ptr> items; for (int i = 0; i < n; ++i) items.push_back(make(i, draw_kind("kind", 2), (int)sim::draw("work_ms", 0, 20) - 10));
	h::Cell<int> next; h::Threads T;
	for (int t = 0; t < nt; ++t) T.go("worker", [&] { for (;;) { int i = next.add(1) - 1; if (i >= n) break; auto p = items[i]; if (sim::draw("copy", 0, 2) == 2) { p = trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(p); } try { p->process(); if (p->kind != OK) sim::violate("failure-not-signalled", "process() of failing item %d (%s) returned", p->id, kindn[p->kind]); } catch (g_processing_exception &) { if (p->kind == OK) sim::violate("success-signalled-as-failure", "item %d", p->id); } check_returned(*p, "worker"); if (sim::draw("copy", 0, 2) == 2) { p = trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(p); check_returned(*p, "after a round trip"); } } });
	T.join();
	std::set<std::string> ids; for (auto &p : items) if (p->is_processed() || p->has_errors()) if (!ids.insert(p->getCurrentEvaluationID()).second) sim::violate("evaluation-id", "two evaluations share an id");
}
