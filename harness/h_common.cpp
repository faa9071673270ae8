// C01-C07: bounded buffer, thread pool, singletons/options, barrier, logger.
#include "util.hpp"
#include <deque>
#include <fstream>
#include <future>
#include <iostream>
#include <boost/exception/all.hpp>
#include "common/GBoundedBufferT.hpp"
#include "common/GThreadPool.hpp"
#include "common/GBarrier.hpp"
#include "common/GSingletonT.hpp"
#include "common/GGlobalOptionsT.hpp"
#include "common/GLogger.hpp"

using namespace Gem::Common;
using sim::MS; using sim::SEC; using sim::US;
static struct Init { Init() { sim::declare_components(
	"Geneva common library (bounded buffer, thread pool, thread group, barrier, singleton, option store, logger), libstdc++, boost::asio scheduler: real, unmodified",
	"pthread/futex scheduling, clocks, sleeping, file writes: simulator"); } } init_;

// ------------------------------------------------------------------ C01 / C02
struct Item { long v = -1; Item() = default; explicit Item(long x) : v(x) {}
	Item(const Item &) = default; Item &operator=(const Item &) = default;
	Item(Item &&o) noexcept : v(o.v) { o.v = -2; } Item &operator=(Item &&o) noexcept { v = o.v; o.v = -2; return *this; } };

enum K { PUSH_OK, PUSH_FAIL, POP_OK, POP_FAIL, SIZE, EMPTY, NOTEMPTY, SPACE, PUSH_TIMEOUT, POP_TIMEOUT };
struct QModel {
	size_t cap; std::deque<long> q;
	bool apply(const h::Op &o) {
		switch (o.kind) {
		case PUSH_OK: if (cap && q.size() >= cap) return false; q.push_back(o.arg); return true;
		case PUSH_FAIL: case PUSH_TIMEOUT: return cap && q.size() >= cap;
		case POP_OK: if (q.empty() || q.front() != o.res) return false; q.pop_front(); return true;
		case POP_FAIL: case POP_TIMEOUT: return q.empty();
		case SIZE: return (long)q.size() == o.res;
		case EMPTY: return (long)q.empty() == o.res;
		case NOTEMPTY: return (long)!q.empty() == o.res;
		case SPACE: return (long)(cap - q.size()) == o.res;
		}
		return false;
	}
	std::string key() const { std::string s; for (auto x : q) s += std::to_string(x) + ","; return s; }
};
static const char *kn[] = {"push+", "push-full", "pop+", "pop-empty", "size", "empty", "notempty", "space", "push-timeout", "pop-timeout"};
static std::string show(const std::vector<h::Op> &v) {
	std::ostringstream o;
	for (auto &x : v) o << "t" << x.thread << ":" << kn[x.kind] << "(" << x.arg << ")=" << x.res << "[" << x.inv << "," << x.ret << "] ";
	return o.str();
}

template <typename Q> bool do_push(Q &q, int variant, long v, int ms, bool &timed) {
	std::chrono::duration<double> d(ms / 1000.0);
	timed = false;
	Item it(v); bool r = true;
	switch (variant) {
	case 0: r = q.try_push_copy(it); break;
	case 1: r = q.try_push_move(std::move(it)); break;
	case 2: q.push_and_block_copy(it); break;
	case 3: q.push_and_block_move(std::move(it)); break;
	case 4: timed = true; r = q.push_and_wait_copy(it, d); break;
	default: timed = true; r = q.push_and_wait_move(std::move(it), d);
	}
	// an item that was not accepted, or only copied, remains with the caller
	if ((!r || variant % 2 == 0) && it.v != v) sim::violate("item-lost-by-caller", "a %s insertion left the caller with item %ld instead of %ld", r ? "copying" : "failed", it.v, v);
	return r;
}
template <typename Q> bool do_pop(Q &q, int variant, long &v, int ms, bool &timed) {
	std::chrono::duration<double> d(ms / 1000.0);
	timed = false;
	Item it(-7); bool r = true;
	switch (variant) {
	case 0: r = q.try_pop_copy(it); break;
	case 1: r = q.try_pop_move(it); break;
	case 2: q.pop_and_block_copy(it); break;
	case 3: q.pop_and_block_move(it); break;
	case 4: timed = true; r = q.pop_and_wait_copy(it, d); break;
	default: timed = true; r = q.pop_and_wait_move(it, d);
	}
	v = it.v;
	if (!r && v != -7) sim::violate("item-changed-on-failure", "a failed removal changed the caller's item to %ld", v);
	return r;
}
static const char *pushn[] = {"try_push_copy", "try_push_move", "push_block_copy", "push_block_move", "push_wait_copy", "push_wait_move"};
static const char *popn[] = {"try_pop_copy", "try_pop_move", "pop_block_copy", "pop_block_move", "pop_wait_copy", "pop_wait_move"};

template <size_t CAP> void history() {
	using Q = GBoundedBufferT<Item, CAP>;
	auto q = std::make_shared<Q>();
	std::vector<h::Op> hist; hist.reserve(64);
	h::Cell<int> running;
	int nt = sim::draw("threads", 2, 4), maxops = sim::draw("max_ops", 1, 4);
	bool queries = sim::swarm("queries");
	long next = 100;
	struct Plan { int what, variant, ms; long v; };
	std::vector<std::vector<Plan>> plans(nt);
	for (auto &p : plans) {
		int n = 1 + sim::draw("ops", 0, maxops - 1);
		for (int i = 0; i < n; ++i) {
			Plan x; int w = sim::draw("what", 0, queries ? 10 : 8);
			x.what = w <= 4 ? 0 : w <= 8 ? 1 : 2;
			x.variant = sim::draw("variant", 0, 5); x.ms = sim::draw("timeout_ms", 0, 30); x.v = ++next;
			p.push_back(x);
		}
	}
	int pre = CAP ? sim::draw("prefill", 0, CAP) : sim::draw("prefill", 0, 2);
	auto add = [&](h::Op o) { sim::NoPreempt np; hist.push_back(o); sim::hash(o.kind * 1000 + o.arg * 7 + o.res); };
	auto exec = [&](const Plan &x, int t) {
		h::Op o{0, 0, 0, 0, 0, t};
		bool timed;
		if (x.what == 0) {
			sim::op("%s(%ld)", pushn[x.variant], x.v);
			o.arg = x.v; o.inv = sim::seq(); bool r = do_push(*q, x.variant, x.v, x.ms, timed); o.ret = sim::seq();
			o.kind = r ? PUSH_OK : timed ? PUSH_TIMEOUT : PUSH_FAIL;
		} else if (x.what == 1) {
			sim::op("%s", popn[x.variant]);
			long v; o.inv = sim::seq(); bool r = do_pop(*q, x.variant, v, x.ms, timed); o.ret = sim::seq();
			o.kind = r ? POP_OK : timed ? POP_TIMEOUT : POP_FAIL; o.res = r ? v : 0;
		} else {
			sim::op("query");
			int w = x.variant % (CAP ? 4 : 3);
			o.inv = sim::seq();
			if (w == 0) { o.kind = SIZE; o.res = q->size(); } else if (w == 1) { o.kind = EMPTY; o.res = q->empty(); }
			else if (w == 2) { o.kind = NOTEMPTY; o.res = q->isNotEmpty(); } else { o.kind = SPACE; o.res = q->getRemainingSpace(); }
			o.ret = sim::seq();
		}
		sim::op("idle");
		add(o);
	};
	for (int i = 0; i < pre; ++i) exec(Plan{0, 0, 0, ++next}, 0);
	running.set(nt);
	h::Threads T;
	for (int t = 0; t < nt; ++t) T.go("caller", [&, t] { for (auto &x : plans[t]) exec(x, t + 1); running.add(-1); });
	// callers left blocked are released by matching operations of the main thread
	int tries = 0;
	while (!sim::wait_until([&] { return running.v == 0; }, 100 * MS)) {
		if (++tries > 80) {
			sim::violate("caller-stuck", "a blocked call never returned although %d matching operations were done; %s", tries, show(hist).c_str());
		}
		sim::probe("helper-operation");
		exec(Plan{tries % 2, 2 * (tries / 2 % 2) /*0: try, 2: block*/ == 0 ? (tries / 4) % 2 : (tries / 4) % 2, 0, ++next}, 0);
		if (CAP && hist.back().kind == PUSH_FAIL && hist.size() > 50) break;
		if (hist.size() > 58) break;
	}
	if (running.get()) { sim::discard("history too long"); }
	T.join();
	for (;;) { exec(Plan{1, 0, 0, 0}, 0); if (hist.back().kind != POP_OK || hist.size() > 60) break; }
	std::sort(hist.begin(), hist.end(), [](const h::Op &a, const h::Op &b) { return a.inv < b.inv; });
	if (sim::verbose()) sim::note("history %s", show(hist).c_str());
	sim::sample("cap=" + std::to_string(CAP) + " " + show(hist).substr(0, 300));
	if (!h::linearizable(hist, QModel{CAP, {}})) sim::violate("not-linearizable", "capacity %zu: %s", CAP, show(hist).c_str());
}
SIM_SCENARIO(C01, history, 4) {
	switch (sim::draw("capacity", 0, 4)) { case 0: history<0>(); break; case 1: history<1>(); break; case 2: history<2>(); break; case 3: history<3>(); break; default: history<5>(); }
}

template <size_t CAP> void stress() {
	using Q = GBoundedBufferT<Item, CAP>;
	auto q = std::make_shared<Q>();
	int np = sim::draw("producers", 1, 4), nc = sim::draw("consumers", 1, 4), per = sim::draw("per_producer", 1, 12);
	h::Cell<int> remaining; remaining.set(np * per);
	std::vector<std::vector<long>> got(nc);
	h::Cell<bool> stop; long maxsize = 0;
	h::Threads T;
	for (int p = 0; p < np; ++p) T.go("producer", [&, p] {
		for (int i = 0; i < per; ++i) {
			long v = p * 1000 + i; bool timed;
			for (;;) { int var = sim::draw("pv", 0, 5); sim::op("%s", pushn[var]); if (do_push(*q, var, v, sim::draw("ms", 0, 20), timed)) break; sim::yield_point(); }
		}
		sim::op("done");
	});
	for (int c = 0; c < nc; ++c) T.go("consumer", [&, c] {
		while (remaining.get() > 0) {
			long v; bool timed; int var = sim::draw("cv", 0, 3); if (var >= 2) var += 2; // no unbounded blocking here
			sim::op("%s", popn[var]);
			if (do_pop(*q, var, v, sim::draw("ms", 0, 20), timed)) { remaining.add(-1); sim::NoPreempt np2; got[c].push_back(v); }
			else sim::yield_point();
		}
		sim::op("done");
	});
	T.go("monitor", [&] { while (remaining.get() > 0) { long s = q->size(); if (s > maxsize) maxsize = s; sim::sleep_ns(1 * MS); } });
	T.join();
	if (CAP && maxsize > (long)CAP) sim::violate("capacity-exceeded", "size %ld above capacity %zu", maxsize, CAP);
	std::map<long, int> cnt; 
	for (auto &g : got) { std::map<long, long> last; for (auto v : g) { cnt[v]++; long p = v / 1000; if (last.count(p) && last[p] >= v) sim::violate("not-fifo", "a consumer saw item %ld after %ld of the same producer", v, last[p]); last[p] = v; } }
	for (int p = 0; p < np; ++p) for (int i = 0; i < per; ++i) if (cnt[p * 1000 + i] != 1) sim::violate("item-lost-or-duplicated", "item %d delivered %d times", p * 1000 + i, cnt[p * 1000 + i]);
	if ((int)cnt.size() != np * per) sim::violate("item-invented", "%zu distinct items delivered, %d inserted", cnt.size(), np * per);
	if (q->size() != 0 || !q->empty()) sim::violate("size-wrong", "buffer not empty at the end");
}
SIM_SCENARIO(C01, stress, 2) {
	switch (sim::draw("capacity", 0, 3)) { case 0: stress<0>(); break; case 1: stress<1>(); break; case 2: stress<2>(); break; default: stress<4>(); }
}

// All callers block (or wait with an enormous limit): any lost wake-up is a deadlock or a timeout.
template <size_t CAP> void wakeups() {
	using Q = GBoundedBufferT<Item, CAP>;
	auto q = std::make_shared<Q>();
	int np = sim::draw("producers", 1, 3), nc = sim::draw("consumers", 1, 3), per = sim::draw("per_producer", 1, 6);
	int total = np * per; h::Cell<int> tickets; tickets.set(total);
	int pmask = 1 + sim::draw("push_mask", 0, 62), cmask = 1 + sim::draw("pop_mask", 0, 62);
	h::Threads T;
	const int BIG = 3600 * 1000;
	auto choose = [](const char *n, int mask) { int v; int k = 0; do { v = sim::draw(n, 0, 5); } while (!(mask >> v & 1) && ++k < 40); if (!(mask >> v & 1)) for (v = 0; !(mask >> v & 1);) ++v; return v; };
	for (int p = 0; p < np; ++p) T.go("producer", [&, p] {
		for (int i = 0; i < per; ++i) {
			int var = choose("pv", pmask); bool timed; sim::op("%s", pushn[var]);
			for (int k = 0; ; ++k) {
				if (do_push(*q, var, p * 1000 + i, BIG, timed)) break;
				if (timed) sim::violate("push-not-woken", "a timed insertion with a limit of one hour failed although consumers were running");
				sim::sleep_ns(10 * MS);
				if (k > 20) { var = 2; sim::op("%s", pushn[var]); }
			}
		}
		sim::op("done");
	});
	for (int c = 0; c < nc; ++c) T.go("consumer", [&] {
		while (tickets.add(-1) >= 0) {
			int var = choose("cv", cmask); bool timed; long v; sim::op("%s", popn[var]);
			for (int k = 0; ; ++k) {
				if (do_pop(*q, var, v, BIG, timed)) break;
				if (timed) sim::violate("pop-not-woken", "a timed removal with a limit of one hour failed although producers were running");
				sim::sleep_ns(10 * MS);
				if (k > 20) { var = 2; sim::op("%s", popn[var]); }
			}
		}
		sim::op("done");
	});
	T.join();
	if (q->size()) sim::violate("size-wrong", "buffer not empty at the end");
	if (sim::now() - 1000000 * SEC > 1800 * SEC) sim::violate("late-wakeup", "the exchange needed %.1f simulated seconds: a waiter slept until its time limit", (sim::now() - 1000000 * SEC) / 1e9);
}
SIM_SCENARIO(C02, wakeups, 4) {
	sim::cfg.p_early = 0; // one-hour limits must not be used up artificially
	switch (sim::draw("capacity", 0, 3)) { case 0: wakeups<1>(); break; case 1: wakeups<2>(); break; case 2: wakeups<0>(); break; default: wakeups<4>(); }
}
// K waiters, K matching operations: every waiter must be released promptly.
template <size_t CAP> void burst(bool producers_wait) {
	using Q = GBoundedBufferT<Item, CAP>;
	auto q = std::make_shared<Q>();
	int k = sim::draw("waiters", 1, 4); bool timed;
	if (producers_wait) for (size_t i = 0; i < CAP; ++i) do_push(*q, 0, i, 0, timed);
	h::Cell<int> done; h::Cell<int> started;
	h::Threads T;
	for (int i = 0; i < k; ++i) T.go(producers_wait ? "waiting-producer" : "waiting-consumer", [&, i] {
		started.add(1);
		int var = 2 + sim::draw("wv", 0, 3); bool tm; long v; sim::op("%s", producers_wait ? pushn[var] : popn[var]);
		bool r = producers_wait ? do_push(*q, var, 100 + i, 3600 * 1000, tm) : do_pop(*q, var, v, 3600 * 1000, tm);
		if (!r) sim::violate("waiter-not-woken", "%s timed out after an hour although its condition became true", producers_wait ? pushn[var] : popn[var]);
		done.add(1); sim::op("done");
	});
	if (sim::draw("let_block", 0, 3)) sim::sleep_ns(50 * MS);
	for (int i = 0; i < k; ++i) {
		int var = sim::draw("mv", 0, 5); long v; bool tm; sim::op("%s", producers_wait ? popn[var] : pushn[var]);
		int tries = 0;
		while (!(producers_wait ? do_pop(*q, var, v, 1000, tm) : do_push(*q, var, 500 + i, 1000, tm))) { sim::sleep_ns(5 * MS); if (++tries > 50) sim::violate("matching-operation-fails", "%s keeps failing", producers_wait ? popn[var] : pushn[var]); }
		if (sim::draw("gap", 0, 1)) sim::sleep_ns(sim::draw("gap_ms", 0, 20) * MS);
	}
	sim::op("waiting for the waiters");
	sim::i64 t0 = sim::now();
	if (!sim::wait_until([&] { return done.v == k; }, 60 * SEC)) sim::violate("waiter-not-woken", "%d of %d blocked callers still blocked %.0f s after their condition became true", k - done.get(), k, (sim::now() - t0) / 1e9);
	T.join();
}
SIM_SCENARIO(C02, burst, 4) {
	sim::cfg.p_early = 0;
	bool p = sim::swarm("producers_wait");
	switch (sim::draw("capacity", 0, 2)) { case 0: burst<1>(p); break; case 1: burst<2>(p); break; default: burst<4>(p); }
}
// Time limits of timed calls.
template <size_t CAP> void limits() {
	using Q = GBoundedBufferT<Item, CAP>;
	auto q = std::make_shared<Q>();
	h::Threads T; int n = sim::draw("threads", 1, 3); bool tmp;
	bool full = sim::swarm("full");
	if (full) for (size_t i = 0; i < CAP; ++i) do_push(*q, 0, i, 0, tmp);
	for (int i = 0; i < n; ++i) T.go("timed", [&, i] {
		for (int k = 0; k < 3; ++k) {
			int ms = sim::draw("ms", 0, 400), var = 4 + sim::draw("var", 0, 1); bool push = full ? sim::draw("push", 0, 4) > 0 : sim::draw("push", 0, 4) == 4; bool tm; long v;
			sim::op("%s(%d ms)", push ? pushn[var] : popn[var], ms);
			sim::i64 t0 = sim::now(); bool r = push ? do_push(*q, var, 900 + i, ms, tm) : do_pop(*q, var, v, ms, tm); sim::i64 el = sim::now() - t0;
			if (!r && el < (ms - 1) * MS) sim::violate("gave-up-early", "%s with limit %d ms gave up after %.3f ms", push ? pushn[var] : popn[var], ms, el / 1e6);
			if (el > ms * MS + 200 * MS) sim::violate("overran-limit", "%s with limit %d ms took %.3f ms", push ? pushn[var] : popn[var], ms, el / 1e6);
			if (!r) sim::probe("timed-out"); else sim::probe("timed-success");
		}
	});
	T.join();
}
SIM_SCENARIO(C02, limits, 2) {
	sim::cfg.p_early = 0; sim::cfg.p_stall = 0;
	if (sim::swarm("clock_steps")) sim::clock_faults(0.02);
	switch (sim::draw("capacity", 0, 2)) { case 0: limits<1>(); break; case 1: limits<2>(); break; default: limits<3>(); }
}

// ------------------------------------------------------------------ C03 / C04
struct Foreign { int code; };
struct BoostErr : virtual std::exception, virtual boost::exception { std::string w; BoostErr(std::string s) : w(s) {} ~BoostErr() noexcept override = default; const char *what() const noexcept override { return w.c_str(); } };
struct PoolBook {
	h::Cell<int> executed[400]; h::Cell<int> running; int maxrun = 0; h::Cell<bool> accepted[400]; h::Cell<bool> finished[400];
	void enter(int id) { sim::NoPreempt np; executed[id].v++; running.v++; if (running.v > maxrun) maxrun = running.v; }
	void leave(int id) { sim::NoPreempt np; running.v--; finished[id].v = true; }
};
static std::string msg_of(int id) { return "task-error-" + std::to_string(id) + "#"; }
static void body(std::shared_ptr<PoolBook> b, int id, int kind, int work) {
	b->enter(id);
	for (int i = 0; i < work; ++i) { if (i % 2) sim::sleep_ns(sim::draw("work_ms", 0, 20) * MS); else sim::yield_point(); }
	b->leave(id);
	switch (kind) {
	case 1: throw std::runtime_error(msg_of(id));
	case 2: throw gemfony_exception(msg_of(id));
	case 3: throw Foreign{id};
	case 4: throw BoostErr(msg_of(id));
	default: break;
	}
}
struct Sub { int id, kind; bool isvoid; std::future<int> fi; std::future<void> fv; };
static Sub submit(GThreadPool &p, std::shared_ptr<PoolBook> b, int id) {
	Sub s; s.id = id; s.isvoid = sim::draw("void", 0, 1); s.kind = sim::draw("kind", 0, 7); if (s.kind > 4) s.kind = 0;
	int work = sim::draw("work", 0, 3), kind = s.kind;
	sim::op("async_schedule(%d)", id);
	if (s.isvoid) s.fv = p.async_schedule([b, id, kind, work] { body(b, id, kind, work); });
	else s.fi = p.async_schedule([b, id, kind, work] { body(b, id, kind, work); return id * 7 + 1; });
	b->accepted[id].set(true);
	return s;
}
static void verify(Sub &s) {
	const char *v = s.isvoid ? "void" : "value";
	sim::op("future.get(%d)", s.id);
	int got = 0; bool threw = false; std::string what; bool foreign = false;
	try { if (s.isvoid) s.fv.get(); else got = s.fi.get(); }
	catch (Foreign &f) { threw = foreign = true; if (f.code != s.id) sim::violate("wrong-error", "task %d delivered the error of task %d", s.id, f.code); }
	catch (std::exception &e) { threw = true; what = e.what(); }
	catch (...) { threw = true; what = "unknown"; }
	if (s.kind == 0) {
		if (threw) sim::violate("future-error-on-success", "the future of successful %s task %d reports an error: %.200s", v, s.id, what.c_str());
		if (!s.isvoid && got != s.id * 7 + 1) sim::violate("wrong-value", "task %d returned %d instead of %d", s.id, got, s.id * 7 + 1);
	} else {
		if (!threw) sim::violate("error-lost", "%s task %d failed (kind %d) but its future reports success", v, s.id, s.kind);
		if (s.kind == 3 ? !foreign : what.find(msg_of(s.id)) == std::string::npos) sim::violate("wrong-error", "%s task %d (kind %d): future carries a different error: %.200s", v, s.id, s.kind, what.c_str());
	}
}
SIM_SCENARIO(C03, futures, 4) {
	int n = sim::draw("pool", 1, 4), ns = sim::draw("submitters", 1, 3), per = sim::draw("tasks", 1, 6);
	bool resize = sim::draw("resize", 0, 3) == 3, waitcall = sim::swarm("wait");
	auto b = std::make_shared<PoolBook>(); int maxn = n;
	auto pool = std::make_unique<GThreadPool>(n);
	std::vector<std::vector<Sub>> subs(ns);
	h::Threads T;
	for (int s = 0; s < ns; ++s) { subs[s].reserve(per); T.go("submitter", [&, s] {
		for (int i = 0; i < per; ++i) subs[s].push_back(submit(*pool, b, s * 50 + i));
		if (sim::draw("verify_early", 0, 1)) { for (auto &x : subs[s]) verify(x); subs[s].clear(); }
		sim::op("done");
	}); }
	if (waitcall) T.go("waiter", [&] { sim::sleep_ns(sim::draw("wait_at", 0, 30) * MS); sim::op("wait"); pool->wait(); sim::op("done"); });
	if (resize) { int m = sim::draw("newsize", 1, 5); maxn = std::max(maxn, m); T.go("resizer", [&, m] { sim::sleep_ns(sim::draw("resize_at", 0, 30) * MS); sim::op("setNThreads(%d)", m); pool->setNThreads(m); sim::op("done"); }); }
	T.join();
	for (auto &v : subs) for (auto &x : v) verify(x);
	sim::op("~GThreadPool");
	pool.reset();
	for (int s = 0; s < ns; ++s) for (int i = 0; i < per; ++i) if (b->executed[s * 50 + i].v != 1) sim::violate("not-exactly-once", "task %d executed %d times", s * 50 + i, b->executed[s * 50 + i].v);
	if (b->maxrun > maxn) sim::violate("too-many-concurrent", "%d tasks ran at once in a pool of %d threads", b->maxrun, maxn);
}
// a slow task must not hold up the others as long as threads are free
SIM_SCENARIO(C03, isolation, 2) {
	int n = sim::draw("pool", 2, 4), m = sim::draw("tasks", 2, 8);
	auto b = std::make_shared<PoolBook>();
	sim::cfg.p_stall = 0;
	GThreadPool pool(n);
	h::Cell<bool> release;
	std::vector<std::future<void>> slow; std::vector<Sub> subs;
	for (int i = 0; i < n - 1; ++i) { int id = 300 + i; slow.push_back(pool.async_schedule([&release, b, id] { b->enter(id); while (!release.get()) sim::sleep_ns(5 * MS); b->leave(id); throw std::runtime_error("slow"); })); }
	for (int i = 0; i < m; ++i) subs.push_back(submit(pool, b, i));
	for (auto &s : subs) verify(s);     // would block for ever if the stuck tasks held up the free thread
	release.set(true);
	for (auto &f : slow) { bool t = false; sim::op("slow.get"); try { f.get(); } catch (std::runtime_error &e) { t = std::string(e.what()) == "slow"; } if (!t) sim::violate("error-lost", "error of a slow task lost"); }
	if (b->maxrun > n) sim::violate("too-many-concurrent", "%d tasks ran at once in a pool of %d threads", b->maxrun, n);
}

SIM_SCENARIO(C04, wait_resize, 4) {
	int n = sim::draw("pool", 1, 3), ns = sim::draw("submitters", 0, 3), per = sim::draw("tasks", 1, 5), nctl = sim::draw("controllers", 1, 3);
	auto b = std::make_shared<PoolBook>();
	auto pool = std::make_unique<GThreadPool>(n);
	h::Threads T;
	for (int s = 0; s < ns; ++s) T.go("submitter", [&, s] {
		for (int i = 0; i < per; ++i) { if (sim::draw("gap", 0, 2) == 2) sim::sleep_ns(sim::draw("gap_ms", 0, 15) * MS); submit(*pool, b, s * 50 + i); }
		sim::op("done");
	});
	for (int c = 0; c < nctl; ++c) T.go("controller", [&] {
		int k = sim::draw("controls", 1, 3);
		for (int i = 0; i < k; ++i) {
			sim::sleep_ns(sim::draw("at", 0, 25) * MS);
			if (sim::draw("ctl", 0, 1)) { int m = sim::draw("size", 1, 5); sim::op("setNThreads(%d)", m); pool->setNThreads(m); }
			else {
				std::vector<int> before; { sim::NoPreempt np; for (int j = 0; j < 400; ++j) if (b->accepted[j].v) before.push_back(j); }
				sim::op("wait"); pool->wait();
				for (int j : before) if (!b->finished[j].get()) sim::violate("wait-returned-early", "wait() returned although task %d, accepted before the call, had not finished", j);
				sim::probe("wait-returned");
			}
		}
		sim::op("done");
	});
	T.join();
	// final size: exactly m tasks can be inside at the same time
	int m = sim::draw("final", 1, 5);
	sim::op("setNThreads(%d)", m); pool->setNThreads(m);
	auto bb = std::make_shared<PoolBook>(); h::Cell<int> in, maxin; h::Cell<bool> go;
	std::vector<std::future<int>> fs;
	for (int i = 0; i < m + 2; ++i) fs.push_back(pool->async_schedule([&] { int x = in.add(1); { sim::NoPreempt np; if (x > maxin.v) maxin.v = x; } while (!go.get()) sim::sleep_ns(1 * MS); in.add(-1); return 1; }));
	sim::op("rendezvous of %d tasks", m);
	bool all = sim::wait_until([&] { return in.v >= m; }, 120 * SEC);
	if (!all) sim::violate("threads-missing", "after resizing to %d threads only %d tasks run concurrently", m, in.get());
	sim::sleep_ns(50 * MS);
	if (maxin.get() > m) sim::violate("threads-too-many", "after resizing to %d threads %d tasks run concurrently", m, maxin.get());
	if ((int)pool->getNThreads() != m) sim::violate("thread-count-wrong", "getNThreads() reports %u after resizing to %d", pool->getNThreads(), m);
	go.set(true);
	for (auto &f : fs) { sim::op("future.get"); f.get(); }
	sim::op("~GThreadPool");
	pool.reset();
	for (int s = 0; s < ns; ++s) for (int i = 0; i < per; ++i) if (b->executed[s * 50 + i].v != 1) sim::violate("task-lost", "task %d executed %d times", s * 50 + i, b->executed[s * 50 + i].v);
}
SIM_SCENARIO(C04, destroy, 3) {
	int n = sim::draw("pool", 1, 4), per = sim::draw("tasks", 0, 8), rounds = sim::draw("rounds", 1, 3);
	for (int r = 0; r < rounds; ++r) {
		auto b = std::make_shared<PoolBook>();
		{
			GThreadPool pool(n);
			int grow = sim::draw("presize", 0, 4); if (grow) { sim::op("setNThreads(%d)", grow); pool.setNThreads(grow); }
			std::vector<Sub> subs;
			for (int i = 0; i < per; ++i) subs.push_back(submit(pool, b, i));
			int act = sim::draw("then", 0, 3);
			if (act == 1) { sim::op("wait"); pool.wait(); for (int i = 0; i < per; ++i) if (!b->finished[i].get()) sim::violate("wait-returned-early", "task %d not finished after wait()", i); }
			if (act == 2) { int m = sim::draw("size", 1, 5); sim::op("setNThreads(%d)", m); pool.setNThreads(m); if (per && (int)pool.getNThreads() != m) sim::violate("thread-count-wrong", "getNThreads() reports %u after resizing to %d", pool.getNThreads(), m); subs.push_back(submit(pool, b, 200)); }
			sim::op("~GThreadPool");
		}
		for (int i = 0; i < per; ++i) if (b->executed[i].v != 1 || !b->finished[i].v) sim::violate("destroyed-before-done", "task %d executed %d times, finished %d when the pool was gone", i, b->executed[i].v, (int)b->finished[i].v);
	}
	if (sim::live_threads() != 1) sim::violate("threads-left", "%d threads still exist after the pool was destroyed", sim::live_threads() - 1);
}

// ------------------------------------------------------------------ C05
template <int N> struct Single {
	static inline int built = 0, destroyed = 0;
	long magic = 0;
	Single() { { sim::NoPreempt np; ++built; } for (int i = 0; i < 3; ++i) sim::yield_point(); magic = 4711; }
	~Single() { sim::NoPreempt np; ++destroyed; magic = -1; }
};
SIM_SCENARIO(C05, singleton, 3) {
	using S = Single<1>; using G = GSingletonT<S>;
	int rounds = sim::draw("rounds", 1, 3);
	for (int r = 0; r < rounds; ++r) {
		int n = sim::draw("threads", 2, 4); std::vector<std::shared_ptr<S>> p(n);
		S::built = S::destroyed = 0;
		h::Threads T;
		for (int i = 0; i < n; ++i) T.go("user", [&, i] {
			int k = sim::draw("uses", 1, 3);
			for (int j = 0; j < k; ++j) {
				sim::op("Instance"); auto q = G::Instance(0); sim::op("idle");
				if (!q) sim::violate("null-instance", "Instance returned an empty pointer");
				if (q.use_count() == 0) sim::violate("unowned-instance", "Instance returned a pointer without ownership");
				if (q->magic != 4711) sim::violate("half-constructed", "Instance returned an object under construction");
				sim::NoPreempt np; p[i] = q;
			}
		});
		T.join();
		for (auto &x : p) if (x != p[0]) sim::violate("different-instances", "two callers obtained different instances");
		if (S::built != 1) sim::violate("built-more-than-once", "%d instances were constructed", S::built);
		if (S::destroyed) sim::violate("destroyed-in-use", "the instance was destroyed while in use");
		G::Instance(1);
		if (S::destroyed) sim::violate("destroyed-in-use", "resetting destroyed an instance that is still referenced");
		p.clear();
		if (S::destroyed != 1) sim::violate("not-destroyed", "instance destroyed %d times after the last user left", S::destroyed);
	}
}
struct OptModel {
	std::map<int, long> m;
	bool apply(const h::Op &o) {
		int key = o.arg / 1000; long val = o.arg % 1000;
		switch (o.kind) {
		case 0: m[key] = val; return true;                                  // set
		case 1: { bool ok = !m.count(key); if (ok != (bool)o.res) return false; if (ok) m[key] = val; return true; } // setOnce
		case 2: { auto i = m.find(key); if (o.res < 0) return i == m.end(); return i != m.end() && i->second == o.res; } // get
		case 3: { bool ok = m.erase(key) > 0; return ok == (bool)o.res; }   // remove
		case 4: return (long)m.count(key) == o.res;                         // exists
		case 5: return (long)m.size() == o.res;
		case 6: return (long)m.empty() == o.res;
		case 7: { long x = 0; for (auto &p : m) x |= 1l << p.first; return x == o.res; } // key vector
		case 8: { long x = 0; for (auto &p : m) x += p.second; return x == o.res; } // content
		case 9: return m[key] == o.res;                                     // get, creates a missing option
		}
		return false;
	}
	std::string key() const { std::string s; for (auto &p : m) s += std::to_string(p.first) + "=" + std::to_string(p.second) + ","; return s; }
};
// compiles whether the out-parameter is taken by value or by reference
template <typename T> static long content_sum(GGlobalOptionsT<T> &g) { std::vector<T> v; g.getContentVector(v); long s = 0; for (auto &x : v) s += x; return s; }
SIM_SCENARIO(C05, options, 3) {
	GGlobalOptionsT<long> g; std::vector<h::Op> hist;
	int nt = sim::draw("threads", 1, 4), keys = sim::draw("keys", 1, 3); long val = 0;
	static const char *on[] = {"set", "setOnce", "get", "remove", "exists", "size", "empty", "keys", "content", "get_or_create"};
	auto exec = [&](int w, int k, int t) {
		std::string key = "key" + std::to_string(k); h::Op o{w, k * 1000, 0, 0, 0, t};
		if (w <= 1) { sim::NoPreempt np; o.arg += ++val; }
		sim::op("%s(%s)", on[w], key.c_str());
		o.inv = sim::seq();
		switch (w) {
		case 0: g.set(key, o.arg % 1000); break;
		case 1: o.res = g.setOnce(key, o.arg % 1000); break;
		case 2: { long v = -1; bool r = g.get(key, v); o.res = r ? v : -1; break; }
		case 3: o.res = g.remove(key); break;
		case 4: o.res = g.exists(key); break;
		case 5: o.res = g.size(); break;
		case 6: o.res = g.empty(); break;
		case 7: { std::vector<std::string> v; g.getKeyVector(v); for (auto &s : v) o.res |= 1l << (s[3] - '0'); break; }
		case 8: o.res = content_sum(g); break;
		case 9: o.res = g.get(key); break;
		}
		o.ret = sim::seq();
		sim::NoPreempt np; hist.push_back(o); sim::hash(o.res * 31 + w);
	};
	h::Threads T;
	for (int t = 0; t < nt; ++t) T.go("caller", [&, t] { int n = sim::draw("ops", 1, 6); for (int i = 0; i < n; ++i) exec(sim::draw("what", 0, 9), sim::draw("key", 0, keys - 1), t); });
	T.join();
	for (int k = 0; k < keys; ++k) exec(2, k, 9);
	exec(5, 0, 9); exec(7, 0, 9); exec(8, 0, 9);
	std::ostringstream s; for (auto &o : hist) s << "t" << o.thread << ":" << on[o.kind] << "(key" << o.arg / 1000 << "," << o.arg % 1000 << ")=" << o.res << "[" << o.inv << "," << o.ret << "] ";
	sim::sample(s.str().substr(0, 300));
	if (!h::linearizable(hist, OptModel{})) sim::violate("not-linearizable", "%s", s.str().c_str());
}

// ------------------------------------------------------------------ C06
SIM_SCENARIO(C06, rounds, 1) {
	int n = sim::draw("threads", 1, 5), rounds = sim::draw("rounds", 1, 5);
	GBarrier bar(n);
	std::vector<int> arrived(rounds + 1), passed(rounds + 1), last(rounds + 1);
	h::Threads T;
	for (int i = 0; i < n; ++i) T.go("party", [&] {
		for (int r = 0; r < rounds; ++r) {
			if (sim::draw("delay", 0, 2) == 2) sim::sleep_ns(sim::draw("delay_ms", 0, 10) * MS);
			{ sim::NoPreempt np; arrived[r]++; }
			sim::op("wait round %d", r);
			bool l = bar.wait();
			sim::NoPreempt np;
			if (arrived[r] != n) { int a = arrived[r]; sim::violate("released-early", "round %d: a thread passed after %d of %d arrivals", r, a, n); }
			passed[r]++; if (l) last[r]++;
		}
		sim::op("done");
	});
	T.join();
	for (int r = 0; r < rounds; ++r) { if (passed[r] != n) sim::violate("not-released", "round %d: %d of %d passed", r, passed[r], n); if (last[r] != 1) sim::violate("last-wrong", "round %d: %d threads were told to be the last", r, last[r]); }
}

// ------------------------------------------------------------------ C07
struct RecTarget : GBaseLogTarget {
	mutable std::vector<std::pair<std::string, std::string>> got; mutable int inside = 0; mutable bool overlap = false;
	void take(std::string const &m, std::string const &src) const {
		{ sim::NoPreempt np; if (inside++) overlap = true; }
		std::string copy; size_t half = m.size() / 2;
		copy = m.substr(0, half); sim::yield_point(); copy += m.substr(half); sim::yield_point();
		sim::NoPreempt np; got.emplace_back(src, copy); --inside;
	}
	void log(std::string const &m) const override { take(m, ""); }
	void logWithSource(std::string const &m, std::string const &s) const override { take(m, s); }
};
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static size_t occurrences(const std::string &s, const std::string &x) { size_t n = 0; for (size_t p = s.find(x); p != std::string::npos; p = s.find(x, p + 1)) ++n; return n; }
SIM_SCENARIO(C07, logging, 1) {
	int nt = sim::draw("threads", 1, 4), per = sim::draw("messages", 1, 5), ntargets = sim::draw("targets", 0, 3);
	bool filetarget = ntargets && sim::swarm("file_target"); int pieces = sim::draw("pieces", 1, 4);
	std::stringbuf cout_buf, cerr_buf, clog_buf;
	auto oc = std::cout.rdbuf(&cout_buf); auto oe = std::cerr.rdbuf(&cerr_buf); auto ol = std::clog.rdbuf(&clog_buf);
	std::vector<std::shared_ptr<RecTarget>> tg;
	for (int i = 0; i < ntargets; ++i) { tg.push_back(std::make_shared<RecTarget>()); glogger.addLogTarget(tg.back()); }
	// log files of an earlier program are continued
	bool earlier = filetarget && sim::draw("earlier_log", 0, 1); if (earlier) for (const char *f : {"target.log", "target.log_src0", "target.log_src1"}) std::ofstream(f) << "earlier\n";
	if (filetarget) glogger.addLogTarget(std::make_shared<GFileLogger>(std::filesystem::path("target.log")));
	auto deflt = std::make_shared<RecTarget>();
	bool custom_default = sim::swarm("custom_default");
	if (custom_default) glogger.setDefaultLogTarget(deflt);
	struct M { int t, i, kind; std::string text; bool threw = false, right = false; };
	std::vector<M> ms(nt * per);
	h::Threads T;
	for (int t = 0; t < nt; ++t) T.go("logger", [&, t] {
		for (int i = 0; i < per; ++i) {
			M m{t, i, (int)sim::draw("kind", 0, 7), ""};
			sim::op("message %d.%d kind %d", t, i, m.kind);
			std::string a = "<" + std::to_string(t) + "." + std::to_string(i) + ":", b;
			for (int k = 0; k < pieces; ++k) b += "p" + std::to_string(k) + "=" + std::to_string(t * 100 + i) + ";";
			m.text = a + b + ">";
			auto fill = [&](auto &&s) -> GLogStreamer & { auto &r = (s << a); for (int k = 0; k < pieces; ++k) { r << "p" << k << "=" << t * 100 + i << ";"; if (k % 2) sim::yield_point(); } r << ">"; return r; };
			std::string src = "src" + std::to_string(t % 2), file = "once" + std::to_string(t) + "_" + std::to_string(i) + ".txt";
			switch (m.kind) {
			case 0: fill(glogger << "") << GLOGGING; break;
			case 1: fill(glogger << "") << GWARNING; break;
			case 2: fill(glogger(src) << "") << GLOGGING; break;
			case 3: fill(glogger << "") << GSTDOUT; break;
			case 4: fill(glogger << "") << GSTDERR; break;
			case 5: fill(glogger(std::filesystem::path(file)) << "") << GFILE; break;
			case 6: try { fill(glogger << "") << GEXCEPTION; } catch (gemfony_exception &e) { m.threw = true; m.right = std::string(e.what()).find(m.text) != std::string::npos; } break;
			case 7: try { throw gemfony_exception(g_error_streamer(DO_LOG, "where\n") << a << b << ">"); } catch (gemfony_exception &e) { m.threw = true; m.right = std::string(e.what()) == m.text; } break;
			}
			sim::NoPreempt np; ms[t * per + i] = m;
		}
	});
	T.join();
	std::cout.rdbuf(oc); std::cerr.rdbuf(oe); std::clog.rdbuf(ol);
	std::string exc = slurp("GENEVA-EXCEPTION.log"), tf = slurp("target.log") + slurp("target.log_src0") + slurp("target.log_src1");
	auto check_list = [&](const RecTarget &r, const char *name) {
		if (r.overlap) sim::violate("target-entered-concurrently", "two messages were written to one destination at the same time (%s)", name);
		std::map<int, int> lastidx; size_t expect = 0;
		for (auto &m : ms) if (m.kind <= 2) {
			++expect; size_t n = 0;
			for (auto &g : r.got) { size_t k = occurrences(g.second, m.text); n += k; if (k) {
				if (m.kind != 1 && g.second != m.text) sim::violate("message-altered", "message %s arrived as '%.200s'", m.text.c_str(), g.second.c_str());
				if (g.first != (m.kind == 2 ? "src" + std::to_string(m.t % 2) : "")) sim::violate("wrong-source", "message %s arrived with source '%s'", m.text.c_str(), g.first.c_str()); } }
			if (n != 1) sim::violate("message-lost-or-duplicated", "message %s arrived %zu times at %s", m.text.c_str(), n, name);
		}
		if (r.got.size() != expect) sim::violate("message-misdirected", "%zu messages arrived at %s, %zu expected", r.got.size(), name, expect);
		for (auto &g : r.got) for (auto &m : ms) if (m.kind <= 2 && g.second.find(m.text) != std::string::npos) { if (lastidx.count(m.t) && lastidx[m.t] > m.i) sim::violate("order-of-thread-broken", "message %s arrived late at %s", m.text.c_str(), name); lastidx[m.t] = m.i; }
	};
	for (auto &t : tg) check_list(*t, "a registered destination");
	if (!ntargets && custom_default) check_list(*deflt, "the default destination");
	if (ntargets && deflt->got.size()) sim::violate("message-misdirected", "the default destination received messages although others are registered");
	std::string so = cout_buf.str(), se = cerr_buf.str(), sl = clog_buf.str();
	size_t nso = 0, nse = 0, len_so = 0, len_se = 0;
	for (auto &m : ms) {
		size_t a = occurrences(so, m.text), b = occurrences(se, m.text), c = occurrences(sl, m.text), d = occurrences(exc, m.text), e = occurrences(tf, m.text);
		std::string file = "once" + std::to_string(m.t) + "_" + std::to_string(m.i) + ".txt"; size_t f = occurrences(slurp(file), m.text);
		auto want = [&](size_t have, size_t w, const char *where) { if (have != w) sim::violate("message-lost-or-misdirected", "message %s of kind %d found %zu times (expected %zu) in %s", m.text.c_str(), m.kind, have, w, where); };
		want(a, m.kind == 3, "standard output"); want(b, m.kind == 4, "standard error");
		want(c, !ntargets && !custom_default && m.kind <= 2, "the console log"); want(d, m.kind == 6 || m.kind == 7, "the exception file");
		want(e, filetarget && m.kind <= 2, "the log file"); want(f, m.kind == 5, "its one-time file");
		if (m.kind == 3) { ++nso; len_so += m.text.size(); } if (m.kind == 4) { ++nse; len_se += m.text.size(); }
		if (m.kind >= 6 && (!m.threw || !m.right)) sim::violate("exception-wrong", "error message %s: exception thrown %d, with its text %d", m.text.c_str(), m.threw, m.right);
		if (m.kind == 5 && slurp(file) != m.text) sim::violate("message-altered", "one-time file contains '%.200s'", slurp(file).c_str());
	}
	if (earlier) for (const char *f : {"target.log", "target.log_src0", "target.log_src1"}) if (slurp(f).compare(0, 8, "earlier\n")) sim::violate("earlier-log-lost", "%s has lost what an earlier program had written", f);
	if (so.size() != len_so) sim::violate("message-torn", "standard output: '%.300s'", so.c_str());
	if (se.size() != len_se) sim::violate("message-torn", "standard error: '%.300s'", se.c_str());
}
