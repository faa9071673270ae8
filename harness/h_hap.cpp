// C08, C09: random number factory, proxies and seeds.
#include "util.hpp"
#include <algorithm>
#include <cstring>
#include <unordered_set>
#include <unordered_map>
#include "hap/GRandomFactory.hpp"
#include "hap/GRandomT.hpp"

using namespace Gem::Hap;
using sim::MS; using sim::SEC;
static struct Init { Init() { sim::declare_components(
	"Geneva random number library (factory, producer threads, recycling, proxies, local generators; block size 8, 3 buffered blocks, 40 seeds per refill through the library's own compile-time settings), common library, libstdc++: real, unmodified",
	"pthread/futex scheduling, clocks, sleeping, entropy source (random_device): simulator"); } } init_;

using Proxy = GRandomT<RANDFLAVOURS::RANDOMPROXY>;
using Local = GRandomT<RANDFLAVOURS::RANDOMLOCAL>;

// ------------------------------------------------------------------ C08
// Every number handed to anybody; a pair of consecutive numbers of one block occurs once.
struct Book {
	std::unordered_map<sim::u64, int> pairs; std::unordered_map<sim::u32, int> singles; int dup = 0; long n = 0;
	void block(const std::vector<sim::u32> &v, int who) {
		sim::NoPreempt np;
		for (size_t i = 0; i < v.size(); ++i) {
			++n;
			if (++singles[v[i]] == 2) ++dup;
			if (i) {
				sim::u64 k = (sim::u64)v[i - 1] << 32 | v[i]; auto it = pairs.find(k);
				if (it != pairs.end()) sim::violate("numbers-shared", "generators %d and %d both obtained the numbers %u,%u", it->second, who, v[i - 1], v[i]);
				pairs[k] = who;
			}
		}
		if (dup > 3) sim::violate("numbers-repeated", "%d random numbers were handed out more than once among %ld", dup, n);
	}
};
struct Live { // raw blocks owned by consumers
	std::map<const void *, int> owner;
	void take(const void *p, int who) { sim::NoPreempt np; auto it = owner.find(p); if (it != owner.end()) sim::violate("block-shared", "a block owned by consumer %d was handed out to consumer %d", it->second, who); owner[p] = who; }
	void drop(const void *p) { sim::NoPreempt np; owner.erase(p); }
};
static int expect_threads(int n) { return n ? n : (int)DEFAULT01PRODUCERTHREADS; }

static void supply(bool lifecycle, bool late_start) {
	auto f = GRANDOMFACTORY;
	auto book = std::make_shared<Book>(); auto live = std::make_shared<Live>();
	int nc = sim::draw("consumers", 1, 4), rounds = sim::draw("rounds", 1, 6);
	h::Cell<bool> finalized;
	h::Cell<int> left; left.set(nc);
	int n0 = sim::draw("initial_producers", 0, 3);
	if (n0) { sim::op("setNProducerThreads(%d)", n0); f->setNProducerThreads(n0); }
	h::Threads T;
	for (int c = 0; c < nc; ++c) T.go("consumer", [=, &left, &finalized] {
		int kind = sim::draw("consumer_kind", 0, 2);
		if (kind < 2) { // proxies, re-created, copied, moved
			for (int r = 0; r < rounds; ++r) {
				sim::op("constructing a proxy");
				auto g = std::make_unique<Proxy>();
				std::unique_ptr<Proxy> g2;
				int m = sim::draw("draws", 0, 30);
				std::vector<sim::u32> blk;
				auto pull = [&](Proxy &p, int k) {
					// consecutive numbers of the same proxy; block borders only shorten the runs
					blk.clear(); for (int i = 0; i < k; ++i) { sim::op("drawing"); blk.push_back(p()); }
					book->block(blk, c);
				};
				pull(*g, m);
				switch (sim::draw("reuse", 0, 4)) {
				case 1: g2.reset(new Proxy(*g)); pull(*g2, m / 2 + 1); pull(*g, 3); break;
				case 2: g2.reset(new Proxy(std::move(*g))); pull(*g2, m / 2 + 1); pull(*g, 9); break;
				case 3: g2.reset(new Proxy()); *g2 = std::move(*g); pull(*g2, m / 2 + 1); pull(*g, 9); break;
				case 4: g2.reset(new Proxy()); *g2 = *g; pull(*g2, m / 2 + 1); pull(*g, 3); break;
				default: break;
				}
				if (sim::draw("pause", 0, 3) == 0) sim::sleep_ns(sim::draw("pause_ms", 0, 300) * MS);
			}
		} else { // raw blocks
			for (int r = 0; r < rounds * 2; ++r) {
				std::unique_ptr<random_container> p; int tries = 0;
				do {
					sim::op("getNewRandomContainer"); p = f->getNewRandomContainer();
					if (!p && ++tries > 400) sim::violate("starved", "no block of random numbers in %d requests", tries);
				} while (!p);
				if (tries) sim::probe("request-timed-out");
				live->take(p.get(), c);
				if (p->getCurrentPosition() != 0) sim::violate("block-not-fresh", "a block was handed out that is already used up to position %zu", p->getCurrentPosition());
				std::vector<sim::u32> v; int m = sim::draw("used", 0, p->size());
				for (int i = 0; i < m; ++i) { if (p->empty()) sim::violate("block-short", "a block of %zu numbers was empty after %d", p->size(), i); v.push_back(p->next()); if (sim::draw("y", 0, 3) == 0) sim::yield_point(); }
				book->block(v, c);
				int what = sim::draw("give_back", 0, 3);
				live->drop(p.get());
				if (what) { sim::op("returnUsedPackage"); f->returnUsedPackage(std::move(p)); } else p.reset();
			}
		}
		left.add(-1); sim::op("done");
	});
	int maxn = n0;
	if (lifecycle) T.go("manager", [&, f] {
		int n = sim::draw("manager_ops", 1, 4);
		for (int i = 0; i < n; ++i) {
			sim::sleep_ns(sim::draw("gap_ms", 0, 250) * MS);
			int k = sim::draw("new_producers", 0, 6); sim::op("setNProducerThreads(%d)", k); f->setNProducerThreads(k);
			if (k > maxn) maxn = k;
		}
		if (sim::draw("finalize", 0, 2)) {
			sim::sleep_ns(sim::draw("gap_ms", 0, 250) * MS);
			sim::op("finalize"); sim::i64 t0 = sim::now(); f->finalize();
			if (sim::now() - t0 > 60 * SEC) sim::violate("slow-shutdown", "finalize() took %.1f s", (sim::now() - t0) / 1e9);
			finalized.set(true);
			if (sim::draw("after", 0, 1)) { int k = sim::draw("new_producers", 0, 6); sim::op("setNProducerThreads(%d) after finalize", k); f->setNProducerThreads(k); }
		}
		sim::op("done");
	});
	(void)late_start;
	sim::op("joining the consumers");
	if (!sim::wait_until([&] { return left.v == 0; }, 3600 * SEC, 100 * MS)) sim::violate("starved", "%d of %d consumers still without their numbers after an hour", left.get(), nc);
	T.join();
	sim::sample("consumers=" + std::to_string(nc) + " rounds=" + std::to_string(rounds) + " numbers=" + std::to_string(book->n));
	sim::hash(book->n);
	sim::op("finalize"); f->finalize();
	int th = sim::live_threads();
	if (th != 1) sim::violate("producers-left", "%d producer threads still alive after finalize()", th - 1);
	f->finalize();
	f.reset(); sim::op("releasing the factory"); GRANDOMFACTORY_RESET;
}
SIM_SCENARIO(C08, supply, 3) { supply(false, false); }
SIM_SCENARIO(C08, lifecycle, 4) { supply(true, false); }

// The number of producers follows the requests.
SIM_SCENARIO(C08, resize, 1) {
	auto f = GRANDOMFACTORY;
	int want = DEFAULT01PRODUCERTHREADS, n = sim::draw("ops", 1, 5); bool started = false;
	for (int i = 0; i < n; ++i) {
		int what = sim::draw("what", 0, 2);
		if (what < 2) {
			int k = sim::draw("producers", 0, 6); sim::op("setNProducerThreads(%d)", k); f->setNProducerThreads(k);
			int e = expect_threads(k); if (!started || e > want) want = e;
		} else { sim::op("getNewRandomContainer"); auto p = f->getNewRandomContainer(); started = true; if (sim::draw("ret", 0, 1) && p) f->returnUsedPackage(std::move(p)); }
		int th = sim::live_threads() - 1;
		if (th != (started ? want : 0)) sim::violate("wrong-producer-count", "%d producer threads instead of %d", th, started ? want : 0);
	}
	f->finalize();
	if (sim::live_threads() != 1) sim::violate("producers-left", "producer threads alive after finalize()");
	if (sim::draw("use_after", 0, 1)) { Proxy g; for (int i = 0; i < 20; ++i) g(); }
}

// ------------------------------------------------------------------ C09
// Phase 0: seeds requested concurrently; phase 1: a new process with the same
// entropy requests the same number sequentially.
struct Persist { sim::u32 n; sim::u32 entropy; sim::u32 v[8000]; };
static void seeds_check(std::vector<sim::u32> got, sim::u32 entropy) {
	auto *P = (Persist *)sim::persist();
	std::sort(got.begin(), got.end());
	int dup = 0; for (size_t i = 1; i < got.size(); ++i) dup += got[i] == got[i - 1];
	if (dup > 3) sim::violate("seed-repeated", "%d of %zu seeds were handed out before", dup, got.size());
	if (sim::phase() == 0) {
		P->n = got.size(); P->entropy = entropy; std::copy(got.begin(), got.end(), P->v);
		sim::next_phase();
	}
	if (P->n != got.size()) sim::discard("plan differs");
	size_t diff = 0;
	{ std::unordered_multiset<sim::u32> s(P->v, P->v + P->n); for (auto x : got) { auto it = s.find(x); if (it == s.end()) ++diff; else s.erase(it); } }
	if (sim::draw("other_entropy", 0, 3) == 3 ) {}
	if (diff) sim::violate("seeds-depend-on-schedule", "%zu of %u seeds differ between concurrent and sequential requests with the same entropy", diff, P->n);
}
SIM_SCENARIO(C09, seeds, 3) {
	sim::u32 e = sim::draw("entropy", 1, 1000000);
	sim::set_entropy(e);
	int nt = sim::draw("threads", 1, 5), per = sim::draw("per_thread", 1, 60);
	auto f = GRANDOMFACTORY;
	std::vector<std::vector<sim::u32>> got(nt);
	if (sim::phase() == 0) {
		h::Threads T;
		for (int t = 0; t < nt; ++t) T.go("requester", [&, t] { for (int i = 0; i < per; ++i) { sim::op("getSeed"); sim::u32 s = f->getSeed(); sim::NoPreempt np; got[t].push_back(s); } });
		T.join();
	} else for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) got[t].push_back(f->getSeed());
	std::vector<sim::u32> all; for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
	sim::sample("threads=" + std::to_string(nt) + " seeds=" + std::to_string(all.size()));
	seeds_check(all, e);
}
// Local generators constructed concurrently never produce the same sequence.
SIM_SCENARIO(C09, generators, 2) {
	sim::u32 e = sim::draw("entropy", 1, 1000000);
	sim::set_entropy(e);
	int nt = sim::draw("threads", 1, 4), per = sim::draw("per_thread", 1, 25);
	std::vector<std::vector<sim::u32>> got(nt);
	auto one = [&](int t, int i) { sim::op("constructing a local generator"); Local g; if (i % 3 == 1) { Local g2(g); sim::u32 a = g2(); sim::NoPreempt np; got[t].push_back(a); } sim::u32 a = g(); sim::NoPreempt np; got[t].push_back(a); };
	if (sim::phase() == 0) {
		h::Threads T;
		for (int t = 0; t < nt; ++t) T.go("requester", [&, t] { for (int i = 0; i < per; ++i) one(t, i); });
		T.join();
	} else for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) one(t, i);
	std::vector<sim::u32> all; for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
	seeds_check(all, e);
}
// Producers and requesters together: blocks of different producers never agree, seeds never repeat.
SIM_SCENARIO(C09, with_producers, 2) {
	sim::set_entropy(sim::draw("entropy", 1, 1000000));
	auto f = GRANDOMFACTORY;
	int nt = sim::draw("threads", 1, 4), per = sim::draw("per_thread", 1, 40), np_ = sim::draw("producers", 1, 6);
	f->setNProducerThreads(np_);
	auto book = std::make_shared<Book>();
	std::vector<std::vector<sim::u32>> got(nt);
	h::Threads T;
	T.go("consumer", [&] { for (int i = 0; i < 12; ++i) { auto p = f->getNewRandomContainer(); if (!p) continue; std::vector<sim::u32> v; while (!p->empty()) v.push_back(p->next()); book->block(v, 0); if (i % 2) f->returnUsedPackage(std::move(p)); } });
	for (int t = 0; t < nt; ++t) T.go("requester", [&, t] { for (int i = 0; i < per; ++i) { sim::op("getSeed"); sim::u32 s = f->getSeed(); sim::NoPreempt np; got[t].push_back(s); } });
	if (sim::draw("grow", 0, 1)) f->setNProducerThreads(np_ + 2);
	T.join();
	f->finalize();
	// without producers, blocks are made on request
	for (int t = 0; t < nt; ++t) T.go("late-consumer", [&] { for (int i = 0; i < 3; ++i) { auto p = f->getNewRandomContainer(); if (!p) sim::violate("no-numbers", "no random numbers after finalize()"); std::vector<sim::u32> v; while (!p->empty()) v.push_back(p->next()); book->block(v, 0); } });
	T.join();
	std::map<sim::u32, int> m; int dup = 0; for (auto &g : got) for (auto s : g) if (++m[s] == 2) ++dup;
	if (dup > 2) sim::violate("seed-repeated", "%d seeds were handed out twice", dup);
}
// Different entropy gives different seeds.
SIM_SCENARIO(C09, other_numbers, 1) { // ... and different numbers, whoever makes them
	auto *P = (Persist *)sim::persist();
	sim::u32 e = sim::draw("entropy", 1, 1000000); sim::set_entropy(e + sim::phase());
	auto f = GRANDOMFACTORY; f->setNProducerThreads(sim::draw("producers", 0, 4)); std::vector<sim::u32> v; int n = sim::draw("blocks", 4, 30);
	for (int i = 0; i < n; ++i) { if (i == n / 2 && sim::draw("finalize_early", 0, 3) == 3) f->finalize(); auto p = f->getNewRandomContainer(); while (p && !p->empty() && v.size() < 8000) v.push_back(p->next()); }
	f->finalize();
	if (sim::phase() == 0) { P->n = v.size(); std::copy(v.begin(), v.end(), P->v); sim::next_phase(); }
	int same = 0; std::set<sim::u32> s(P->v, P->v + P->n); for (auto x : v) same += s.count(x);
	if (same > 10) sim::violate("numbers-ignore-entropy", "%d of %zu numbers occur in both runs although the entropy differs", same, v.size());
}
SIM_SCENARIO(C09, entropy, 1) {
	auto *P = (Persist *)sim::persist();
	sim::u32 e = sim::draw("entropy", 1, 1000000);
	sim::set_entropy(e + sim::phase());
	auto f = GRANDOMFACTORY; std::vector<sim::u32> v; int n = sim::draw("n", 20, 100); for (int i = 0; i < n; ++i) v.push_back(f->getSeed());
	if (sim::phase() == 0) { P->n = n; std::copy(v.begin(), v.end(), P->v); sim::next_phase(); }
	int same = 0; std::set<sim::u32> s(P->v, P->v + P->n); for (auto x : v) same += s.count(x);
	if (same > 2) sim::violate("seeds-ignore-entropy", "%d of %d seeds are equal although the entropy differs", same, n);
}
