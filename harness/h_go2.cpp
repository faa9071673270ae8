// C31: Go2, the user's entry point: a chain of algorithms on any built-in consumer, with real clients.
#include "gen.hpp"
#include "geneva/GIndividualStandardConsumers.hpp"
using namespace g;

namespace {
struct Creator : Gem::Common::GFactoryT<GParameterSet> {
	int left; explicit Creator(int n) : Gem::Common::GFactoryT<GParameterSet>("config/Creator.json"), left(n) {}
private:
	std::shared_ptr<GParameterSet> get_() override { if (left-- <= 0) return {}; return std::make_shared<Ind>(world().p); }
	void postProcess_(std::shared_ptr<GParameterSet> &) override {}
	std::shared_ptr<GParameterSet> getObject_(Gem::Common::GParserBuilder &, const std::size_t &) override { return {}; }
};
std::unique_ptr<Go2> make_go(const std::vector<std::string> &args) { std::vector<std::string> a{"program"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); return std::unique_ptr<Go2>(new Go2((int)v.size(), v.data(), "config/Go2.json")); }
bool within(const std::function<bool()> &p, i64 limit) { i64 t0 = sim::now(), l0 = sim::lost_time() - sim::pending_stall(); for (;;) { if (sim::wait_until(p, 500 * MS, 20 * MS)) return true; if (sim::now() - t0 - (sim::lost_time() - l0) > limit) return p(); } }
const char *consumers[] = {"sc", "stc", "asio", "beast"};
int limits() { sim::cfg.mem_mean *= 16; sim::cfg.max_steps = 6000000; sim::cfg.max_time = 4000 * SEC; sim::cfg.p_stall = std::min(sim::cfg.p_stall, 0.001); return 0; }
std::vector<std::string> arguments(int con) {
	std::vector<std::string> r{"--consumer", consumers[con]}; auto n = [](const char *d, int lo, int hi) { return std::to_string(sim::draw(d, lo, hi)); };
	if (con == 1) r.push_back("--nWorkerThreads=" + n("workers", 1, 4));
	if (con == 2) { r.push_back("--asio_serializationMode=" + n("mode", 0, 2)); r.push_back("--asio_nProcessingThreads=" + n("server_threads", 1, 3)); }
	if (con == 3) { r.push_back("--beast_serializationMode=" + n("mode", 0, 2)); r.push_back("--beast_nListenerThreads=" + n("server_threads", 1, 3)); r.push_back("--beast_pingInterval=" + n("ping", 1, 15)); }
	return r;
}
// The clients of a run. The first one stays for the whole run; others come and go.
struct Clients {
	struct One { std::unique_ptr<Go2> go; std::thread t; h::Cell<bool> dead; }; std::vector<std::unique_ptr<One>> c; h::Cell<bool> stop; h::Cell<int> left;
	void create(int n, const std::vector<std::string> &args) { for (int i = 0; i < n; ++i) { auto a = args; a.push_back("--client"); std::unique_ptr<One> o(new One); o->go = make_go(a); if (!o->go->clientMode()) sim::violate("client-mode", "--client was given, but clientMode() is false"); c.push_back(std::move(o)); } }
	void start() {
		for (size_t i = 0; i < c.size(); ++i) { One *o = c[i].get(); o->t = std::thread([this, o, i] {
			sim::label("client"); if (i) sim::sleep_ns(sim::draw("client_start_ms", 0, 500) * MS);
			int left = sim::draw("respawns", 0, 8); // these leave and come back; the first one stays (and is started again if its connection broke)
			do {
				if (i) o->go->setMaxClientTime(std::chrono::duration<double>(sim::draw("client_ms", 50, 3000) / 1000.0));
				sim::op("client runs"); try { o->go->clientRun(); } catch (std::exception &e) { sim::violate("client-crash", "clientRun() was left by an exception: %.500s", e.what()); } this->left.add(1); sim::op("client ended");
				if (!stop.get()) sim::sleep_ns(sim::draw("respawn_ms", 10, 500) * MS);
			} while ((!i || left-- > 0) && !stop.get());
			o->dead.set(true);
		}); }
	}
	void finish() {
		stop.set(true);
		if (!within([&] { for (auto &o : c) if (!o->dead.get()) return false; return true; }, 90 * SEC)) sim::violate("client-hangs", "a client has not terminated although the server's Go2 object is gone");
		for (auto &o : c) o->t.join(); c.clear();
	}
};
struct Chain {
	std::vector<Setup> s; int idx = -1, next = 0, seen = 0, ends = 0; bool any = false, exact = true, hand_on = true; double best = 0; std::set<Vec> handed; std::string text; Clients *clients = nullptr; h::Cell<i64> moved; h::Cell<int> left_before; h::Cell<bool> over;
	void watch() {
		watcher().f = [this](infoMode m, const G_OptimizationAlgorithm_Base *a) {
			auto bests = m == infoMode::INFOPROCESSING ? const_cast<G_OptimizationAlgorithm_Base *>(a)->getBestGlobalIndividuals<Ind>() : std::vector<std::shared_ptr<Ind>>(); sim::NoPreempt np;
			if (m == infoMode::INFOINIT) {
				++idx; if (idx >= (int)s.size()) sim::violate("order", "%s: more optimization runs than algorithms", text.c_str()); if (a != s[idx].alg.get()) sim::violate("order", "%s: algorithm %d is not the one that was registered", text.c_str(), idx);
				if (ends != idx) sim::violate("order", "%s: algorithm %d starts before algorithm %d has ended", text.c_str(), idx, idx - 1);
				sim::op("algorithm %d starts", idx); moved.set(sim::now()); left_before.set(clients->left.get());
				// the best candidates of the last algorithm are the starting point of this one
				if (idx && hand_on) { bool found = false; for (auto &p : *a) if (handed.count(ind(p)->point())) found = true; if (!found) sim::violate("best-not-handed-on", "%s: algorithm %d does not start from the best candidates of its predecessor", text.c_str(), idx); }
				return;
			}
			if (m == infoMode::INFOEND) { ++ends; return; }
			int it = a->getIteration(); if (it != next) sim::violate("iteration-numbers", "%s: iteration %d follows iteration %d (algorithm %d)", text.c_str(), it, next - 1, idx); ++next; ++seen; ++s[idx].iters;
			std::string w = text + ", iteration " + std::to_string(it); if (bests.empty()) sim::violate("no-best", "%s: no best candidate", w.c_str());
			handed.clear(); double top = bests[0]->raw_fitness(0); for (auto &p : bests) { check_ind(p, w.c_str()); if (better(p->raw_fitness(0), top)) sim::violate("wrong-best", "%s: the first of the best is not the best", w.c_str()); if (p->raw_fitness(0) == top) handed.insert(p->point()); }
			if (any && hand_on && better(best, top)) sim::violate("best-got-worse", "%s: best quality went from %.17g to %.17g (algorithm %d)", w.c_str(), best, top, idx);
			any = true; best = top; moved.set(sim::now()); sim::op("iteration %d best %.5g", it, top);
		};
	}
	// There is no time-out before the first result of an algorithm. If clients have left with all of its work items, it waits for ever.
	void guard() { moved.set(sim::now()); while (!over.get()) { sim::sleep_ns(SEC); if (sim::now() - moved.get() > 1500 * SEC && clients->left.get() != left_before.get()) { sim::probe("left-with-everything"); sim::finish(); } } }
	void result(Go2 &go, const char *where) {
		std::string w = text + ", " + where; auto b = go.getBestGlobalIndividual<Ind>(); auto all = go.getBestGlobalIndividuals<Ind>(); sim::NoPreempt np; check_ind(b, w.c_str());
		if (hand_on && b->raw_fitness(0) != best) sim::violate("wrong-result", "%s: the result has the quality %.17g, the best recorded during the run is %.17g", w.c_str(), b->raw_fitness(0), best);
		if (all.empty() || all.size() != go.size()) sim::violate("wrong-result", "%s: %zu best candidates, %zu stored", w.c_str(), all.size(), go.size());
		for (size_t i = 0; i < all.size(); ++i) { check_ind(all[i], w.c_str()); if (better(all[i]->raw_fitness(0), b->raw_fitness(0))) sim::violate("wrong-result", "%s: the best candidate is not the best of the list", w.c_str()); if (i && better(all[i]->raw_fitness(0), all[i - 1]->raw_fitness(0))) sim::violate("result-unsorted", "%s: the list of best candidates is not sorted", w.c_str()); }
		if (idx + 1 != (int)s.size() || ends != (int)s.size()) sim::violate("order", "%s: %d of %zu algorithms were run", w.c_str(), ends, s.size());
	}
};
void draw_chain(Chain &c, int n) {
	for (int i = 0; i < n; ++i) {
		Setup s = draw_alg((Alg)sim::draw("algorithm", 0, (int)PS)); s.alg->resetPluggableOM(); s.alg->setReportIteration(1);
		if (s.sorting == sortingMode::MUCOMMANU_PARETO || s.sorting == sortingMode::MUPLUSNU_PARETO) { std::static_pointer_cast<GEvolutionaryAlgorithm>(s.alg)->setSortingScheme(s.sorting = sortingMode::MUCOMMANU_SINGLEEVAL); }
		if (s.a == PS) std::static_pointer_cast<GParameterScan>(s.alg)->setNSimpleScans(sim::draw("n_simple", 1, 12));
		c.text += (i ? " + " : "") + s.text; c.s.push_back(s);
	}
}
void chain(bool networked) {
	limits(); draw_problem(); draw_rich(false); world().p.ms_max = sim::draw("slow", 0, 1) * 60; int con = networked ? sim::draw("transport", 2, 3) : sim::draw("local", 0, 1), nc = networked ? sim::draw("clients", 1, 3) : 0; auto args = arguments(con); std::filesystem::create_directories("config");
	if (networked) {
		if (sim::swarm("short_io")) sim::net::cfg.p_short = 0.05;
		std::ofstream f("config/GBrokerExecutor.json"); auto item = [&](const char *n, const std::string &d, const std::string &v, const char *end) { f << "\"" << n << "\": {\"comment\": \"-\", \"default\": \"" << d << "\", \"value\": \"" << v << "\"}" << end; };
		f << "{\"header\": {\"comment\": \"-\"},"; item("maxResubmissions", "5", std::to_string(sim::draw("resubmissions", 1, 5)), ","); item("waitFactor", "1.1", sim::draw("impatient", 0, 3) == 3 ? "1.1" : "8", ","); item("minPartialReturnPercentage", "0", "0", "}");
	}
	{
		Clients clients; clients.create(nc, args); auto go = make_go(args); if (go->clientMode()) sim::violate("client-mode", "clientMode() is true without --client");
		int rounds = 1 + (sim::draw("optimize_again", 0, 3) == 3); Chain c; draw_chain(c, sim::draw("algorithms", 1, 3)); c.text += std::string(" on ") + consumers[con]; c.hand_on = sim::draw("all_individuals", 0, 3) < 3; go->setCopyBestIndividualsOnly(c.hand_on);
		int given = sim::draw("given", 0, 3), off = sim::draw("offset", 0, 1) * sim::draw("first_iteration", 1, 50); go->registerPluggableOM(std::make_shared<Mon>()); c.next = off;
		// the maximum refers to the iteration number, which is counted through the chain; at least one iteration is performed
		for (int i = 0, at = off; i < (int)c.s.size(); ++i) { at += sim::draw("iterations", 0, 4); c.s[i].alg->setMaxIteration(std::max(at, 1)); }
		for (auto &s : c.s) { for (int i = 0; &s == &c.s[0] && i < given - 1; ++i) s.alg->push_back(std::make_shared<Ind>(world().p)); *go & s.alg; }
		if (given) go->push_back(std::make_shared<Ind>(world().p)); else go->registerContentCreator(std::make_shared<Creator>(sim::draw("creator_delivers", 1, 10)));
		if (go->getNAlgorithms() != c.s.size()) sim::violate("order", "%s: %zu algorithms are registered", c.text.c_str(), go->getNAlgorithms());
		c.clients = &clients; c.watch(); clients.start(); std::thread guard([&c] { sim::label("guard"); c.guard(); }); bool by_argument = off && sim::draw("offset_by_argument", 0, 1); if (off && !by_argument) go->setOffset(off);
		for (int r = 0; r < rounds; ++r) {
			if (r) { c.idx = -1; c.ends = 0; c.handed.clear(); for (auto &s : c.s) s.iters = 0; sim::op("optimize again"); if ((int)go->getIteration() != c.next) sim::violate("iteration-numbers", "%s: getIteration() is %d after the run, the next iteration is %d", c.text.c_str(), (int)go->getIteration(), c.next); go->setOffset(go->getIteration()); by_argument = false; }
			int begin = c.next; std::string what; try { if (by_argument) go->optimize(off); else go->optimize(); } catch (std::exception &e) { what = e.what(); }
			// the documented way out of a run whose results are lost or late: nothing at all came back in time
			if (networked && (what.find("Population holds no data") != std::string::npos || what.find("No complete set of items received") != std::string::npos)) { sim::probe("nothing-came-back"); sim::op("gave up"); break; }
			if (!what.empty()) sim::violate("optimization-failed", "%s: optimize() was left by an exception: %.700s", c.text.c_str(), what.c_str());
			for (int i = 0, at = begin; i < (int)c.s.size(); ++i) { auto &s = c.s[i]; int max = s.alg->getMaxIteration(), want = std::max(1, max - at); at += s.iters; if (s.a == PS ? s.iters < 1 || s.iters > want : s.iters != want) sim::violate("iterations", "%s: %s performed %d iterations, its maximum is %d and it ended with iteration %d", c.text.c_str(), s.text.c_str(), s.iters, max, at); }
			c.result(*go, "result"); if (sim::draw("look_again", 0, 1)) c.result(*go, "result read twice");
		}
		c.over.set(true); guard.join(); watcher().f = nullptr; sim::op("the server ends"); for (auto &s : c.s) s.alg.reset(); go.reset(); if (nc) { sim::sleep_ns(sim::draw("exit_ms", 0, 300) * MS); sim::op("the server process ends"); sim::net::set_refuse(true); sim::net::reset_all(10000); } clients.finish(); sim::sample(c.text + " iterations=" + std::to_string(c.seen) + " clients=" + std::to_string(nc));
	}
}
}
SIM_SCENARIO(C31, local, 2) { chain(false); }
SIM_SCENARIO(C31, network, 2) { chain(true); }
