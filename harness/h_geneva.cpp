// C23-C25, C29: optimization algorithms.
#include "gen.hpp"
BOOST_CLASS_EXPORT_IMPLEMENT(g::Ind)
BOOST_CLASS_EXPORT_IMPLEMENT(g::Mon)
BOOST_CLASS_EXPORT_IMPLEMENT(g::OwnCons)
using namespace g;

namespace {
int limit_steps() { sim::cfg.mem_mean *= 16; sim::cfg.max_steps = 4000000; sim::cfg.max_time = 4000 * SEC; return 0; }
// C23: the population after an iteration
void population(const Setup &s, const G_OptimizationAlgorithm_Base *a) {
	sim::NoPreempt np;
	if ((int)a->size() != s.size) sim::violate("population-size", "%s: %zu individuals after iteration %u, %d are configured", s.text.c_str(), a->size(), a->getIteration(), s.size);
	std::string w = s.text + ", population after iteration " + std::to_string(a->getIteration());
	std::set<GParameterSet *> seen;
	for (auto &p : *a) { check_ind(p, w.c_str()); if (!seen.insert(p.get()).second) sim::violate("shared-individual", "%s: the same object occurs twice", w.c_str()); if (p->has_errors()) sim::violate("failed-candidate", "%s: a candidate whose evaluation failed", w.c_str()); }
	if (s.a == EA || s.a == SA) for (int i = 0; i < s.parents; ++i) {
		bool par = s.a == EA ? (*a).at(i)->getPersonalityTraits<GEvolutionaryAlgorithm_PersonalityTraits>()->isParent() : (*a).at(i)->getPersonalityTraits<GSimulatedAnnealing_PersonalityTraits>()->isParent();
		if (!par) sim::violate("population-structure", "%s: individual %d is not marked as a parent", w.c_str(), i);
	}
	if (s.a == SWARM) { std::map<int, int> n; for (auto &p : *a) ++n[p->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getNeighborhood()]; if ((int)n.size() != s.hoods) sim::violate("population-structure", "%s: %zu of %d neighborhoods are populated", w.c_str(), n.size(), s.hoods); for (auto &x : n) if (x.second != s.size / s.hoods) sim::violate("population-structure", "%s: neighborhood %d has %d members", w.c_str(), x.first, x.second); }
}
// C24: what is reported as the best
struct BestSoFar { bool any = false; double best = 0; };
void bests(const Setup &s, const G_OptimizationAlgorithm_Base *a, BestSoFar &b, bool over, bool all_counts) {
	auto v = const_cast<G_OptimizationAlgorithm_Base *>(a)->getBestGlobalIndividuals<Ind>(); sim::NoPreempt np;
	std::string w = s.text + ", best of iteration " + std::to_string(a->getIteration());
	if (v.empty()) sim::violate("no-best", "%s: no best individual", w.c_str());
	double top = 0; for (size_t i = 0; i < v.size(); ++i) { check_ind(v[i], w.c_str()); double f = v[i]->raw_fitness(0); if (!i || better(f, top)) top = f; if (i && better(f, v[i - 1]->raw_fitness(0))) sim::violate("bests-unsorted", "%s: the list of best individuals is not sorted", w.c_str()); }
	if (v[0]->raw_fitness(0) != top) sim::violate("wrong-best", "%s: the first of the best is not the best", w.c_str());
	// (mu,nu) selection of a Pareto front gives up the parents on purpose
	bool multi = world().p.criteria > 1 && s.a == EA, gives_up = s.a == EA && (s.sorting == sortingMode::MUCOMMANU_PARETO || (multi && s.sorting == sortingMode::MUPLUSNU_PARETO));
	if (b.any && !gives_up && better(b.best, top)) sim::violate("best-got-worse", "%s: best quality went from %.17g to %.17g", w.c_str(), b.best, top);
	for (auto &p : *a) if (!(multi && s.sorting == sortingMode::MUCOMMANU_PARETO) && p->is_processed() && !p->has_errors() && better(p->raw_fitness(0), top)) sim::violate("better-candidate-ignored", "%s: reported %.17g, but the population holds %.17g", w.c_str(), top, p->raw_fitness(0));
	// a swarm: each candidate remembers the best point it has been at
	if (s.a == SWARM && !over) for (auto &p : *a) {
		auto t = p->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>(); auto pb = t->getPersonalBest(); check_ind(pb, (w + ", personal best").c_str());
		double q = std::get<0>(t->getPersonalBestQuality()); if (q != pb->raw_fitness(0)) sim::violate("personal-best-quality", "%s: the quality %.17g is recorded for a personal best with the quality %.17g", w.c_str(), q, pb->raw_fitness(0));
		if (better(p->raw_fitness(0), q)) sim::violate("personal-best", "%s: a candidate with quality %.17g has a personal best of only %.17g", w.c_str(), p->raw_fitness(0), q);
	}
	// nothing is lost: the best is the best of everything that was ever evaluated
	if (all_counts && !gives_up) for (auto &x : world().done) if (better(truth(x.first), top)) sim::violate("better-candidate-forgotten", "%s: reported %.17g, but %s was evaluated to %.17g", w.c_str(), top, str(x.first).c_str(), truth(x.first));
	b.any = true; b.best = top;
}
// C35: the Pareto front. Only the transformed values are compared, check_ind() has verified them
bool dominates(const GParameterSet &x, const GParameterSet &y) {
	bool some = false; for (int k = 0; k < world().p.criteria; ++k) { double a = x.transformed_fitness(k), b = y.transformed_fitness(k); if (world().p.maximize) std::swap(a, b); if (b < a) return false; if (a < b) some = true; } return some;
}
std::string values(const GParameterSet &p) { Vec v; for (int k = 0; k < world().p.criteria; ++k) v.push_back(p.transformed_fitness(k)); return str(v); }
struct Recorded : GEvolutionaryAlgorithm { using G_OptimizationAlgorithm_Base::getNRecordBestIndividuals; using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals; };
struct Front { std::vector<std::shared_ptr<GParameterSet>> parents; };
void pareto(const Setup &s, const G_OptimizationAlgorithm_Base *a, Front &f) {
	auto alg = const_cast<G_OptimizationAlgorithm_Base *>(a); auto global = alg->getBestGlobalIndividuals<Ind>(), current = alg->getBestIterationIndividuals<Ind>(); std::vector<std::shared_ptr<GParameterSet>> old; sim::NoPreempt np; std::string w = s.text + ", iteration " + std::to_string(a->getIteration());
	bool comma = s.sorting == sortingMode::MUCOMMANU_PARETO && !f.parents.empty(); std::vector<std::shared_ptr<GParameterSet>> pool; for (auto &p : *a) if (!comma || std::find(f.parents.begin(), f.parents.end(), p) == f.parents.end()) pool.push_back(p);
	std::set<GParameterSet *> front; for (auto &p : pool) { bool beaten = false; for (auto &q : pool) if (dominates(*q, *p)) beaten = true; if (!beaten) front.insert(p.get()); }
	std::multiset<Vec> pts; int n = 0; for (auto &p : *a) { bool on = front.count(p.get()), told = p->getPersonalityTraits<GEvolutionaryAlgorithm_PersonalityTraits>()->isOnParetoFront(); if (on) { ++n; pts.insert(ind(p)->point()); }
		if (on != told) sim::violate("pareto-front", "%s: a candidate with the criteria %s %s marked as being on the Pareto front, but it %s dominated", w.c_str(), values(*p).c_str(), told ? "is" : "is not", on ? "is not" : "is"); }
	for (int i = 0; i < s.parents; ++i) {
		bool on = front.count((*a).at(i).get()); if (n >= s.parents && !on) sim::violate("pareto-parents", "%s: there are %d candidates on the Pareto front, but parent %d is none of them", w.c_str(), n, i);
		if (i && better((*a).at(i)->transformed_fitness(0), (*a).at(i - 1)->transformed_fitness(0))) sim::violate("pareto-parents", "%s: the parents are not sorted", w.c_str());
	}
	if (n < s.parents) {
		int on = 0; double least = 0; bool any = false; for (int i = 0; i < s.parents; ++i) { auto &p = (*a).at(i); if (front.count(p.get())) ++on; else { double t = p->transformed_fitness(0); if (!any || better(least, t)) least = t; any = true; } }
		if (on != n) sim::violate("pareto-parents", "%s: only %d of %d candidates on the Pareto front have become one of %d parents", w.c_str(), on, n, s.parents);
		for (size_t i = s.parents; i < a->size(); ++i) if (better((*a).at(i)->transformed_fitness(0), least)) sim::violate("pareto-parents", "%s: a candidate that is better than one of the parents was left out", w.c_str());
	}
	std::set<std::string> ids; for (auto &p : pool) if (front.count(p.get())) ids.insert(p->getCurrentEvaluationID()); size_t limit = (alg->*&Recorded::getNRecordBestIndividuals)();
	for (auto *v : {&global, &current}) {
		size_t want = v == &global ? std::min(ids.size(), limit) : ids.size(); // the list of the iteration is not limited
		if (v->size() != want) sim::violate("pareto-best", "%s: %zu best candidates are reported, expected are %zu", w.c_str(), v->size(), want);
		for (auto &p : *v) { check_ind(p, w.c_str()); if (!pts.count(p->point())) sim::violate("pareto-best", "%s: a candidate with the criteria %s is reported as one of the best, but it is not on the Pareto front", w.c_str(), values(*p).c_str()); }
	}
	if (n > 1) sim::probe("front-of-several"); if (n > s.parents) sim::probe("front-exceeds-parents"); if (n < s.parents) sim::probe("front-smaller-than-parents"); if (comma) sim::probe("children-only");
	old.swap(f.parents); for (int i = 0; i < s.parents; ++i) f.parents.push_back((*a).at(i));
}
void run(int which_check, bool losses) {
	limit_steps(); Problem p = draw_problem(); world().p.ms_max = sim::draw("slow_evaluation", 0, 1) ? 50 : 0; bool failures = sim::swarm("failing_evaluations"); world().p.failures = failures;
	Alg alg = which_check == 35 && sim::draw("other_algorithm", 0, 3) < 3 ? EA : (Alg)sim::draw("algorithm", 0, which_check == 23 ? (int)SWARM : (int)PS);
	if (which_check == 35) { world().p.criteria = sim::draw("criteria", 2, 4); if (sim::draw("constrained", 0, 3) == 3) draw_constraints(); p = world().p; }
	if (which_check == 33 || which_check == 34) { if (which_check == 34 || sim::draw("tree", 0, 1)) draw_structure(false); if (which_check == 33 || sim::draw("constrained", 0, 3) == 3) draw_constraints(); p = world().p; }
	Setup s = draw_alg(alg); if (which_check == 35) { if (s.a == EA) std::static_pointer_cast<GEvolutionaryAlgorithm>(s.alg)->setSortingScheme(s.sorting = sim::draw("comma", 0, 1) ? sortingMode::MUCOMMANU_PARETO : sortingMode::MUPLUSNU_PARETO); (s.alg.get()->*&Recorded::setNRecordBestIndividuals)(sim::draw("recorded", 1, 16)); }
	if (s.a >= GD) world().p.failures = failures = false;
	if (s.a == GD) { int nd = 0; for (auto &t : p.slots) nd += t.kind == 'd' && t.active; if (nd) s.size = s.parents * (nd + 1); }
	int iters = sim::draw("iterations", 1, which_check >= 33 ? 10 : 6); s.alg->setMaxIteration(iters);
	Evaluation ev; Exec k = losses ? REMOTE : (Exec)sim::draw("executor", 0, 3); ev.start(k, losses && s.a < GD); ev.use(s.alg);
	fill(s, s.a == PS || s.a == GD ? 1 : sim::draw("given_individuals", 1, s.size));
	int seen = 0; BestSoFar b; Front front; std::map<int, int> it;
	watcher().f = [&](infoMode m, const G_OptimizationAlgorithm_Base *a) {
		if (m != infoMode::INFOPROCESSING) return;
		sim::op("iteration %u", a->getIteration()); ++seen;
		if (which_check == 23 || (which_check >= 33 && s.a <= SWARM)) { population(s, a); bests(s, a, b, false, !losses); } else bests(s, a, b, false, !losses);
		if (which_check == 35 && s.a == EA) pareto(s, a, front);
	};
	if (s.a == PS) { auto ps = std::static_pointer_cast<GParameterScan>(s.alg); if (sim::draw("simple_scan", 0, 1)) ps->setNSimpleScans(sim::draw("n_simple", 1, 20)); else { std::string spec; int dims = p.items.empty() ? p.dim : 1; for (int i = 0; i < dims; ++i) spec += (i ? ", " : "") + std::string("d(v") + std::to_string(i) + ", " + std::to_string(p.lo) + ", " + std::to_string(p.hi) + ", " + std::to_string(sim::draw("grid", 2, 4)) + ")"; ps->setParameterSpecs(spec); } }
	bool died = false; std::string what;
	try { s.alg->optimize(); } catch (std::exception &e) { died = true; what = e.what(); }
	watcher().f = nullptr;
	if (died) {
		// the documented ways out: nothing at all came back
		if ((failures || losses) && (what.find("Population holds no data") != std::string::npos)) { sim::probe("nothing-came-back"); }
		// the penalty of the sigmoid policy grows with the distance, so that a gradient descent with large steps diverges by itself
		else if (s.a == GD && world().p.policy == evaluationPolicy::USESIGMOID && !world().p.cons.empty() && (what.find("too large and cannot be") != std::string::npos || what.find("bad numeric conversion") != std::string::npos)) sim::probe("diverged");
		else sim::violate("optimization-failed", "%s: optimize() was left by an exception: %.700s", s.text.c_str(), what.c_str());
	} else {
		if (s.a != PS && seen != iters) sim::violate("iterations", "%s: %d iterations, %d are configured", s.text.c_str(), seen, iters);
		bests(s, s.alg.get(), b, true, !losses);
	}
	ev.end(); sim::sample(s.text + " iterations=" + std::to_string(seen) + " executor=" + exn[k] + (failures ? " failures" : "") + (losses ? " lost=" + std::to_string(ev.lost()) + " late=" + std::to_string(ev.late()) : ""));
}
}
SIM_SCENARIO(C23, lossy, 3) { run(23, true); }
SIM_SCENARIO(C23, any_executor, 2) { run(23, false); }
SIM_SCENARIO(C24, any_executor, 2) { run(24, false); }
SIM_SCENARIO(C24, lossy, 2) { run(24, true); }
SIM_SCENARIO(C33, any_executor, 3) { run(33, false); }
SIM_SCENARIO(C33, lossy, 1) { run(33, true); }
SIM_SCENARIO(C34, any_executor, 3) { run(34, false); }
SIM_SCENARIO(C34, lossy, 1) { run(34, true); }
SIM_SCENARIO(C35, any_executor, 3) { run(35, false); }
SIM_SCENARIO(C35, lossy, 1) { run(35, true); }

// ------------------------------------------------------------------ C25
namespace {
// pair: a criterion together with a minimum, in cheap runs; what counts is the whole history, not the last iteration
void halting(bool clock_steps, bool pair = false) {
	limit_steps(); Problem p = draw_problem(); world().p.ms_max = sim::draw("eval_max_ms", 0, 3) * 40; if (clock_steps) sim::clock_faults(0.002);
	Alg alg = (Alg)sim::draw("algorithm", 0, (int)PS); Setup s = draw_alg(alg, false); auto a = s.alg;
	Exec k = pair ? SERIAL : (Exec)sim::draw("executor", 0, 3); Evaluation ev; ev.start(k); ev.use(a); fill(s, 1);
	auto on = [pair](const char *n) { return pair ? sim::draw(n, 0, 3) > 0 : sim::swarm(n); };
	std::string crit; auto C = [&](const char *n, double v) { char b[60]; snprintf(b, sizeof b, " %s=%g", n, v); crit += b; };
	int max_it = 0, min_it = 0, max_stall = 0; double max_t = 0, min_t = 0, thr = 0; bool quality = false, hup = false, stopfile = false, stale = false;
	a->setMaxIteration(0); a->setMaxStallIteration(0);
	if (alg == PS) { auto ps = std::static_pointer_cast<GParameterScan>(a); ps->setNSimpleScans(sim::draw("n_simple", 1, 60)); }
	if (on("max_iteration")) { max_it = pair ? sim::draw("max_it", 12, 20) : sim::draw("max_it", 1, 15); a->setMaxIteration(max_it); C("max_iteration", max_it); }
	if (on("stalls")) { max_stall = sim::draw("stall", 1, 6); a->setMaxStallIteration(max_stall); C("max_stall", max_stall); }
	if (sim::swarm("max_time")) { max_t = 0.1 * sim::draw("max_time", 1, 30); a->setMaxTime(std::chrono::duration<double>(max_t)); C("max_time", max_t); }
	if (on("quality")) { quality = true; thr = 0.05 * sim::draw("threshold", 0, 60); if (world().p.maximize) thr = 3 - thr; a->setQualityThreshold(thr, true); C("threshold", thr); }
	if (on("min_iteration")) { min_it = sim::draw("min_it", 1, max_it ? std::max(1, max_it - 1) : 10); if (max_it && min_it >= max_it) min_it = 0; a->setMinIteration(min_it); C("min_iteration", min_it); }
	if (on("min_time")) { min_t = 0.1 * sim::draw("min_time", 1, 20); if (max_t && min_t >= max_t) min_t = max_t / 2; a->setMinTime(std::chrono::duration<double>(min_t)); C("min_time", min_t); }
	hup = sim::swarm("signal"); stopfile = sim::swarm("stop_file"); stale = stopfile && sim::draw("stale", 0, 1);
	auto touch = [](bool fresh) { sim::NoPreempt np; { std::ofstream f("stop.now"); f << "stop"; } std::filesystem::last_write_time("stop.now", std::filesystem::last_write_time("stop.now") + std::chrono::hours(fresh ? 5 : -5)); };
	if (stopfile) { a->setTerminationFile("stop.now", true); if (stale) { touch(false); C("stale_stop_file", 1); } } else if (sim::draw("unused_stop_file", 0, 3) == 3) { touch(true); }
	// the user stops the run at some time
	int when = sim::draw("user_ms", 1, 4000); bool always = !max_it && !max_t; bool by_file = stopfile && (!hup || sim::draw("by_file", 0, 1)); bool user = hup || stopfile || always;
	h::Cell<bool> stop_now, over; i64 user_at = -1, user_done = -1;
	std::thread t; if (user) t = std::thread([&] {
		sim::label("user"); sim::wait_until([&] { return over.get(); }, when * MS, 10 * MS); if (over.get()) return;
		sim::atomically([&] { user_at = sim::seq(); }); if (by_file) touch(true); else GObject::sigHupHandler(SIGHUP); sim::atomically([&] { user_done = sim::seq(); }); sim::op("asked to stop by %s", by_file ? "file" : "signal"); });
	i64 lower = -1, upper = -1, prev_t = 0, end_t = 0; i64 prev_seq = 0; int done = 0, stalls = 0; bool any = false, ended = false; double best = 0; bool all_scanned = false;
	world().on_eval = [&](const Vec &) { if (upper < 0) upper = sim::now(); };
	auto sec = [](i64 x) { return x / 1e9; };
	bool hard = alg <= SWARM;         // the algorithms whose best candidate of an iteration is always recorded
	auto must = [&](std::string &why) {
		if (user_done >= 0 && user_done < prev_seq) { why = by_file ? "the stop file was touched" : "the stop signal was sent"; return true; }
		if (min_it && done <= min_it) return false;
		if (sec(prev_t - upper) <= min_t) return false;
		if (max_it && done >= max_it) { why = "the maximum number of iterations was reached"; return true; }
		if (hard && max_stall && stalls > max_stall) { why = "there was no improvement for more than the configured number of iterations"; return true; }
		if (max_t && sec(prev_t - upper) >= max_t) { why = "the maximum time had passed"; return true; }
		if (quality && any && better(best, thr)) { why = "the quality threshold was passed"; return true; }
		return false;
	};
	watcher().f = [&](infoMode m, const G_OptimizationAlgorithm_Base *o) {
		if (m == infoMode::INFOINIT) { lower = sim::now(); return; }
		std::string why; std::vector<std::shared_ptr<Ind>> v; if (m == infoMode::INFOPROCESSING) { sim::atomically([&] { if (done && must(why)) sim::violate("did-not-stop", "%s,%s: another iteration was performed after %d iterations, although %s", s.text.c_str(), crit.c_str(), done, why.c_str()); }); v = const_cast<G_OptimizationAlgorithm_Base *>(o)->getBestGlobalIndividuals<Ind>(); }
		sim::NoPreempt np;
		if (m == infoMode::INFOPROCESSING) {
			if (max_it && !min_it && !min_t && done >= max_it) sim::violate("too-many-iterations", "%s,%s: iteration %d", s.text.c_str(), crit.c_str(), done + 1);
			if (o->getIteration() != (unsigned)done) sim::violate("iteration-count", "%s: iteration %d reported as %u", s.text.c_str(), done, o->getIteration());
			++done; double top = v.empty() ? 0 : v[0]->raw_fitness(0);
			// the candidates for the difference quotients of a gradient descent do not count
			if (alg == GD) { for (int i = 0; i < s.parents; ++i) { double f = (*o).at(i)->raw_fitness(0); if (!i || better(f, top)) top = f; } if (any && better(best, top)) top = best; }
			if (!any || better(top, best)) { stalls = 0; best = top; } else ++stalls; any = true;
			sim::op("iteration %d best %.4g stalls %d", done, best, stalls); prev_t = sim::now(); prev_seq = sim::seq();
			if (done == 300) { sim::discard("endless"); }
		} else { ended = true; end_t = sim::now(); }
	};
	std::string what; try { a->optimize(); } catch (std::exception &e) { what = e.what(); }
	i64 end_seq = sim::atomically([] { return (i64)sim::seq(); }); over.set(true); if (t.joinable()) t.join(); watcher().f = nullptr; world().on_eval = nullptr;
	if (!what.empty()) sim::violate("optimization-failed", "%s,%s: optimize() was left by an exception: %.700s", s.text.c_str(), crit.c_str(), what.c_str());
	if (!ended || !done) sim::violate("no-end", "%s: %d iterations, end %sreported", s.text.c_str(), done, ended ? "" : "not ");
	// why did it stop ?
	bool asked = user_at >= 0 && user_at < end_seq, ok = asked; std::string reason = asked ? "user" : "";
	bool minimum = !(min_it && done <= min_it) && !(sec(end_t - lower) < min_t);
	if (!ok && minimum) {
		if (max_it && done >= max_it) ok = true, reason = "iterations";
		else if (max_stall && (stalls > max_stall || (!hard && done > max_stall))) ok = true, reason = "stalls";
		else if (max_t && sec(end_t - lower) >= max_t) ok = true, reason = "time";
		else if (quality && better(best, thr)) ok = true, reason = "quality";
		else if (alg == PS) ok = true, reason = "scan finished";
	}
	if (!ok) sim::violate("stopped-early", "%s,%s: stopped after %d iterations and %.3f s (%d stalls, best %.6g) without any reason%s", s.text.c_str(), crit.c_str(), done, sec(end_t - lower), stalls, best, minimum ? "" : ", below the configured minimum");
	sim::probe(("stopped-by-" + reason).c_str()); ev.end(); sim::sample(s.text + crit + " stopped by " + reason + " after " + std::to_string(done)); (void)all_scanned;
}
}
SIM_SCENARIO(C25, criteria, 3) { halting(false); }
SIM_SCENARIO(C25, with_minimum, 3) { halting(false, true); }
SIM_SCENARIO(C25, clock_steps, 2) { halting(true); }

// ------------------------------------------------------------------ C30
namespace {
struct Expose : GParameterScan { using G_OptimizationAlgorithm_Base::setDefaultPopulationSize; };
void scan(bool grid) {
	limit_steps(); Problem p = draw_problem(); world().p.ms_max = sim::draw("slow_evaluation", 0, 1) ? 30 : 0;
	Setup s = draw_alg(PS); auto ps = std::static_pointer_cast<GParameterScan>(s.alg); int size = sim::draw("population", 1, 12); (ps.get()->*(&Expose::setDefaultPopulationSize))((std::size_t)size);
	ps->setMaxIteration(0); ps->setMaxStallIteration(0);
	Evaluation ev; Exec k = (Exec)sim::draw("executor", 0, 3); ev.start(k); ev.use(s.alg); fill(s, sim::draw("given_individuals", 1, 3));
	long expect = 1; std::map<Vec, int> want; std::string spec;
	if (grid) {
		bool random = sim::draw("random_points", 0, 3) == 3; ps->setScanRandomly(random); std::vector<std::vector<double>> axis;
		for (int i = 0; i < p.dim; ++i) {
			int n = sim::draw("points", 2, p.dim == 1 ? 30 : 5); double lo = p.lo + 0.25 * sim::draw("from", 0, 2), hi = p.hi - 0.25 * sim::draw("to", 1, 2); char b[120]; std::vector<double> a; expect *= n;
			bool named = sim::draw("named", 0, 1) || i; (void)named; snprintf(b, sizeof b, "%sd(v%d, %g, %g, %d)", i ? ", " : "", i, lo, hi, n); spec += b; for (int j = 0; j < n; ++j) a.push_back(lo + (hi - lo) * double(j) / double(n - 1)); axis.push_back(a);
		}
		ps->setParameterSpecs(spec);
		if (!random) { std::vector<size_t> ix(p.dim, 0); while (true) { Vec v; for (int i = 0; i < p.dim; ++i) v.push_back(axis[i][ix[i]]); want[v] = 1; int i = 0; while (i < p.dim && ++ix[i] == axis[i].size()) ix[i++] = 0; if (i == p.dim) break; } }
	} else { expect = sim::draw("n_simple", 1, 40); ps->setNSimpleScans(expect); spec = std::to_string(expect) + " random points"; }
	int runs = 1; long iterations = 0; BestSoFar b;
	watcher().f = [&](infoMode m, const G_OptimizationAlgorithm_Base *a) { if (m == infoMode::INFOPROCESSING) { ++iterations; bests(s, a, b, false, true); if (iterations > expect + 5) sim::violate("endless-scan", "%s, population %d: iteration %ld of a scan of %ld points", spec.c_str(), size, iterations, expect); } };
	try { ps->optimize(); } catch (std::exception &e) { sim::violate("optimization-failed", "%s: optimize() was left by an exception: %.600s", spec.c_str(), e.what()); }
	watcher().f = nullptr; (void)runs;
	{ sim::NoPreempt np; World &w = world();
	if (w.completed != expect) sim::violate("wrong-number-of-points", "%s, population %d: %d evaluations, %ld were asked for", spec.c_str(), size, w.completed, expect);
	for (auto &x : want) { int n = w.done.count(x.first) ? w.done[x.first].n : 0; if (n != 1) sim::violate(n ? "point-repeated" : "point-missed", "%s, population %d: %s was evaluated %d times", spec.c_str(), size, str(x.first).c_str(), n); } }
	bests(s, ps.get(), b, true, true); ev.end(); sim::sample(spec + " population=" + std::to_string(size) + " executor=" + exn[k]);
}
}
SIM_SCENARIO(C30, grid, 3) { scan(true); }
SIM_SCENARIO(C30, simple, 2) { scan(false); }
