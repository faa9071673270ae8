// Shared by the optimization harness (C23-C29): an individual with a known, pure
// fitness function, a book of everything that was ever evaluated, algorithms with
// drawn configurations, executors, a thief that loses or delays work.
#pragma once
#include "util.hpp"
#include <fstream>
#include <filesystem>
#include <boost/serialization/export.hpp>
#include "geneva/GParameterSet.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva-individuals/GFunctionIndividual.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include "geneva/Go2.hpp"
#include "courtier/GStdThreadConsumerT.hpp"

namespace g {
using namespace Gem::Geneva; using namespace Gem::Courtier; using sim::i64; using sim::MS; using sim::SEC;
using Vec = std::vector<double>;
struct Ev { int n = 0; };                              // completed evaluations of a point
// one value of a candidate: doubles first, then integers, then booleans
struct Slot { char kind = 'd'; double lo = 0, hi = 0; bool bounded = true, active = true; double fixed = 0; };
// a parameter object of a candidate with drawn structure
struct Item { int kind = 0, n = 1; double lo = 0, hi = 0; bool active = true; std::vector<Item> sub; };
enum Cons { NOCONS, SUM, SPHERE, FORMULA, OWN, NCONS };
struct Constraint { Cons kind = NOCONS; double c = 1; };
struct Problem { std::vector<Item> items; std::vector<Slot> slots; std::vector<Constraint> cons; bool add_cons = false, allow_negative = false; evaluationPolicy policy = evaluationPolicy::USESIMPLEEVALUATION; double barrier = 0, steepness = 0; int retries = 0, unsuccessful = 1000; double ad_prob = 0.9;
	int dim = 2, shape = 0, criteria = 1; bool maximize = false; double lo = -4, hi = 4; int ms_max = 0; bool failures = false, flagging = false, cliffs = false; };
struct World { Problem p; std::map<Vec, Ev> done; std::set<Vec> flagged; int running = 0, started = 0, failed = 0, completed = 0; std::function<void(const Vec &)> on_eval; };
inline World &world() { static World *w = new World; return *w; }

// the true quality of a point
__attribute__((noinline, optnone)) inline double truth(const Vec &x) {
	const Problem &p = world().p; double r = 0;
	for (size_t i = 0; i < x.size(); ++i) { double d = x[i] - (0.7 - 0.9 * i); switch (p.shape) { case 0: r += d * d; break; case 1: r += std::fabs(d) + 0.3 * (i + 1); break; case 2: r += d * d - 2 * std::cos(3 * d); break; default: r += std::floor(d * d); } }
	if (p.cliffs && r > 20) r = 20;                    // a plateau
	return p.maximize ? 3 - r : r;
}
// further criteria of a candidate; they are in conflict with the first one
inline double truth(const Vec &x, int k) {
	if (!k) return truth(x);
	const Problem &p = world().p; double r = 0; for (size_t i = 0; i < x.size(); ++i) { double d = x[i] + 0.5 * k - 0.3 * i; r += p.shape == 3 ? std::floor(std::fabs(d)) : d * d; } return p.maximize ? 3 - r : r;
}
// --- constraints: the level of invalidity, as documented for the classes (0 or up to 1: valid)
inline double own_level(const Vec &v) { double r = 0; for (double d : v) r += std::fabs(d); return r; }
inline double one_level(const Constraint &c, const Vec &d, const Vec &all, const Problem &p) {
	double s = 0, l = 0;
	switch (c.kind) {
	case SUM: for (double x : d) s += x; l = s < c.c ? 0 : s / c.c; break;
	case SPHERE: for (double x : d) s += x * x; s = std::sqrt(s); l = s <= c.c ? 0 : (s / c.c) * (s / c.c); break;
	case FORMULA: l = std::fabs(d[0]) / c.c; break;
	default: l = own_level(all) / c.c - (p.allow_negative ? 3 : 0); break;
	}
	if (p.allow_negative && l <= 1) return 0; if (!p.allow_negative && l < 0) l = 1 + std::fabs(l); return l <= 1 ? 0 : l;
}
inline double level(const Vec &all) {
	const Problem &p = world().p; Vec d; for (size_t i = 0; i < all.size(); ++i) if (p.slots.empty() || p.slots[i].kind == 'd') d.push_back(all[i]);
	double r = 0; for (auto &c : p.cons) { double l = one_level(c, d, all, p); if (l > 0) r = r == 0 ? l : p.add_cons ? r + l : r * l; } return r;
}
inline bool valid(const Vec &v) { return level(v) <= 1; }
// the formula parser reads its constants from text: at the very edge the last bit decides
inline bool edge(const Vec &all) { const Problem &p = world().p; for (auto &c : p.cons) if (c.kind == FORMULA && std::fabs(std::fabs(all[0]) / c.c - 1) < 1e-9) return true; return false; }
class OwnCons : public GParameterSetConstraint {
	friend class boost::serialization::access;
	template <typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSetConstraint>(*this)) & boost::serialization::make_nvp("c", c); }
public:
	double c = 1; OwnCons() = default; OwnCons(const OwnCons &) = default; explicit OwnCons(double x) : c(x) {}
protected:
	double check_(const GParameterSet *p) const override;
	void load_(const GObject *cp) override { GParameterSetConstraint::load_(cp); c = dynamic_cast<const OwnCons *>(cp)->c; }
private:
	GObject *clone_() const override { return new OwnCons(*this); }
};
inline std::shared_ptr<GParameterBase> make(const Item &i, const std::string &name) {
	auto gauss = [] { auto a = std::make_shared<GDoubleGaussAdaptor>(0.2, 0.5, 0.001, 1., world().p.ad_prob); a->setAdaptionThreshold(1); a->setAdaptAdProb(0.1); return a; };
	auto flip = [] { auto a = std::make_shared<GInt32FlipAdaptor>(world().p.ad_prob); return a; };
	auto boolean = [] { return std::make_shared<GBooleanAdaptor>(world().p.ad_prob * 0.5); };
	std::shared_ptr<GParameterBase> r; double f = i.lo + 0.25 * (i.hi - i.lo); int ilo = (int)i.lo, ihi = (int)i.hi, fi = ilo + (ihi - ilo) / 3;
	auto named = [&](auto p, auto ad) { p->addAdaptor(ad); p->setParameterName(name); r = p; };
	switch (i.kind) {
	case 0: named(std::make_shared<GConstrainedDoubleObject>(f, i.lo, i.hi), gauss()); break;
	case 1: { auto p = std::make_shared<GDoubleObject>(i.lo, i.hi); p->setValue(f); named(p, gauss()); break; }
	case 2: { auto p = std::make_shared<GConstrainedDoubleCollection>(i.n, i.lo, i.hi); for (int k = 0; k < i.n; ++k) p->setValue(k, f); named(p, gauss()); break; }
	case 3: named(std::make_shared<GDoubleCollection>(i.n, f, i.lo, i.hi), gauss()); break;
	case 4: named(std::make_shared<GConstrainedInt32Object>(fi, ilo, ihi), flip()); break;
	case 5: { auto p = std::make_shared<GInt32Object>(fi, ilo, ihi); named(p, flip()); break; }
	case 6: named(std::make_shared<GBooleanObject>(true), boolean()); break;
	case 7: { auto p = std::make_shared<GBooleanCollection>((std::size_t)i.n, true); named(p, boolean()); break; }
	case 8: { auto p = std::make_shared<GConstrainedDoubleObjectCollection>(); for (int k = 0; k < i.n; ++k) { auto d = std::make_shared<GConstrainedDoubleObject>(f, i.lo, i.hi); d->addAdaptor(gauss()); d->setParameterName(name + "_" + std::to_string(k)); if (!i.active) d->setAdaptionsInactive(); p->push_back(d); } p->setParameterName(name); r = p; break; }
	default: { auto p = std::make_shared<GParameterObjectCollection>(); int k = 0; for (auto &x : i.sub) p->push_back(make(x, name + "_" + std::to_string(k++))); p->setParameterName(name); r = p; break; }
	}
	if (!i.active && i.kind != 9) r->setAdaptionsInactive(); return r;
}
class Ind : public GParameterSet {
	friend class boost::serialization::access;
	template <typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); }
public:
	Ind() = default; Ind(const Ind &) = default;
	explicit Ind(const Problem &p) : GParameterSet(std::size_t(p.criteria)) {
		setMaxMode(p.maximize ? maxMode::MAXIMIZE : maxMode::MINIMIZE);
		if (p.barrier > 0) setBarrier(p.barrier); if (p.steepness > 0) setSteepness(p.steepness); setEvaluationPolicy(p.policy); if (p.retries) setMaxRetriesUntilValid(p.retries); setMaxUnsuccessfulAdaptions(p.unsuccessful);
		if (!p.cons.empty()) {
			std::vector<std::shared_ptr<GPreEvaluationValidityCheckT<GParameterSet>>> v;
			for (auto &c : p.cons) {
				std::shared_ptr<GPreEvaluationValidityCheckT<GParameterSet>> q; char b[60]; snprintf(b, sizeof b, "fabs({{v0}})/%.17g", c.c);
				if (c.kind == SUM) q = std::make_shared<GDoubleSumConstraint>(c.c); else if (c.kind == SPHERE) q = std::make_shared<GSphereConstraint>(c.c); else if (c.kind == FORMULA) q = std::make_shared<GParameterSetFormulaConstraint>(b); else q = std::make_shared<OwnCons>(c.c);
				q->setAllowNegative(p.allow_negative); v.push_back(q);
			}
			if (v.size() == 1) registerConstraint(v[0]);
			else { auto q = std::make_shared<GCheckCombinerT<GParameterSet>>(); q->setCombinerPolicy(p.add_cons ? validityCheckCombinerPolicy::ADDINVALID : validityCheckCombinerPolicy::MULTIPLYINVALID); for (auto &x : v) q->addCheck(x); q->setAllowNegative(p.allow_negative); registerConstraint(q); }
		}
		if (!p.items.empty()) { int n = 0; for (auto &i : p.items) push_back(make(i, "v" + std::to_string(n++))); randomInit(activityMode::ACTIVEONLY); return; }
		for (int i = 0; i < p.dim; ++i) {
			auto d = std::make_shared<GConstrainedDoubleObject>(p.lo, p.hi); d->setParameterName("v" + std::to_string(i));
			auto a = std::make_shared<GDoubleGaussAdaptor>(0.2, 0.5, 0.001, 1., 0.9); a->setAdaptionThreshold(1); a->setAdaptAdProb(0.1); d->addAdaptor(a); push_back(d);
		}
		randomInit(activityMode::ALLPARAMETERS);
	}
	Vec point() const {
		if (!world().p.items.empty()) { Vec v; std::vector<std::int32_t> i; std::vector<bool> b; streamline<double>(v); streamline<std::int32_t>(i); streamline<bool>(b); v.insert(v.end(), i.begin(), i.end()); for (bool x : b) v.push_back(x); return v; }
		Vec v; for (size_t i = 0; i < size(); ++i) v.push_back(at<GConstrainedDoubleObject>(i)->value()); return v;
	}
	void set(const Vec &v) { for (size_t i = 0; i < size(); ++i) at<GConstrainedDoubleObject>(i)->setValue(v[i]); mark_as_due_for_processing(); }
protected:
	void load_(const GObject *cp) override { GParameterSet::load_(cp); }
	double fitnessCalculation() override {
		Vec x = point(); World &w = world(); const Problem &p = w.p;
		if (p.policy != evaluationPolicy::USESIMPLEEVALUATION && !valid(x) && !edge(x)) sim::violate("invalid-evaluated", "a candidate that violates its constraints (level %.17g) was handed to the fitness function", level(x));
		int ms = p.ms_max ? (int)sim::draw("eval_ms", 0, p.ms_max) : 0;
		{ sim::NoPreempt np; ++w.started; ++w.running; }
		if (ms) sim::sleep_ns(ms * MS); else sim::yield_point();
		sim::NoPreempt np; --w.running;
		if (p.failures && sim::draw("eval_fails", 0, 9) == 9) { ++w.failed; if (sim::draw("how", 0, 1)) throw std::runtime_error("evaluation failed"); throw gemfony_exception("evaluation failed"); }
		++w.done[x].n; ++w.completed; if (w.on_eval) w.on_eval(x);
		for (int k = 1; k < p.criteria; ++k) setResult(k, truth(x, k));
		return truth(x);
	}
private:
	GObject *clone_() const override { return new Ind(*this); }
};
inline double OwnCons::check_(const GParameterSet *p) const { return own_level(static_cast<const Ind *>(p)->point()) / c - (world().p.allow_negative ? 3 : 0); }
inline std::string str(const Vec &v) { std::string s = "("; char b[40]; for (double d : v) { snprintf(b, sizeof b, "%s%.17g", s.size() > 1 ? ", " : "", d); s += b; } return s + ")"; }

// called by the algorithms after every iteration
struct Watcher { std::function<void(infoMode, const G_OptimizationAlgorithm_Base *)> f; };
inline Watcher &watcher() { static Watcher *w = new Watcher; return *w; }
class Mon : public GBasePluggableOM {
	friend class boost::serialization::access;
	template <typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GBasePluggableOM>(*this)); }
protected:
	void load_(const GObject *cp) override { GBasePluggableOM::load_(cp); }
private:
	GObject *clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const *const a) override { if (watcher().f) watcher().f(m, a); }
};

enum Alg { EA, SA, SWARM, GD, PS, NALG };
static const char *algn[] = {"ea", "sa", "swarm", "gd", "ps"};
struct Setup { Alg a; int size = 0, parents = 0, hoods = 0, iters = 0; std::string text; std::shared_ptr<G_OptimizationAlgorithm_Base> alg; sortingMode sorting = sortingMode::MUPLUSNU_SINGLEEVAL; };

inline Problem draw_problem() {
	Problem p; p.dim = sim::draw("dim", 1, 3); p.shape = sim::draw("shape", 0, 3); p.maximize = sim::draw("maximize", 0, 1); p.cliffs = sim::draw("cliffs", 0, 2) == 2;
	if (sim::draw("bounds", 0, 2) == 2) { p.lo = -1; p.hi = 0.5; }
	return world().p = p;
}
// candidates with a drawn tree of parameters
inline void add_slots(const std::vector<Item> &v, char kind, std::vector<Slot> &out) {
	for (auto &i : v) {
		if (i.kind == 9) { add_slots(i.sub, kind, out); continue; }
		char k = i.kind == 4 || i.kind == 5 ? 'i' : i.kind == 6 || i.kind == 7 ? 'b' : 'd'; if (k != kind) continue;
		bool bounded = i.kind != 1 && i.kind != 3 && i.kind != 5; double lo = k == 'b' ? 0 : i.lo, hi = k == 'b' ? 1 : i.hi;
		int il = (int)i.lo, ih = (int)i.hi; double f = k == 'b' ? 1 : k == 'i' ? il + (ih - il) / 3 : i.lo + 0.25 * (i.hi - i.lo);
		for (int n = 0; n < i.n; ++n) out.push_back(Slot{k, lo, hi, bounded, i.active, f});
	}
}
inline Item draw_item(bool doubles_only, int depth) {
	Item i; i.kind = sim::draw("item", 0, depth ? 8 : 9); if (doubles_only && i.kind >= 4 && i.kind <= 7) i.kind -= 4;
	bool coll = i.kind == 2 || i.kind == 3 || i.kind == 7 || i.kind == 8; if (coll) i.n = sim::draw("n", 1, 3);
	i.lo = -0.5 * sim::draw("lo", 0, 8); i.hi = i.lo + 0.5 * sim::draw("width", 2, 12); if (i.kind == 4 || i.kind == 5) { i.lo = std::floor(i.lo); i.hi = std::ceil(i.hi); }
	i.active = sim::draw("inactive", 0, 3) < 3;
	if (i.kind == 9) { i.active = true; int n = sim::draw("sub", 1, 3); for (int k = 0; k < n; ++k) i.sub.push_back(draw_item(doubles_only, depth + 1)); }
	return i;
}
inline void draw_structure(bool doubles_only) {
	Problem &p = world().p; Item f; f.kind = 0; f.lo = p.lo; f.hi = p.hi; p.items.push_back(f); int n = sim::draw("items", 0, 3); for (int k = 0; k < n; ++k) p.items.push_back(draw_item(doubles_only, 0));
	for (char k : {'d', 'i', 'b'}) add_slots(p.items, k, p.slots); const int ad[] = {90, 30, 5}; p.ad_prob = 0.01 * ad[sim::draw("ad_prob", 0, 2)]; p.unsuccessful = sim::draw("max_unsuccessful", 0, 1) ? 1000 : 2;
}
inline void draw_constraints() {
	Problem &p = world().p; int n = sim::draw("n_constraints", 1, 3); for (int k = 0; k < n; ++k) { Constraint c; c.kind = (Cons)sim::draw("constraint", SUM, NCONS - 1); c.c = 0.25 * sim::draw("limit", 2, 14); p.cons.push_back(c); }
	p.add_cons = sim::draw("combine", 0, 1); p.allow_negative = sim::draw("allow_negative", 0, 1); p.policy = (evaluationPolicy)sim::draw("policy", 0, 2); p.barrier = sim::draw("barrier", 1, 1000); p.steepness = sim::draw("steepness", 1, 1000); p.retries = sim::draw("retries", 0, 3);
}
// what else a problem may have
inline void draw_rich(bool constraints = true) {
	Problem &p = world().p; if (sim::draw("criteria_drawn", 0, 2) == 2) p.criteria = sim::draw("criteria", 2, 3); if (sim::draw("tree_drawn", 0, 2) == 2) draw_structure(false); if (constraints && sim::draw("constrained_drawn", 0, 2) == 2) draw_constraints();
}
// an algorithm with a drawn configuration, without individuals
inline Setup draw_alg(Alg a, bool exotic = true) {
	Setup s; s.a = a; char b[200];
	switch (a) {
	case EA: {
		auto e = std::make_shared<GEvolutionaryAlgorithm>(); s.parents = sim::draw("parents", 1, 4); int nc = sim::draw("children", s.parents, 10); s.size = s.parents + nc;
		e->setPopulationSizes(s.size, s.parents); sortingMode m[] = {sortingMode::MUPLUSNU_SINGLEEVAL, sortingMode::MUCOMMANU_SINGLEEVAL, sortingMode::MUNU1PRETAIN_SINGLEEVAL, sortingMode::MUPLUSNU_PARETO, sortingMode::MUCOMMANU_PARETO};
		e->setSortingScheme(s.sorting = m[sim::draw("sorting", 0, exotic ? 4 : 2)]); duplicationScheme d[] = {duplicationScheme::DEFAULTDUPLICATIONSCHEME, duplicationScheme::RANDOMDUPLICATIONSCHEME, duplicationScheme::VALUEDUPLICATIONSCHEME};
		e->setRecombinationMethod(d[sim::draw("recombination", 0, 2)]); if (sim::draw("amalgamation", 0, 2) == 2) e->setAmalgamationLikelihood(0.3);
		e->setNThreads(sim::draw("adaption_threads", 1, 3)); s.alg = e; snprintf(b, sizeof b, "ea %d+%d sorting %d", s.parents, nc, (int)s.sorting); break; }
	case SA: {
		auto e = std::make_shared<GSimulatedAnnealing>(); s.parents = sim::draw("parents", 1, 3); int nc = sim::draw("children", s.parents, 8); s.size = s.parents + nc; e->setPopulationSizes(s.size, s.parents);
		e->setT0(sim::draw("t0", 1, 100)); e->setTDegradationStrength(0.5 + 0.1 * sim::draw("alpha", 0, 4)); e->setNThreads(sim::draw("adaption_threads", 1, 3)); s.alg = e; snprintf(b, sizeof b, "sa %d+%d", s.parents, nc); break; }
	case SWARM: {
		auto e = std::make_shared<GSwarmAlgorithm>(); s.hoods = sim::draw("neighborhoods", 1, 4); int m = sim::draw("members", 2, 5); s.size = s.hoods * m; e->setSwarmSizes(s.hoods, m);
		if (sim::draw("classic", 0, 1)) e->setUpdateRule(updateRule::SWARM_UPDATERULE_CLASSIC); if (sim::draw("repulsion", 0, 1)) e->setRepulsionThreshold(2); if (sim::draw("equal_fillup", 0, 1)) e->setNeighborhoodsEqualFillUp(); s.alg = e; snprintf(b, sizeof b, "swarm %dx%d", s.hoods, m); break; }
	case GD: {
		auto e = std::make_shared<GGradientDescent>(); s.parents = sim::draw("starting_points", 1, 3); e->setNStartingPoints(s.parents); e->setFiniteStep((sim::draw("coarse", 0, 3) == 3 ? 1. : 0.001) * sim::draw("finite_step", 1, 50)); e->setStepSize(0.01 * sim::draw("step", 1, 100)); s.alg = e; s.size = s.parents * (world().p.dim + 1); snprintf(b, sizeof b, "gd %d", s.parents); break; }
	default: {
		auto e = std::make_shared<GParameterScan>(); e->setNMonitorInds(sim::draw("monitor_inds", 1, 5)); s.alg = e; snprintf(b, sizeof b, "ps"); break; }
	}
	s.alg->setReportIteration(1); s.alg->registerPluggableOM(std::make_shared<Mon>()); s.text = b; return s;
}

// Remote workers: they take copies of work items (as a network does), lose some of them and return others late.
struct Remote : GBaseConsumerT<GParameterSet> {
	std::vector<std::thread> t; int n; bool lossy, archive; double p_lose, p_late; h::Cell<int> lost, late, back; // the first result is never lost: without it, there is no time-out
	Remote(int n_, bool l) : n(n_), lossy(l), archive(sim::draw("archives", 0, 3) == 3), p_lose(l ? 0.05 * sim::draw("p_lose", 1, 12) : 0), p_late(l ? 0.1 * sim::draw("p_late", 0, 5) : 0) {}
protected:
	void shutdown_() override { GBaseConsumerT<GParameterSet>::shutdown_(); for (auto &x : t) x.join(); t.clear(); }
private:
	void addCLOptions_(boost::program_options::options_description &, boost::program_options::options_description &) override {}
	void actOnCLOptions_(const boost::program_options::variables_map &) override {}
	std::string getConsumerName_() const override { return "Remote"; }
	std::string getMnemonic_() const override { return "remote"; }
	void async_startProcessing_() override { for (int i = 0; i < n; ++i) t.emplace_back([this] { sim::label("remote"); run(); }); }
	std::size_t getNProcessingUnitsEstimate_(bool &e) const override { e = true; return n; }
	bool capableOfFullReturn_() const override { return !lossy; }
	void run() {
		auto br = GBROKER(GParameterSet); std::vector<std::pair<i64, std::shared_ptr<GParameterSet>>> held;
		while (!stopped()) {
			std::shared_ptr<GParameterSet> p, q;
			if (br->get(p, std::chrono::milliseconds(100)) && p) {
				q = copy(p); p.reset(); bool slow = false;
				if (back.get() && sim::fault("lose-item", p_lose)) { lost.add(1); continue; }
				try { q->process(); } catch (g_processing_exception &) {}
				if (sim::fault("late-result", p_late)) { late.add(1); held.emplace_back(sim::now() + (i64)sim::fault_value("late_ms", 1000) * MS, q); slow = true; }
				if (!slow) put(q);
			}
			for (size_t i = 0; i < held.size(); ++i) if (held[i].first <= sim::now()) { auto h = held[i].second; held.erase(held.begin() + i); sim::probe("late-result-put"); put(h); break; }
		}
	}
	void put(std::shared_ptr<GParameterSet> q) { try { GBROKER(GParameterSet)->put(q, std::chrono::milliseconds(500)); if (q->is_processed()) back.add(1); } catch (buffer_not_present &) {} }
	std::shared_ptr<GParameterSet> copy(const std::shared_ptr<GParameterSet> &p) {
		if (!archive) return p->clone<GParameterSet>();
		auto q = std::make_shared<Ind>(); q->fromString(p->toString(Gem::Common::serializationMode::BINARY), Gem::Common::serializationMode::BINARY); return q;
	}
};
// how candidates are evaluated
enum Exec { SERIAL, THREADS, BROKERED, REMOTE, NEXEC };
static const char *exn[] = {"serial", "threads", "broker", "remote"};
struct Evaluation {
	Exec e; std::shared_ptr<GBaseExecutorT<GParameterSet>> ex; std::shared_ptr<GBaseConsumerT<GParameterSet>> con; std::shared_ptr<Remote> rem;
	Evaluation() = default; Evaluation(const Evaluation &) = delete;
	void start(Exec k, bool losses = false) {
		e = k;
		if (k == SERIAL) ex = std::make_shared<GSerialExecutorT<GParameterSet>>();
		else if (k == THREADS) ex = std::make_shared<GMTExecutorT<GParameterSet>>((std::uint16_t)sim::draw("threads", 1, 4));
		else {
			int n = sim::draw("workers", 1, 4); if (k == BROKERED) con = std::make_shared<GStdThreadConsumerT<GParameterSet>>((std::size_t)n); else con = rem = std::make_shared<Remote>(n, losses);
			ex = std::make_shared<GBrokerExecutorT<GParameterSet>>(); GBROKER(GParameterSet)->enrol_consumer(con);
		}
	}
	int lost() const { return rem ? rem->lost.get() : 0; }
	int late() const { return rem ? rem->late.get() : 0; }
	void use(const std::shared_ptr<G_OptimizationAlgorithm_Base> &a) { std::filesystem::create_directories("config"); a->registerExecutor(ex, e == SERIAL ? "config/serial.json" : e == THREADS ? "config/threads.json" : "config/broker.json"); }
	void end() { if (con) GBROKER(GParameterSet)->finalize(); }
};
inline void fill(Setup &s, int n = 1) { for (int i = 0; i < n; ++i) s.alg->push_back(std::make_shared<Ind>(world().p)); }
inline std::shared_ptr<Ind> ind(const std::shared_ptr<GParameterSet> &p) { return std::dynamic_pointer_cast<Ind>(p); }
// an individual that claims to be evaluated must carry the truth
inline void check_ind(const std::shared_ptr<GParameterSet> &p, const char *where, bool must_be_evaluated = true) {
	auto q = ind(p); if (!q) sim::violate("not-a-candidate", "%s: empty or foreign individual", where);
	if (!q->is_processed()) { if (must_be_evaluated) sim::violate("unevaluated-candidate", "%s: a candidate that has not been evaluated", where); return; }
	Vec v = q->point(); World &w = world();
	if (!w.p.items.empty()) {
		if (v.size() != w.p.slots.size()) sim::violate("structure", "%s: a candidate with %zu values, %zu are defined", where, v.size(), w.p.slots.size());
		for (size_t i = 0; i < v.size(); ++i) {
			auto &t = w.p.slots[i];
			if (!std::isfinite(v[i])) sim::violate("not-a-number", "%s: value %zu is %g: %s", where, i, v[i], str(v).c_str());
			if (t.bounded && !(v[i] >= t.lo && v[i] <= t.hi)) sim::violate("out-of-bounds", "%s: value %zu is %.17g, outside [%g, %g]", where, i, v[i], t.lo, t.hi);
			if (!t.active && v[i] != t.fixed) sim::violate("fixed-parameter-changed", "%s: value %zu (%c) is %.17g, but it is not to be varied from %.17g", where, i, t.kind, v[i], t.fixed);
		}
	} else for (double d : v) if (!(d >= w.p.lo && d <= w.p.hi)) sim::violate("out-of-bounds", "%s: parameters %s outside [%g, %g]", where, str(v).c_str(), w.p.lo, w.p.hi);
	if (!w.p.cons.empty()) {
		double l = level(v), m = q->getValidityLevel(); bool ok = edge(v) ? q->isValid() : l <= 1;
		if (q->isValid() != ok) sim::violate("wrong-validity", "%s: %s counts as %s, but its level of invalidity is %.17g (%.17g is recorded)", where, str(v).c_str(), q->isValid() ? "valid" : "invalid", l, m);
		if (!ok && !edge(v) && std::fabs(m - l) > 1e-9 * l) sim::violate("wrong-validity-level", "%s: the level of invalidity of %s is %.17g, recorded is %.17g", where, str(v).c_str(), l, m);
		if (!ok && w.p.policy != evaluationPolicy::USESIMPLEEVALUATION) {
			double worst = w.p.maximize ? std::numeric_limits<double>::lowest() : std::numeric_limits<double>::max(), t = w.p.policy == evaluationPolicy::USESIGMOID ? (w.p.maximize ? -1 : 1) * m * w.p.barrier : worst;
			for (int k = 0; k < w.p.criteria; ++k) if (q->raw_fitness(k) != worst || q->transformed_fitness(k) != t) sim::violate("invalid-with-fitness", "%s: %s is invalid and carries the evaluation %.17g / %.17g, expected %.17g / %.17g", where, str(v).c_str(), q->raw_fitness(0), q->transformed_fitness(0), worst, t);
			return;
		}
	}
	if (!w.done.count(v)) sim::violate("never-evaluated", "%s: %s is presented as evaluated, but was never evaluated", where, str(v).c_str());
	if ((int)q->getNStoredResults() != w.p.criteria) sim::violate("criteria", "%s: %zu results are stored, there are %d criteria", where, q->getNStoredResults(), w.p.criteria);
	for (int k = 0; k < w.p.criteria; ++k) {
		double tr = truth(v, k), tt = w.p.policy == evaluationPolicy::USESIGMOID ? w.p.barrier * tr / (w.p.steepness + std::fabs(tr)) : tr;
		if (q->raw_fitness(k) != tr || std::fabs(q->transformed_fitness(k) - tt) > 1e-12 * std::fabs(tt)) sim::violate("wrong-evaluation", "%s: %s carries the evaluation %.17g / %.17g (criterion %d), its true evaluation is %.17g", where, str(v).c_str(), q->raw_fitness(k), q->transformed_fitness(k), k, tr);
	}
}
inline bool better(double a, double b) { if (world().p.policy == evaluationPolicy::USESIGMOID && std::fabs(a - b) <= 1e-12 * std::fabs(b)) return false; return world().p.maximize ? a > b : a < b; }
} // namespace g
BOOST_CLASS_EXPORT_KEY(g::Ind)
BOOST_CLASS_EXPORT_KEY(g::OwnCons)
BOOST_CLASS_EXPORT_KEY(g::Mon)
