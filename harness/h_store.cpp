// C26-C28: checkpoints, saved objects and settings on disk.
#include "gen.hpp"
#include "common/GParserBuilder.hpp"
#include "common/GPlotDesigner.hpp"
using namespace g; using Gem::Common::serializationMode; namespace fsys = std::filesystem;

namespace {
const serializationMode modes[] = {serializationMode::TEXT, serializationMode::XML, serializationMode::BINARY}; const char *moden[] = {"text", "xml", "binary"};
std::string slurp(const fsys::path &p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
sim::u64 digest(const std::string &s) { sim::u64 h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
std::shared_ptr<G_OptimizationAlgorithm_Base> blank(Alg a) { switch (a) { case EA: return std::make_shared<GEvolutionaryAlgorithm>(); case SA: return std::make_shared<GSimulatedAnnealing>(); case SWARM: return std::make_shared<GSwarmAlgorithm>(); case GD: return std::make_shared<GGradientDescent>(); default: return std::make_shared<GParameterScan>(); } }
// everything that is serialized
std::string state(const G_OptimizationAlgorithm_Base &a) { return a.toString(serializationMode::TEXT); }
// the first place where two states differ
std::string first_difference(const GObject &a, const GObject &b) {
	std::string x = a.toString(serializationMode::XML), y = b.toString(serializationMode::XML), lx, ly, path; std::istringstream ix(x), iy(y);
	while (std::getline(ix, lx)) { if (!std::getline(iy, ly)) ly = "(end)"; if (lx != ly) return path.substr(0, 60) + " / " + lx.substr(0, 90) + " / " + ly.substr(0, 90); size_t i = lx.find_first_not_of('\t'); if (i != std::string::npos && lx.find("</") == std::string::npos) path = lx.substr(i); }
	return "";
}
int iteration_of(const fsys::path &p) { auto n = p.filename().string(); size_t i = n.find('-', 11); return i == std::string::npos ? -1 : atoi(n.c_str() + i + 1); }
std::vector<fsys::path> checkpoints(const char *dir = "cp") { std::vector<fsys::path> v; std::error_code ec; for (auto &e : fsys::directory_iterator(dir, ec)) { auto n = e.path().filename().string(); if (n.rfind("checkpoint-", 0) == 0) v.push_back(e.path()); } std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return iteration_of(a) < iteration_of(b); }); return v; }
bool named_as_checkpoint(const fsys::path &p) { auto n = p.filename().string(); return n.size() > 9 && n.substr(n.size() - 9) == "cp.geneva"; }
void real_fs(bool on) { sim::fs::cfg.enabled = on; }
struct NoFaults { bool was; NoFaults() : was(sim::fs::cfg.enabled) { real_fs(false); } ~NoFaults() { real_fs(was); } };

// with the sigmoid the slope at the border of the valid area is so steep that a descent may leave the range of numbers
void no_divergence(Alg a) { if (a == GD && world().p.policy == evaluationPolicy::USESIGMOID) world().p.policy = evaluationPolicy::USEWORSTCASEFORINVALID; }
Setup draw_run(bool check_ind_names, int max_it) {
	(void)check_ind_names; Setup s = draw_alg((Alg)sim::draw("algorithm", 0, (int)PS)); s.alg->setMaxIteration(max_it); s.alg->setMaxStallIteration(0);
	no_divergence(s.a); if (s.a == PS) { world().p.items.clear(); world().p.slots.clear(); auto ps = std::static_pointer_cast<GParameterScan>(s.alg); std::string spec; for (int i = 0; i < world().p.dim; ++i) spec += (i ? ", " : "") + std::string("d(v") + std::to_string(i) + ", -0.75, 0.25, " + std::to_string(sim::draw("grid", 2, 4)) + ")"; ps->setScanRandomly(false); ps->setParameterSpecs(spec); }
	return s;
}
// a saved algorithm, taken from disk; empty: refused
std::shared_ptr<G_OptimizationAlgorithm_Base> load(Alg a, const fsys::path &p, serializationMode m, std::string *why = nullptr) {
	auto x = blank(a); x->setCheckpointSerializationMode(m);
	try { x->loadCheckpoint(p); } catch (std::exception &e) { if (why) *why = e.what(); return nullptr; }
	return x;
}
void sane(const std::shared_ptr<G_OptimizationAlgorithm_Base> &x, const fsys::path &p) {
	std::string w = "checkpoint " + p.filename().string();
	if ((int)x->getIteration() != iteration_of(p)) sim::violate("wrong-state-loaded", "%s: loaded as iteration %u", w.c_str(), x->getIteration());
	for (auto &q : *x) { auto i = ind(q); if (!i || (int)i->size() != world().p.dim) sim::violate("wrong-state-loaded", "%s: individual lost or cut", w.c_str()); if (i->is_processed() && i->raw_fitness(0) != truth(i->point())) sim::violate("wrong-state-loaded", "%s: %s loaded with the evaluation %.17g instead of %.17g", w.c_str(), str(i->point()).c_str(), i->raw_fitness(0), truth(i->point())); }
}

// ------------------------------------------------------------------ C26
struct Kept { Problem p; int alg, mode, saves, remove; char name[200]; sim::u64 digest, len; double best; };
void crash(bool at_file_op) {
	sim::cfg.max_steps = 4000000; sim::cfg.max_time = 4000 * SEC; auto *k = (Kept *)sim::persist();
	if (sim::phase() == 0) {
		memset(k, 0, sizeof *k); k->p = draw_problem(); world().p.ms_max = 5; Setup s = draw_run(false, sim::draw("iterations", 1, 8)); k->alg = s.a; k->mode = sim::draw("mode", 0, 2);
		auto a = s.alg; fsys::create_directories("cp"); fsys::create_directories("config"); a->setCheckpointBaseName("cp", "cp.geneva"); a->setCheckpointSerializationMode(modes[k->mode]);
		int interval = sim::draw("interval", -1, 3); if (!interval) interval = 1; a->setCheckpointInterval(interval); k->remove = sim::draw("remove_old", 0, 3) > 0; a->setRemoveCheckpointFiles(k->remove); fill(s, s.size ? sim::draw("given", 1, s.size) : 1);
		Evaluation ev; ev.start((Exec)sim::draw("executor", 0, 3)); ev.use(a);
		watcher().f = [&](infoMode m, const G_OptimizationAlgorithm_Base *o) {
			if (m != infoMode::INFOPROCESSING) return; NoFaults nf; sim::NoPreempt np; int it = o->getIteration(); bool found = false;
			for (auto &p : checkpoints()) if (iteration_of(p) == it && named_as_checkpoint(p)) { auto c = slurp(p); k->saves++; snprintf(k->name, sizeof k->name, "%s", p.filename().c_str()); k->digest = digest(c); k->len = c.size(); found = true; }
			if (interval > 0 && it % interval == 0 && !found) sim::violate("checkpoint-missing", "%s: no checkpoint was saved in iteration %d (interval %d)", s.text.c_str(), it, interval);
			if (k->saves) { bool there = fsys::exists(fsys::path("cp") / k->name); if (!there) sim::violate("checkpoint-lost", "%s: the last checkpoint %s was removed", s.text.c_str(), k->name); }
			sim::op("iteration %d, %d checkpoints", it, k->saves);
		};
		std::thread killer; real_fs(true);
		if (at_file_op) { sim::fs::cfg.crash_at_op = sim::draw("crash_at_op", 0, 60); sim::fs::cfg.crash_frac = sim::draw("crash_frac", 0, 1000); }
		else killer = std::thread([] { sim::label("killer"); sim::sleep_ns(sim::draw("kill_us", 1, 60000) * 1000); sim::next_phase(); });
		try { a->optimize(); } catch (std::exception &e) { sim::violate("optimization-failed", "%s: optimize() was left by an exception: %.500s", s.text.c_str(), e.what()); }
		watcher().f = nullptr; sim::probe("finished-before-crash"); sim::next_phase();
	}
	// after the crash
	world().p = k->p; Alg alg = (Alg)k->alg; real_fs(false); auto m = modes[k->mode];
	sim::probe(k->saves ? "crashed-with-checkpoint" : "crashed-without-checkpoint"); int newest = k->saves ? iteration_of(k->name) : -1, loadable = -1;
	for (auto &p : checkpoints()) {
		bool kept = k->saves && p.filename() == k->name; std::string why;
		if (kept) { auto c = slurp(p); if (c.size() != k->len || digest(c) != k->digest) sim::violate("checkpoint-damaged", "%s had %llu bytes when saved, now %zu", k->name, (unsigned long long)k->len, c.size()); }
		auto x = load(alg, p, m, &why);
		if (!x) { if (named_as_checkpoint(p)) sim::violate("checkpoint-unloadable", "%s: %.500s", p.filename().c_str(), why.c_str()); sim::probe("unfinished-checkpoint-left"); continue; }
		sane(x, p); loadable = std::max(loadable, iteration_of(p)); if (!kept && iteration_of(p) > newest) sim::probe("newer-checkpoint-complete");
	}
	if (loadable < newest) sim::violate("checkpoint-lost", "%s was completed before the crash, the newest that can be loaded is of iteration %d", k->name, loadable);
	sim::sample(std::string(algn[alg]) + " " + moden[k->mode] + " saves=" + std::to_string(k->saves));
}
// any prefix of a saved algorithm is refused or complete
void torn() {
	sim::cfg.max_steps = 4000000; draw_problem(); Setup s = draw_run(false, sim::draw("iterations", 1, 3)); auto m = modes[sim::draw("mode", 0, 2)]; fsys::create_directories("config"); fill(s, 1);
	Evaluation ev; ev.start(SERIAL); ev.use(s.alg); s.alg->optimize(); std::string n = std::string("checkpoint-") + s.alg->getAlgorithmPersonalityType() + "-1-0-cp.geneva"; s.alg->toFile(n, m);
	auto full = load(s.a, n, m); if (!full) sim::violate("checkpoint-unloadable", "%s cannot be loaded", n.c_str()); std::string want = state(*full), c = slurp(n);
	for (int i = 0; i < 6; ++i) {
		size_t len = sim::draw("near_end", 0, 2) ? c.size() - std::min<size_t>(c.size(), sim::draw("cut_tail", 1, 80)) : (size_t)(c.size() * (double)sim::draw("cut", 0, 999) / 1000); { std::ofstream f(n, std::ios::trunc | std::ios::binary); f.write(c.data(), len); }
		auto x = load(s.a, n, m); if (!x) { sim::probe("cut-refused"); continue; } sim::probe("cut-accepted");
		if (state(*x) != want) sim::violate("cut-file-accepted", "%s, mode %d: cut from %zu to %zu bytes, accepted as a different state", s.text.c_str(), (int)m, c.size(), len);
	}
	sim::sample(s.text);
}

// ------------------------------------------------------------------ C27
void draw_disk() {
	auto &c = sim::fs::cfg; auto P = [](const char *n, int k) { return sim::swarm(n) ? 0.01 * sim::draw((std::string(n) + "_p").c_str(), 1, k) : 0.; };
	c.p_open = P("open_fails", 40); c.p_write = P("write_fails", 40); c.p_short = P("short_writes", 80); c.p_close = P("close_fails", 40); c.p_rename = P("rename_fails", 30); c.p_unlink = P("unlink_fails", 30); if (sim::swarm("disk_full")) c.disk_bytes = sim::draw("disk_kb", 0, 100) * 1000 + sim::draw("disk_b", 0, 999);
}
void save_object() {
	sim::cfg.max_steps = 4000000; draw_problem(); Setup s = draw_run(false, 1); fill(s, 2); auto m = modes[sim::draw("mode", 0, 2)]; draw_disk();
	for (int i = 0, n = sim::draw("saves", 1, 6); i < n; ++i) {
		std::string f = sim::draw("bad_directory", 0, 9) == 9 ? "nowhere/f" : "f"; bool ok = true; GObject *o = sim::draw("what", 0, 1) ? (GObject *)s.alg.get() : (GObject *)s.alg->at(0).get();
		real_fs(true); try { o->toFile(f, m); } catch (std::exception &) { ok = false; } real_fs(false); sim::op("save %s", ok ? "succeeded" : "failed");
		if (!ok) { sim::probe("save-failed"); continue; } sim::probe("save-succeeded"); std::string want, got, diff; Ind ci; auto ca = blank(s.a); GObject *copy = o == s.alg.get() ? (GObject *)ca.get() : (GObject *)&ci; copy->load(o->clone()); want = copy->toString(serializationMode::TEXT);
		try { if (o == s.alg.get()) { auto x = blank(s.a); x->fromFile(f, m); got = x->toString(serializationMode::TEXT); diff = first_difference(*copy, *x); } else { Ind x; x.fromFile(f, m); got = x.toString(serializationMode::TEXT); diff = first_difference(*copy, x); } } catch (std::exception &e) { sim::violate("silent-write-failure", "saving to %s reported success, but the file cannot be read back (%zu bytes, %llu file operations failed)", f.c_str(), slurp(f).size(), (unsigned long long)sim::fs::failed); }
		if (got != want) sim::violate("save-not-faithful", "%s, mode %d: saved and loaded state differ: %s", s.text.c_str(), (int)m, diff.c_str());
	}
}
void save_settings() {
	using namespace Gem::Common; draw_disk(); int n = sim::draw("options", 1, 12); std::vector<int> iv(n), back(n); bool ok = true; std::string f = sim::draw("bad_directory", 0, 9) == 9 ? "nowhere/s.json" : "./s.json";
	{ GParserBuilder b; for (int i = 0; i < n; ++i) { iv[i] = sim::draw("value", -5, 1000000); b.registerFileParameter<int>("option_with_a_long_name_" + std::to_string(i), iv[i], [](int) {}) << std::string(sim::draw("comment", 0, 900), 'c'); }
	real_fs(true); try { b.writeConfigFile(f, "header", true); } catch (std::exception &) { ok = false; } real_fs(false); }
	sim::op("settings %s", ok ? "saved" : "not saved"); if (!ok) { sim::probe("save-failed"); return; } sim::probe("save-succeeded");
	GParserBuilder b; for (int i = 0; i < n; ++i) b.registerFileParameter<int>("option_with_a_long_name_" + std::to_string(i), -77, [i, &back](int v) { back[i] = v; });
	if (!b.parseConfigFile(f)) sim::violate("silent-write-failure", "writeConfigFile() reported success, but the file of %zu bytes cannot be parsed", slurp(f).size());
	for (int i = 0; i < n; ++i) if (back[i] != iv[i]) sim::violate("save-not-faithful", "option %d was written as %d and read as %d", i, iv[i], back[i]);
}
void save_plot() {
	using namespace Gem::Common; draw_disk(); GPlotDesigner d("plot", 1, 1); auto g = std::make_shared<GGraph2D>(); int n = sim::draw("points", 0, 200); for (int i = 0; i < n; ++i) g->add(0.5 * i, 1.25 * i); d.registerPlotter(g); bool ok = true; std::string want = d.plot();
	real_fs(true); try { d.writeToFile("result.C"); } catch (std::exception &) { ok = false; } real_fs(false); if (!ok) { sim::probe("save-failed"); return; } sim::probe("save-succeeded");
	auto got = slurp("result.C"); if (got.size() < want.size()) sim::violate("silent-write-failure", "GPlotDesigner::writeToFile() reported success, but wrote %zu of %zu bytes", got.size(), want.size());
}
void checkpoints_on_bad_disk() {
	sim::cfg.max_steps = 4000000; draw_problem(); Setup s = draw_run(false, sim::draw("iterations", 1, 8)); auto a = s.alg; int mode = sim::draw("mode", 0, 2); fsys::create_directories("cp"); fsys::create_directories("config"); a->setCheckpointBaseName("cp", "cp.geneva"); a->setCheckpointSerializationMode(modes[mode]);
	a->setCheckpointInterval(sim::draw("on_progress", 0, 1) ? -1 : 1); a->setRemoveCheckpointFiles(sim::draw("remove_old", 0, 3) > 0); fill(s, 1); Evaluation ev; ev.start(SERIAL); ev.use(a); draw_disk(); sim::u64 failed_before = 0;
	int start = sim::draw("faults_from_iteration", 0, 5), it = -1, last_it = -1; fsys::path last; sim::u64 dig = 0;
	if (!start) real_fs(true);
	watcher().f = [&](infoMode m, const G_OptimizationAlgorithm_Base *o) {
		if (m != infoMode::INFOPROCESSING) return; NoFaults nf; it = o->getIteration(); sim::op("iteration %d", it);
		for (auto &p : checkpoints()) if (iteration_of(p) == it && named_as_checkpoint(p)) { last = p; last_it = it; dig = digest(slurp(p)); std::string why; auto x = load(s.a, p, modes[mode], &why); if (!x) sim::violate("silent-write-failure", "%s: checkpoint %s was reported as saved, but cannot be loaded: %.300s (%zu bytes, %llu file operations failed)", s.text.c_str(), p.c_str(), why.c_str(), slurp(p).size(), (unsigned long long)sim::fs::failed); sane(x, p); }
		if (a->getCheckpointInterval() == 1 && last_it != it) sim::violate("silent-write-failure", "%s: no checkpoint of iteration %d, and no error", s.text.c_str(), it);
		if (it + 1 >= start) nf.was = true;
	};
	bool died = false; try { a->optimize(); } catch (std::exception &e) { died = true; sim::op("optimize() threw"); } real_fs(false); watcher().f = nullptr; (void)failed_before;
	if (died && !sim::fs::failed) sim::violate("optimization-failed", "%s: optimize() threw without a disk error", s.text.c_str());
	sim::probe(died ? "error-reported" : "completed");
	if (last_it >= 0) { if (!fsys::exists(last)) { bool newer = false; for (auto &p : checkpoints()) if (iteration_of(p) > last_it && load(s.a, p, modes[mode])) newer = true; if (!newer) sim::violate("checkpoint-lost", "%s: %s was removed although no newer checkpoint could be saved", s.text.c_str(), last.c_str()); } else if (digest(slurp(last)) != dig) sim::violate("checkpoint-damaged", "%s", last.c_str()); }
	sim::sample(s.text);
}

// ------------------------------------------------------------------ C28
// The state of a running algorithm as far as users can see it
struct Seen { Vec at; double raw = 0, tr = 0; Vec more; bool done = false; std::string par; };
struct State { int it = -1; unsigned stall = 0; double best_raw = 0, best_tr = 0; std::vector<Seen> pop, rec; std::string settings; };
Seen look(const std::shared_ptr<GParameterSet> &p) { Seen s; auto i = ind(p); s.at = i->point(); s.done = i->is_processed(); if (s.done) { s.raw = i->raw_fitness(0); s.tr = i->transformed_fitness(0); for (int k = 1; k < world().p.criteria; ++k) { s.more.push_back(i->raw_fitness(k)); s.more.push_back(i->transformed_fitness(k)); } } for (size_t k = 0; k < i->size(); ++k) s.par += i->at(k)->toString(serializationMode::TEXT); return s; }
std::string settings(const G_OptimizationAlgorithm_Base &a, Alg k) {
	std::ostringstream o; o.precision(17); o << a.getMaxIteration() << " " << a.getMinIteration() << " " << a.getMaxStallIteration() << " " << a.getCheckpointInterval() << " " << a.getDefaultPopulationSize() << " " << a.getReportIteration() << " " << a.getStallCounterThreshold() << " " << a.size();
	if (auto e = dynamic_cast<const GEvolutionaryAlgorithm *>(&a)) o << " ea " << e->getNParents() << " " << (int)e->getSortingScheme() << " " << (int)e->getRecombinationMethod() << " " << e->getAmalgamationLikelihood() << " " << e->getNThreads();
	if (auto e = dynamic_cast<const GSimulatedAnnealing *>(&a)) o << " sa " << e->getNParents() << " " << e->getT0() << " " << e->getTDegradationStrength() << " " << e->getT();
	if (auto e = dynamic_cast<const GSwarmAlgorithm *>(&a)) { o << " swarm " << e->getNNeighborhoods() << " " << (int)e->getUpdateRule() << " " << e->getCPersonal() << " " << e->getCNeighborhood() << " " << e->getCGlobal() << " " << e->getCVelocity() << " " << e->neighborhoodsFilledUpRandomly(); for (size_t i = 0; i < e->getNNeighborhoods(); ++i) o << " " << e->getCurrentNNeighborhoodMembers(i); }
	if (auto e = dynamic_cast<const GGradientDescent *>(&a)) o << " gd " << e->getNStartingPoints() << " " << e->getFiniteStep() << " " << e->getStepSize();
	if (auto e = dynamic_cast<const GParameterScan *>(&a)) o << " ps " << e->getNMonitorInds() << " " << e->getScanRandomly();
	(void)k; return o.str();
}
State look(G_OptimizationAlgorithm_Base &a, Alg k) { State s; s.it = a.getIteration(); s.stall = a.getStallCounter(); std::tie(s.best_raw, s.best_tr) = a.getBestKnownPrimaryFitness(); for (auto &p : a) s.pop.push_back(look(p)); for (auto &p : a.getBestGlobalIndividuals<GParameterSet>()) s.rec.push_back(look(p)); s.settings = settings(a, k); return s; }
std::string differ(const std::vector<Seen> &a, const std::vector<Seen> &b) {
	if (a.size() != b.size()) return std::to_string(a.size()) + " individuals instead of " + std::to_string(b.size());
	for (size_t i = 0; i < a.size(); ++i) { auto w = "individual " + std::to_string(i); if (a[i].at != b[i].at) return w + " at " + str(a[i].at) + " instead of " + str(b[i].at); if (a[i].done != b[i].done) return w + (a[i].done ? " evaluated" : " not evaluated"); if (a[i].raw != b[i].raw || a[i].tr != b[i].tr || a[i].more != b[i].more) return w + " has another evaluation"; if (a[i].par != b[i].par) return w + " has other parameter objects (adaption state)"; }
	return "";
}
double best_of(const std::vector<Seen> &v) { double b = v.at(0).raw; for (auto &x : v) if (better(x.raw, b)) b = x.raw; return b; }

void resume() {
	sim::cfg.max_steps = 6000000; draw_problem(); draw_rich(); world().p.ms_max = 5; int n = sim::draw("iterations", 2, 9); Setup s = draw_run(false, n); auto a = s.alg; auto m = modes[sim::draw("mode", 0, 2)];
	fsys::create_directories("cp"); fsys::create_directories("config"); a->setCheckpointBaseName("cp", "cp.geneva"); a->setCheckpointSerializationMode(m); a->setCheckpointInterval(1); a->setRemoveCheckpointFiles(false); if (s.a != PS && sim::draw("stall_limit", 0, 3) == 3) a->setMaxStallIteration(sim::draw("max_stall", 1, 6));
	fill(s, s.size ? sim::draw("given", 1, s.size) : 1); Evaluation ev; ev.start((Exec)sim::draw("executor", 0, 3)); ev.use(a);
	std::map<int, State> seen; std::map<int, std::set<Vec>> evals; int now = 0; world().on_eval = [&](const Vec &x) { evals[now].insert(x); };
	watcher().f = [&](infoMode i, const G_OptimizationAlgorithm_Base *o) { if (i == infoMode::INFOPROCESSING) { auto st = look(*s.alg, s.a); now = o->getIteration() + 1; seen[o->getIteration()] = st; } };
	a->optimize(); int last = a->getIteration() - 1, k = sim::draw("resume_after", 0, last); watcher().f = nullptr; std::set<Vec> all; for (auto &e : evals) all.insert(e.second.begin(), e.second.end());
	fsys::path file; for (auto &p : checkpoints()) if (iteration_of(p) == k) file = p; if (file.empty()) sim::violate("checkpoint-missing", "%s: no checkpoint of iteration %d", s.text.c_str(), k);
	// restore
	std::string why; auto b = load(s.a, file, m, &why); if (!b) sim::violate("checkpoint-unloadable", "%s: %.400s", file.c_str(), why.c_str()); const State &want = seen.at(k); auto st = look(*b, s.a);
	if (st.it != k) sim::violate("state-not-restored", "%s: iteration %d restored as %d", s.text.c_str(), k, st.it);
	if (st.stall != want.stall) sim::violate("state-not-restored", "%s: iteration %d: stall counter %u restored as %u", s.text.c_str(), k, want.stall, st.stall);
	if (st.best_raw != want.best_raw || st.best_tr != want.best_tr) sim::violate("state-not-restored", "%s: iteration %d: best known value %.17g restored as %.17g", s.text.c_str(), k, want.best_raw, st.best_raw);
	if (st.settings != want.settings) sim::violate("state-not-restored", "%s: iteration %d: settings [%s] restored as [%s]", s.text.c_str(), k, want.settings.c_str(), st.settings.c_str());
	auto d = differ(st.pop, want.pop); if (!d.empty()) sim::violate("state-not-restored", "%s: iteration %d: population: %s", s.text.c_str(), k, d.c_str());
	d = differ(st.rec, want.rec); if (!d.empty()) sim::violate("state-not-restored", "%s: iteration %d: best individuals: %s", s.text.c_str(), k, d.c_str());
	// continue
	ev.use(b); std::map<int, State> then; evals.clear(); now = k + 1; int first = -1; if (m != serializationMode::XML && sim::draw("other_limit", 0, 2) == 2) b->setMaxIteration(n = sim::draw("new_limit", k + 1, 12));
	bool gives_up = s.a == EA && (s.sorting == sortingMode::MUCOMMANU_PARETO || (world().p.criteria > 1 && s.sorting == sortingMode::MUPLUSNU_PARETO));   // gives up the parents on purpose
	watcher().f = [&](infoMode i, const G_OptimizationAlgorithm_Base *o) { if (i != infoMode::INFOPROCESSING) return; int it = o->getIteration(); if (first < 0) first = it; then[it] = look(*b, s.a); now = it + 1; auto &t = then[it]; if (!gives_up && better(best_of(want.rec), best_of(t.rec))) sim::violate("best-forgotten", "%s: resumed after iteration %d, in iteration %d the best on record is %.17g, the checkpoint held %.17g", s.text.c_str(), k, it, best_of(t.rec), best_of(want.rec)); };
	b->optimize(k + 1); watcher().f = nullptr; int end = b->getIteration() - 1;
	if (first != k + 1) sim::violate("wrong-iteration", "%s: resumed after iteration %d, continued with iteration %d", s.text.c_str(), k, first);
	auto fin = b->getBestGlobalIndividual<GParameterSet>(); check_ind(fin, "best individual"); if (!gives_up && better(best_of(want.rec), fin->raw_fitness(0))) sim::violate("best-forgotten", "%s: resumed after iteration %d, the final best is %.17g, the checkpoint held %.17g", s.text.c_str(), k, fin->raw_fitness(0), best_of(want.rec));
	if (s.a != PS && !b->getMaxStallIteration() && end != std::max(n - 1, k + 1)) sim::violate("wrong-iteration", "%s: resumed after iteration %d with a limit of %d iterations, the last one was %d", s.text.c_str(), k, n, end);
	if (s.a == GD) for (auto &t : then) { bool on = false; for (int j = t.first - 1; j <= t.first; ++j) if (seen.count(j)) { bool same = true; for (int i = 0; i < s.parents; ++i) same = same && seen[j].pop[i].at == t.second.pop[i].at; on = on || same; } else on = on || j == t.first; if (!on) sim::violate("other-path", "%s: resumed after iteration %d, in iteration %d the parent at %s is not on the path of the uninterrupted run", s.text.c_str(), k, t.first, str(t.second.pop[0].at).c_str()); }
	if (s.a == PS && last < n - 1) { for (auto &x : all) { bool found = false; for (auto &e : evals) found = found || e.second.count(x); for (auto &q : seen) if (q.first <= k) for (auto &p : q.second.pop) found = found || p.at == x; if (!found && end < n - 1) sim::violate("points-skipped", "scan resumed after iteration %d: %s was evaluated neither before nor after", k, str(x).c_str()); } }
	ev.end(); sim::sample(s.text + " after=" + std::to_string(k));
}

// ------------------------------------------------------------------ C29
void same_result() {
	sim::cfg.max_steps = 8000000; draw_problem(); world().p.ms_max = sim::draw("slow", 0, 1) * 40; Alg alg = sim::draw("scan", 0, 1) ? PS : GD; draw_rich(); if (alg == PS) { world().p.items.clear(); world().p.slots.clear(); } no_divergence(alg); Setup s = draw_alg(alg); int n = sim::draw("iterations", 1, 10); s.alg->setMaxIteration(n); s.alg->setMaxStallIteration(0); fsys::create_directories("config");
	if (alg == PS) { auto ps = std::static_pointer_cast<GParameterScan>(s.alg); std::string spec; for (int i = 0; i < world().p.dim; ++i) spec += (i ? ", " : "") + std::string("d(v") + std::to_string(i) + ", -0.75, 0.25, " + std::to_string(sim::draw("grid", 2, 4)) + ")"; ps->setScanRandomly(false); ps->setParameterSpecs(spec); }
	fill(s, alg == GD ? s.parents : 1); auto other = s.alg->clone<G_OptimizationAlgorithm_Base>(); std::vector<std::vector<Seen>> ref; std::vector<std::vector<Seen>> *out = &ref; std::shared_ptr<G_OptimizationAlgorithm_Base> cur = s.alg;
	watcher().f = [&](infoMode i, const G_OptimizationAlgorithm_Base *o) {
		if (i != infoMode::INFOPROCESSING) return; (void)o; std::vector<Seen> v; for (auto &p : *cur) { check_ind(p, "population"); v.push_back(look(p)); } out->push_back(v); int it = (int)out->size() - 1; if (out == &ref) return;
		if (it >= (int)ref.size()) sim::violate("different-result", "%s: iteration %d exists only with this executor", s.text.c_str(), it);
		auto d = differ(v, ref[it]); if (!d.empty()) sim::violate("different-result", "%s: iteration %d: %s", s.text.c_str(), it, d.c_str());
	};
	{ Evaluation ev; ev.start(SERIAL); ev.use(cur); cur->optimize(); } double want = cur->getBestGlobalIndividual<GParameterSet>()->raw_fitness(0);
	std::vector<std::vector<Seen>> again; out = &again; cur = other; Evaluation ev; bool losses = sim::draw("losses", 0, 1); Exec k = losses ? REMOTE : (Exec)sim::draw("executor", 0, 3); ev.start(k, losses); ev.use(other); bool died = false;
	try { other->optimize(); } catch (std::exception &e) { died = true; if (!losses) sim::violate("optimization-failed", "%s on %s: optimize() was left by an exception: %.300s", s.text.c_str(), exn[k], e.what()); sim::probe("losses-reported"); }
	watcher().f = nullptr; if (!died) { if (again.size() != ref.size()) sim::violate("different-result", "%s on %s: %zu iterations instead of %zu", s.text.c_str(), exn[k], again.size(), ref.size()); double got = other->getBestGlobalIndividual<GParameterSet>()->raw_fitness(0); if (got != want) sim::violate("different-result", "%s on %s: best %.17g instead of %.17g", s.text.c_str(), exn[k], got, want); if (ev.lost()) sim::probe("losses-repaired"); }
	ev.end(); sim::sample(s.text + " on=" + exn[k] + " lost=" + std::to_string(ev.lost()) + " late=" + std::to_string(ev.late()));
}
}
SIM_SCENARIO(C26, crash_at_file_operation, 3) { crash(true); }
SIM_SCENARIO(C26, killed_any_time, 1) { crash(false); }
SIM_SCENARIO(C26, cut_files, 1) { torn(); }
SIM_SCENARIO(C27, objects, 2) { save_object(); }
SIM_SCENARIO(C27, settings, 1) { save_settings(); }
SIM_SCENARIO(C27, plots, 1) { save_plot(); }
SIM_SCENARIO(C27, checkpoints, 3) { checkpoints_on_bad_disk(); }

SIM_SCENARIO(C28, resume, 1) { resume(); }
SIM_SCENARIO(C29, same_result, 1) { same_result(); }
