// C32: evaluation by an external program. The program is simulated: std::system() is the seam.
#include "gen.hpp"
#include "geneva-individuals/GExternalEvaluatorIndividual.hpp"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
using namespace g; using XInd = GExternalEvaluatorIndividual; using XFac = GExternalEvaluatorIndividualFactory; namespace ptr = boost::property_tree;

namespace {
// what an execution of the program came to
enum Out { GOOD, EXIT_CODE, SIGNALLED, NOT_STARTED, INVALID, NO_FILE, EMPTY_FILE, CUT_FILE, GARBAGE, FOREIGN_ID, WRONG_COUNT, TWO_INDIVIDUALS, MISSING_RESULT, NOT_A_NUMBER, NO_VALIDITY, UNREADABLE, NOUT };
const char *outn[] = {"good", "exit-code", "signalled", "not-started", "invalid", "no-file", "empty-file", "cut-file", "garbage", "foreign-id", "wrong-count", "two-individuals", "missing-result", "not-a-number", "no-validity", "unreadable-input"};
struct Rec { Out out = GOOD; Vec x, res; std::string in, result, output; };
struct Var { double lo, hi, init; bool random, fixed; };
struct Program { // the external program and what it has seen
	std::vector<Var> v; int results = 1, bounds = 0; bool negative = false; double factor = 1; std::string run, custom, initvalues, name; double p_fail = 0; int ms = 0, setup_fault = 0;
	int inits = 0, setups = 0, finals = 0, archives = 0, running = 0, evals = 0; std::map<std::string, Rec> rec; std::string last_id = "0", setup_file; std::vector<std::pair<std::string, std::pair<Vec, Vec>>> archived; std::string archive_input; bool archive_fails = false; std::map<int, int> n;
};
Program *P;
struct Quiet { sim::NoPreempt np; bool e; Quiet() : e(sim::fs::cfg.enabled) { sim::fs::cfg.enabled = false; } ~Quiet() { sim::fs::cfg.enabled = e; } }; // the program's own files
bool exists(const std::string &f) { Quiet q; return std::filesystem::exists(f); }
std::string slurp(const std::string &f) { std::string s; FILE *i = fopen(f.c_str(), "r"); if (!i) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
void spill(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "w"); if (!o) sim::violate("harness", "cannot write %s", f.c_str()); fwrite(s.data(), 1, s.size(), o); fclose(o); }
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
Vec results(const Vec &x) { Vec r; for (int i = 0; i < P->results; ++i) r.push_back(truth(x) * (i + 1) + i); return r; }
std::string opt(const std::string &c, const char *name) { std::string k = std::string("--") + name + "=\""; auto p = c.find(k); if (p == std::string::npos) return ""; p += k.size(); return c.substr(p, c.find('"', p) - p); }

std::string setup_text() {
	std::string s = "<batch><dataType>setup_data</dataType><runID>" + P->run + "</runID><nIndividuals>1</nIndividuals><individuals><individual0><type>GParameterSet</type><nVars>" + std::to_string(P->v.size()) + "</nVars><vars>";
	for (size_t i = 0; i < P->v.size(); ++i) { auto &v = P->v[i]; double init = P->initvalues == "min" ? v.lo : P->initvalues == "max" ? v.hi : v.init; s += "<var" + std::to_string(i) + "><name>v" + std::to_string(i) + "</name><type>GConstrainedDoubleObject</type><baseType>double</baseType><isLeaf>true</isLeaf><nVals>1</nVals><values><value0>" + num(init) + "</value0></values><lowerBoundary>" + num(v.fixed ? init : v.lo) + "</lowerBoundary><upperBoundary>" + num(v.fixed ? init : v.hi) + "</upperBoundary>" + (v.random || sim::draw("says_init", 0, 1) ? std::string("<initRandom>") + (v.random && P->initvalues == "random" ? "true" : "false") + "</initRandom>" : std::string()) + "</var" + std::to_string(i) + ">"; }
	s += "</vars><nBounds>" + std::to_string(P->bounds) + "</nBounds>"; if (P->bounds) s += "<bounds><bound0><expression>{{v0}} * " + num(P->factor) + "</expression><allowNegative>" + (P->negative ? "true" : "false") + "</allowNegative></bound0></bounds>";
	return s + "<nResults>" + std::to_string(P->results) + "</nResults></individual0></individuals></batch>\n";
}
ptr::ptree parse(const std::string &text) { std::istringstream i(text); ptr::ptree t; ptr::read_xml(i, t); return t; }
Vec values(const ptr::ptree &ind) { Vec x; int n = ind.get<int>("nVars"); for (int i = 0; i < n; ++i) { std::string k = "vars.var" + std::to_string(i); if (ind.get<std::string>(k + ".name") != "v" + std::to_string(i)) throw std::runtime_error("name"); x.push_back(strtod(ind.get<std::string>(k + ".values.value0").c_str(), nullptr)); } return x; }

int evaluate(const std::string &in, const std::string &out, const std::string &redirect) {
	Rec r; r.in = in; r.result = out; r.output = redirect; std::string id, text; int ms = P->ms ? (int)sim::draw("program_ms", 0, P->ms) : 0;
	bool no_start = sim::fault("program-not-started", P->p_fail * 0.1); if (no_start) { sim::NoPreempt np; ++P->n[NOT_STARTED]; return -1; }
	{ Quiet q; spill(redirect, "evaluating\n"); ++P->running; text = slurp(in); }
	sim::sleep_ns(ms * MS); sim::yield_point();
	Quiet q; --P->running; ++P->evals;
	std::string iter; try { auto t = parse(text); auto &i = t.get_child("batch.individuals.individual0"); if (t.get<int>("batch.nIndividuals") != 1) throw std::runtime_error("count"); id = i.get<std::string>("id"); iter = i.get<std::string>("iteration"); r.x = values(i); if (t.get<std::string>("batch.runID") != P->run) sim::violate("run-id", "the program is given the run id \"%s\", it had named it \"%s\"", t.get<std::string>("batch.runID").c_str(), P->run.c_str()); if (i.get<std::string>("isDirty") != "true") sim::violate("input", "the input of an evaluation says that the individual has been evaluated already"); }
	catch (std::exception &e) { if (!sim::fs::failed) sim::violate("unreadable-input", "the program cannot read its input %s: %s\n%.600s", in.c_str(), e.what(), text.c_str()); ++P->n[UNREADABLE]; sim::probe("unreadable-input"); return 1 << 8; }
	if ((int)r.x.size() != (int)P->v.size()) sim::violate("input", "the program is given %zu of %zu parameters", r.x.size(), P->v.size());
	if (P->rec.count(id)) sim::violate("evaluation-id", "two evaluations have the id %s", id.c_str());
	for (size_t i = 0; i < r.x.size(); ++i) { auto &v = P->v[i]; double init = P->initvalues == "min" ? v.lo : P->initvalues == "max" ? v.hi : v.init; if (v.fixed ? std::fabs(r.x[i] - init) > 1e-9 : !(r.x[i] >= v.lo - 1e-9 && r.x[i] <= v.hi + 1e-9)) sim::violate("out-of-bounds", "parameter %zu is %.17g, %s", i, r.x[i], v.fixed ? "it is fixed" : "its limits are violated"); }
	r.res = results(r.x); int status = 0; int how = sim::fault("program-fails", P->p_fail) ? (int)sim::fault_value("how", NO_VALIDITY - 1) : -1; // EXIT_CODE .. NO_VALIDITY without NOT_STARTED
	if (how >= 0) { r.out = (Out)(EXIT_CODE + how); if (r.out >= NOT_STARTED) r.out = (Out)(r.out + 1); }
	std::string shown = r.out == FOREIGN_ID ? P->last_id : id; P->last_id = id;
	std::string o = "<batch><dataType>run_results</dataType><runID>" + P->run + "</runID><nIndividuals>" + (r.out == TWO_INDIVIDUALS ? "2" : "1") + "</nIndividuals><individuals><individual0><iteration>" + iter + "</iteration><id>" + shown + "</id>" + (r.out == NO_VALIDITY ? std::string() : std::string("<isValid>") + (r.out == INVALID ? "false" : "true") + "</isValid>") + "<isDirty>false</isDirty><nResults>" + std::to_string(r.out == WRONG_COUNT ? P->results + 1 : P->results) + "</nResults><results>";
	int bad = sim::draw("bad_result", 0, P->results - 1);
	for (int i = 0; i < P->results; ++i) { std::string k = "rawResult" + std::to_string(i); if (r.out == MISSING_RESULT && i == bad) continue; o += "<" + k + ">" + (r.out == NOT_A_NUMBER && i == bad ? "oops" : num(r.res[i])) + "</" + k + ">"; }
	o += "</results></individual0></individuals></batch>\n";
	if (r.out == EMPTY_FILE) o = ""; else if (r.out == CUT_FILE) o.resize(sim::draw("cut", 1, o.size() - 10)); else if (r.out == GARBAGE) o = "\x01\xff<<&";
	if (r.out == SIGNALLED) status = sim::draw("signal", 1, 15); else if (r.out == EXIT_CODE) status = sim::draw("code", 1, 255) << 8;
	bool write = r.out != NO_FILE && !(status && sim::draw("dies_before_writing", 0, 1)); if (write) spill(out, o);
	sim::op("program: %s -> %s (%s)", str(r.x).c_str(), num(r.res[0]).c_str(), outn[r.out]); sim::hash(r.out); ++P->n[r.out]; P->rec[id] = r; return status;
}
int program(std::string c) {
	std::string redirect; { auto p = c.rfind(") > "); if (c[0] == '(' && p != std::string::npos) { redirect = c.substr(p + 4); auto e = redirect.rfind(" 2>&1"); if (e == std::string::npos) sim::violate("command", "%s", c.c_str()); redirect.resize(e); c = c.substr(1, p - 1); } }
	if (c.compare(0, P->name.size() + 1, P->name + " ")) sim::violate("command", "not the configured program: %s", c.c_str());
	std::string rest = c.substr(P->name.size() + 1); if (!P->custom.empty()) { if (rest.compare(0, P->custom.size() + 1, P->custom + " ")) sim::violate("command", "the custom options are missing: %s", c.c_str()); rest = rest.substr(P->custom.size() + 1); }
	std::string verb = rest.substr(0, rest.find(' '));
	if (verb == "--init") { sim::sleep_ns(MS); sim::NoPreempt np; if (P->setups || P->evals) sim::violate("order", "--init after other calls"); ++P->inits; return P->setup_fault == 1 ? 1 << 8 : 0; }
	if (verb == "--setup") { Quiet q; if (P->inits < 1 || P->evals) sim::violate("order", "--setup before --init or after evaluations"); ++P->setups; if (opt(rest, "initvalues") != P->initvalues) sim::violate("command", "other initial values than the configured ones: %s", c.c_str()); P->setup_file = opt(rest, "output"); if (P->setup_fault == 3) return 0; std::string t = setup_text(); if (P->setup_fault == 4) t.resize(sim::draw("setup_cut", 1, t.size() - 10)); spill(P->setup_file, t); return P->setup_fault == 2 ? 3 << 8 : 0; }
	if (verb == "--finalize") { sim::NoPreempt np; if (P->running) sim::violate("order", "--finalize while evaluations are running"); ++P->finals; return 0; }
	if (P->setups != 1 || P->inits != 1 || P->finals) sim::violate("order", "%s after %d --init, %d --setup and %d --finalize", verb.c_str(), P->inits, P->setups, P->finals);
	if (verb == "--evaluate") { if (redirect.empty()) sim::violate("command", "the program's output is not redirected: %s", c.c_str()); return evaluate(opt(rest, "input"), opt(rest, "output"), redirect); }
	if (verb == "--archive") {
		Quiet q; ++P->archives; P->archived.clear(); P->archive_input = opt(rest, "input"); if (P->archive_fails) return 1 << 8; auto t = parse(slurp(P->archive_input)); int n = t.get<int>("batch.nIndividuals");
		if (t.get<std::string>("batch.runID") != P->run) sim::violate("run-id", "archive: the program is given the run id \"%s\", it had named it \"%s\"", t.get<std::string>("batch.runID").c_str(), P->run.c_str());
		for (int i = 0; i < n; ++i) { auto &d = t.get_child("batch.individuals.individual" + std::to_string(i)); Vec r; for (int k = 0; k < P->results; ++k) r.push_back(strtod(d.get<std::string>("results.rawResult" + std::to_string(k)).c_str(), nullptr)); P->archived.push_back({d.get<std::string>("id"), {values(d), r}}); }
		return 0;
	}
	sim::violate("command", "unknown: %s", c.c_str()); return 0;
}
}
extern "C" int system(const char *c) { return program(c); }

namespace {
void draw_program() {
	Problem p = draw_problem(); sim::cfg.mem_mean *= 8; sim::cfg.max_steps = 4000000; sim::cfg.max_time = 4000 * SEC; world().p.dim = p.dim; P = new Program; P->name = "./evaluator";
	for (int i = 0; i < p.dim; ++i) { Var v; v.lo = p.lo; v.hi = p.hi; v.init = p.lo + (p.hi - p.lo) * (sim::draw("init", 0, 10) / 10.); v.random = sim::draw("init_random", 0, 1); v.fixed = i && sim::draw("fixed", 0, 4) == 4; P->v.push_back(v); }
	P->results = sim::draw("results", 1, 3); P->run = sim::draw("run_id", 0, 1) ? "0" : "run-17"; const char *cu[] = {"", "--level=3", "-v -x"}; P->custom = cu[sim::draw("custom", 0, 2)]; const char *iv[] = {"random", "min", "max"}; P->initvalues = iv[sim::draw("initvalues", 0, 2)];
	P->bounds = sim::draw("bounds_given", 0, 2) == 2; P->negative = sim::draw("negative", 0, 1); P->factor = 0.25 * sim::draw("factor", 1, 8); P->ms = sim::draw("slow_program", 0, 1) ? 200 : 0;
	if (sim::swarm("program_faults")) P->p_fail = 0.05 * sim::draw("p_fail", 1, 8); Quiet q; std::filesystem::create_directories("config"); spill(P->name, "#!/bin/sh\n");
}
bool removes, maximize;
std::shared_ptr<XFac> factory() {
	auto f = std::make_shared<XFac>("config/external.json"); f->setProgramName(P->name); if (!P->custom.empty()) f->setCustomOptions(P->custom); f->setInitValues(P->initvalues); removes = sim::draw("remove", 0, 2) < 2; f->setRemoveExecTemporaries(removes); if (sim::draw("base_name", 0, 1)) f->setParameterFileBaseName("input"); f->setAdProb(1.); return f;
}
Vec point(XInd &i) { Vec x; for (size_t k = 0; k < i.size(); ++k) x.push_back(i.at<GConstrainedDoubleObject>(k)->value()); return x; }
bool close_to(const Vec &a, const Vec &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > 1e-12 * (1 + std::fabs(b[i]))) return false; return true; }
bool fulfilled(const Vec &x, bool &sure) { if (!P->bounds) return sure = true; double f = x[0] * P->factor; sure = std::fabs(f) > 1e-9 && std::fabs(f - 1) > 1e-9; return f <= 1 && (P->negative || f >= 0); }
std::shared_ptr<XInd> make(XFac &f) {
	auto p = std::dynamic_pointer_cast<XInd>(f.get()); if (!p) sim::violate("factory", "the factory delivers no individual"); if (maximize) p->setMaxMode(maxMode::MAXIMIZE);
	if (p->size() != P->v.size() || p->getNExpectedResults() != (size_t)P->results) sim::violate("setup", "an individual with %zu parameters and %zu results, the program has named %zu and %d", p->size(), p->getNExpectedResults(), P->v.size(), P->results);
	Vec x = point(*p); for (size_t i = 0; i < x.size(); ++i) { auto &v = P->v[i]; double init = P->initvalues == "min" ? v.lo : P->initvalues == "max" ? v.hi : v.init; bool exact = v.fixed || !(v.random && P->initvalues == "random"); if (exact ? std::fabs(x[i] - init) > 1e-9 : x[i] < v.lo - 1e-9 || x[i] > v.hi + 1e-9) sim::violate("setup", "parameter %zu starts with %.17g, the program has asked for %s %.17g", i, x[i], exact ? "exactly" : "a random value around", init); if (p->at<GConstrainedDoubleObject>(i)->getParameterName() != "v" + std::to_string(i)) sim::violate("setup", "parameter %zu has another name", i); }
	return p;
}
// an individual after its evaluation
void judge(XInd &p, const char *where, bool disk) {
	Quiet q; bool ok = p.is_processed() && !p.has_errors(); auto it = P->rec.find(p.getCurrentEvaluationID()); Vec x = point(p);
	if (it == P->rec.end()) { if (ok) sim::violate("never-evaluated", "%s: %s carries the fitness %.17g, the program was never asked", where, str(x).c_str(), p.raw_fitness(0)); return; }
	Rec &r = it->second; if (!close_to(r.x, x)) sim::violate("other-parameters", "%s: the program was given %s for %s", where, str(r.x).c_str(), str(x).c_str());
	if (!ok) { if (r.out == GOOD && !disk) sim::violate("result-ignored", "%s: the program has evaluated %s, the individual is marked as failed: %.600s", where, str(x).c_str(), p.get_and_clear_exceptions().c_str()); return; }
	if (r.out != GOOD) sim::violate("failure-taken-for-result", "%s: the evaluation of %s came to nothing (%s), the individual carries the fitness %.17g", where, str(x).c_str(), outn[r.out], p.raw_fitness(0));
	if ((int)p.getNStoredResults() != P->results) sim::violate("wrong-result", "%s: %zu of %d results", where, p.getNStoredResults(), P->results);
	for (int i = 0; i < P->results; ++i) if (std::fabs(p.raw_fitness(i) - r.res[i]) > 1e-12 * (1 + std::fabs(r.res[i])) || p.raw_fitness(i) != p.transformed_fitness(i)) sim::violate("wrong-result", "%s: result %d of %s is %.17g / %.17g, the program's is %.17g", where, i, str(x).c_str(), p.raw_fitness(i), p.transformed_fitness(i), r.res[i]);
	bool sure, want = fulfilled(x, sure); if (sure && p.isValid() != want) sim::violate("validity", "%s: isValid() of %s is %d, v0 * %g makes it %d", where, str(x).c_str(), (int)p.isValid(), P->factor, (int)want);
}
void files(const Rec &r, const char *where) {
	if (r.out != GOOD && r.out != EXIT_CODE && r.out != SIGNALLED && r.out != INVALID) return;
	for (auto &f : {r.in, r.result, r.output}) { bool e = exists(f); if (removes && e) sim::violate("left-behind", "%s: %s is still there after an evaluation (%s), removal was asked for", where, f.c_str(), outn[r.out]); if (!removes && !e && r.out == GOOD) sim::violate("removed", "%s: %s is gone, removal was not asked for", where, f.c_str()); }
}
std::shared_ptr<XInd> travel(const std::shared_ptr<XInd> &p) { // as through a network
	auto q = std::make_shared<XInd>(); auto m = (Gem::Common::serializationMode)sim::draw("mode", 0, 2); q->fromString(p->toString(m), m); return q;
}
void leave(std::shared_ptr<XFac> &f) { f.reset(); if (P->finals != 1) sim::violate("finalize", "--finalize was called %d times", P->finals); }
void disk_faults() { if (!sim::swarm("disk_faults")) return; auto &c = sim::fs::cfg; c.enabled = true; c.p_open = 0.02; c.p_write = 0.02; c.p_short = 0.1; c.p_close = 0.01; c.p_unlink = 0.02; }
void archive(XFac &f, const std::vector<std::shared_ptr<XInd>> &v) {
	P->archive_fails = sim::fault("archive-fails", 0.2); sim::fs::cfg.enabled = false; bool thrown = false; try { f.archive(v); } catch (gemfony_exception &) { thrown = true; }
	if (thrown != P->archive_fails) sim::violate("archive", thrown ? "archive() throws, the program has succeeded" : "archive() returns, the program has failed"); if (thrown) return;
	if (P->archived.size() != v.size()) sim::violate("archive", "the program is given %zu of %zu individuals", P->archived.size(), v.size());
	for (size_t i = 0; i < v.size(); ++i) { auto &a = P->archived[i]; Vec r; for (int k = 0; k < P->results; ++k) r.push_back(v[i]->raw_fitness(k)); if (a.first != v[i]->getCurrentEvaluationID() || !close_to(a.second.first, point(*v[i])) || !close_to(a.second.second, r)) sim::violate("archive", "individual %zu: the program is given %s -> %s, it is %s -> %s", i, str(a.second.first).c_str(), str(a.second.second).c_str(), str(point(*v[i])).c_str(), str(r).c_str()); }
	if (exists(P->archive_input)) sim::violate("left-behind", "%s is still there after archive()", P->archive_input.c_str());
}
std::string told() { std::string s; for (auto &x : P->n) s += std::string(" ") + outn[x.first] + "=" + std::to_string(x.second); return s; }
}
SIM_SCENARIO(C32, evaluations, 2) {
	draw_program(); maximize = sim::draw("maximize_external", 0, 1); P->setup_fault = sim::fault("setup-fails", 0.05) ? 1 + (int)sim::fault_value("setup_how", 3) : 0; auto f = factory();
	if (P->setup_fault) {
		sim::probe("setup-failed"); for (int i = 0; i < 2; ++i) { std::shared_ptr<GParameterSet> p; try { p = f->get(); } catch (std::exception &) {} if (p) sim::violate("setup", "an individual in spite of a failed setup (%d)", P->setup_fault); }
		leave(f); sim::sample("setup fails"); return;
	}
	int nt = sim::draw("threads", 1, 4), each = sim::draw("individuals", 1, 3), rounds = sim::draw("rounds", 1, 3); std::vector<std::vector<std::shared_ptr<XInd>>> v(nt); for (auto &t : v) for (int i = 0; i < each; ++i) t.push_back(make(*f));
	if (P->setups != 1 || P->inits != 1 || exists(P->setup_file)) sim::violate("setup", "%d --init and %d --setup for %d individuals, setup file %s", P->inits, P->setups, nt * each, exists(P->setup_file) ? "still there" : "removed");
	disk_faults(); bool disk = sim::fs::cfg.enabled; h::Threads T;
	for (int t = 0; t < nt; ++t) T.go("evaluator" + std::to_string(t), [&, t] {
		for (int r = 0; r < rounds; ++r) for (auto &p : v[t]) {
			if (r) { p->adapt(); p->setAssignedIteration(r); }
			p->mark_as_due_for_processing();
			auto q = p; int how = sim::draw("way", 0, 2); if (how == 1) q = p->clone<XInd>(); else if (how == 2) q = travel(p);
			std::string what; try { q->process(); } catch (g_processing_exception &e) { what = e.what(); } sim::hash(what.empty());
			if (what.empty() != (q->is_processed() && !q->has_errors())) sim::violate("exception", "process() %s, the individual is %s", what.empty() ? "returns" : "throws", q->has_errors() ? "marked as failed" : "not marked as failed");
			judge(*q, "after process()", disk); if (!disk) { Rec rc; bool any; { sim::NoPreempt np; auto it = P->rec.find(q->getCurrentEvaluationID()); any = it != P->rec.end(); if (any) rc = it->second; } if (any) files(rc, "after process()"); }
			if (how == 1 || how == 2) { if (how == 2) q = travel(q); p->GObject::load(q); judge(*p, "after the way back", disk); }
		}
	});
	T.join(); sim::fs::cfg.enabled = false; std::vector<std::shared_ptr<XInd>> good; for (auto &t : v) for (auto &p : t) { judge(*p, "at the end", disk); if (p->is_processed() && !p->has_errors()) good.push_back(p); }
	if (!good.empty() && sim::draw("archive", 0, 1)) archive(*f, good);
	v.clear(); good.clear(); leave(f); sim::sample("threads=" + std::to_string(nt) + " individuals=" + std::to_string(nt * each) + " rounds=" + std::to_string(rounds) + (disk ? " disk faults" : "") + told());
}
SIM_SCENARIO(C32, optimization, 2) {
	draw_program(); maximize = world().p.maximize; auto f = factory(); Setup s = draw_alg((Alg)sim::draw("algorithm", 0, (int)SWARM), false); int iters = sim::draw("iterations", 1, 4); s.alg->setMaxIteration(iters);
	Evaluation ev; Exec k = (Exec)sim::draw("executor", 0, 2); ev.start(k); ev.use(s.alg); int given = sim::draw("given_individuals", 1, s.size); for (int i = 0; i < given; ++i) s.alg->push_back(make(*f));
	disk_faults(); bool disk = sim::fs::cfg.enabled; int seen = 0;
	auto best = [&](const G_OptimizationAlgorithm_Base *a, const char *where) {
		auto v = const_cast<G_OptimizationAlgorithm_Base *>(a)->getBestGlobalIndividuals<XInd>(); sim::NoPreempt np; if (v.empty()) sim::violate("no-best", "%s: no best individual", where); judge(*v[0], where, disk); if (!v[0]->is_processed() || v[0]->has_errors()) sim::violate("failed-candidate", "%s: the evaluation of the best individual has failed", where);
		bool sure; for (auto &r : P->rec) if (!disk && !P->bounds && r.second.out == GOOD && better(r.second.res[0], v[0]->raw_fitness(0))) sim::violate("better-candidate-forgotten", "%s: reported %.17g, but the program has evaluated %s to %.17g", where, v[0]->raw_fitness(0), str(r.second.x).c_str(), r.second.res[0]); (void)sure;
	};
	watcher().f = [&](infoMode m, const G_OptimizationAlgorithm_Base *a) { if (m != infoMode::INFOPROCESSING) return; ++seen; sim::op("iteration %u", a->getIteration()); for (auto &p : *a) { auto x = std::dynamic_pointer_cast<XInd>(p); if (!x->is_processed() || x->has_errors()) sim::violate("failed-candidate", "%s: the population holds a candidate whose evaluation failed", s.text.c_str()); judge(*x, "in the population", disk); } best(a, "after an iteration"); };
	std::string what; try { s.alg->optimize(); } catch (std::exception &e) { what = e.what(); } watcher().f = nullptr;
	if (!what.empty()) { if ((P->p_fail || disk) && what.find("Population holds no data") != std::string::npos) sim::probe("nothing-came-back"); else if (disk && sim::fs::failed && what.find("geneva_file_startTime") != std::string::npos) sim::probe("start-file"); else sim::violate("optimization-failed", "%s: optimize() was left by an exception: %.700s", s.text.c_str(), what.c_str()); }
	else { if (seen != iters) sim::violate("iterations", "%s: %d iterations, %d are configured", s.text.c_str(), seen, iters); best(s.alg.get(), "at the end"); sim::fs::cfg.enabled = false; if (sim::draw("archive", 0, 1)) archive(*f, s.alg->getBestGlobalIndividuals<XInd>()); }
	sim::fs::cfg.enabled = false; if (P->running) sim::violate("order", "optimize() has returned, %d evaluations are running", P->running);
	ev.end(); s.alg.reset(); leave(f); sim::sample(s.text + " iterations=" + std::to_string(seen) + " executor=" + exn[k] + (disk ? " disk faults" : "") + told());
}
