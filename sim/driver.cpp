// Driver: forks one child per simulated run, searches seeds, gates, minimises and
// replays violations, writes the evidence.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <regex>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

namespace sim {

static std::string g_components_real, g_components_stub;
void declare_components(const char *r, const char *s) { g_components_real = r; g_components_stub = s; }

static std::string g_base;           // scratch base
static std::string g_harness = "harness";
static int g_jobs = 8;
static double g_wall_limit = 60;
static const double T0_wall = wall();

static Result *new_result() {
	void *p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
	return (Result *)p;
}
static void reset(Result *r) {
	r->status = ST_NONE; r->cls[0] = r->msg[0] = r->sample[0] = 0;
	r->hash = r->shash = r->steps = r->switches = r->memacc = r->simtime = r->threads = 0;
	r->nfaults_c = r->nprobes_c = 0; memset(r->faults, 0, sizeof r->faults); memset(r->probes, 0, sizeof r->probes);
	r->ndec = r->dec_overflow = 0; r->nsites = 0; r->trace_len = 0; r->trace[0] = 0;
	memset(r->persist, 0, sizeof r->persist);
}
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { ::remove(p); return 0; }
static void wipe(const std::string &d) {
	if (g_base.empty() || d.compare(0, g_base.size(), g_base) != 0 || g_base.compare(0, 10, "/tmp/gsim.") != 0) return;
	nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
static void clean_slot(const std::string &d) {
	DIR *D = opendir(d.c_str()); bool any = false;
	if (!D) { ::mkdir(d.c_str(), 0700); return; }
	while (auto e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { any = true; break; }
	closedir(D);
	if (any) { wipe(d); ::mkdir(d.c_str(), 0700); }
}

struct Slot { Result *r; std::string dir; pid_t pid = 0; double t0 = 0; RunSpec spec; std::vector<Decision> dec; int tag = 0; };

static void launch(Slot &s, int cpu, const char *outfile) {
	s.t0 = wall();
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(3); }
	if (p == 0) {
		int fd = ::open(outfile ? outfile : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0600);
		dup2(fd, 1); dup2(fd, 2); if (fd > 2) ::close(fd);
		if (chdir(s.dir.c_str())) _exit(3);
		cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs);
		s.spec.dec = &s.dec;
		run_scenario(s.spec, s.r);
	}
	s.pid = p;
}
// handles the end of a child; returns true if the run is over
static bool ended(Slot &s, int wst, int cpu, const char *outfile) {
	if (s.r->status == ST_PHASE) {
		s.r->status = ST_NONE;
		s.spec.phase++;
		if (s.spec.phase > 8) { s.r->status = ST_ERROR; strcpy(s.r->msg, "too many phases"); }
		else { launch(s, cpu, outfile); return false; }
	}
	if (s.r->status == ST_NONE) {
		s.r->status = ST_VIOLATION;
		if (WIFSIGNALED(wst)) {
			snprintf(s.r->cls, sizeof s.r->cls, WTERMSIG(wst) == SIGKILL ? "no-progress/wall" : "crash/signal%d", WTERMSIG(wst));
			snprintf(s.r->msg, sizeof s.r->msg, "process ended by signal %d", WTERMSIG(wst));
		} else { snprintf(s.r->cls, sizeof s.r->cls, "crash/exit"); snprintf(s.r->msg, sizeof s.r->msg, "process exited with status %d", WEXITSTATUS(wst)); }
	}
	s.pid = 0;
	return true;
}
static void nap(double s) { struct timespec ts{(time_t)s, (long)((s - (time_t)s) * 1e9)}; raw_syscall(SYS_nanosleep, (long)&ts, 0); }

// runs specs on all slots; next() supplies work (false: none left), done() consumes
template <typename Next, typename Done>
static void pool(std::vector<Slot> &slots, Next next, Done done) {
	bool more = true;
	int active = 0;
	for (;;) {
		for (size_t i = 0; i < slots.size() && more; ++i) if (!slots[i].pid) {
			clean_slot(slots[i].dir);
			reset(slots[i].r);
			slots[i].spec = RunSpec(); slots[i].dec.clear();
			if (!next(slots[i])) { more = false; break; }
			launch(slots[i], i % g_jobs, nullptr); ++active;
		}
		if (!active) return;
		int wst; pid_t p = waitpid(-1, &wst, WNOHANG);
		if (p <= 0) {
			double now = wall();
			for (auto &s : slots) if (s.pid && now - s.t0 > g_wall_limit) { kill(s.pid, SIGKILL); s.t0 = now; }
			nap(0.0003); continue;
		}
		for (size_t i = 0; i < slots.size(); ++i) if (slots[i].pid == p) {
			if (ended(slots[i], wst, i % g_jobs, nullptr)) { --active; if (!done(slots[i])) more = false; }
		}
	}
}
static std::vector<Slot> make_slots(int n) {
	std::vector<Slot> v(n);
	static int k = 0;
	for (auto &s : v) { s.r = new_result(); s.dir = g_base + "/s" + std::to_string(k++); ::mkdir(s.dir.c_str(), 0700); }
	return v;
}
static void drop_slots(std::vector<Slot> &v) { for (auto &s : v) { munmap(s.r, sizeof(Result)); wipe(s.dir); } v.clear(); }

static std::string json_esc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32) o += ' '; else if (c >= 127) o += '?'; else o += c; }
	return o;
}
static u64 run_seed(u64 base, u64 i) { u64 z = base * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 0x1234567; z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 29; return z >> 2; }

struct Known { std::string prop, scn, what, replay; std::regex cls, msg; bool seen = false; u64 hits = 0; };
static std::vector<Known> load_known(const std::string &file, const std::string &prop) {
	std::vector<Known> v; std::ifstream f(file); std::string l;
	while (std::getline(f, l)) {
		if (l.empty() || l[0] == '#' || l.compare(0, 6, "fixed:") == 0) continue;
		std::vector<std::string> c; std::string cell; std::istringstream is(l);
		while (std::getline(is, cell, '\t')) c.push_back(cell);
		if (c.size() < 6) continue;
		if (c[0] != prop) continue;
		Known k; k.prop = c[0]; k.scn = c[1]; k.cls = std::regex(c[2]); k.msg = std::regex(c[3]); k.replay = c[4]; k.what = c[5];
		v.push_back(k);
	}
	return v;
}
static Known *match_known(std::vector<Known> &v, const char *scn, const char *cls, const char *msg) {
	for (auto &k : v) if ((k.scn == "*" || k.scn == scn) && std::regex_search(cls, k.cls) && std::regex_search(msg, k.msg)) return &k;
	return nullptr;
}

struct Replay { std::string harness, prop, scn, cls, msg; u64 seed = 0; std::vector<Decision> dec; };
static bool read_replay(const std::string &file, Replay &r) {
	std::ifstream f(file); if (!f) return false; std::string l;
	while (std::getline(f, l)) {
		std::istringstream is(l); std::string k; is >> k;
		if (k == "harness") is >> r.harness; else if (k == "property") is >> r.prop; else if (k == "scenario") is >> r.scn;
		else if (k == "seed") is >> r.seed;
		else if (k == "class") { std::getline(is, r.cls); r.cls.erase(0, r.cls.find_first_not_of(' ')); }
		else if (k == "D") { Decision d; std::string nm; is >> nm >> std::hex >> d.site >> std::dec >> d.tid >> d.idx >> d.val; r.dec.push_back(d); }
		else if (k == "trace") break;
	}
	return !r.scn.empty();
}
static const Scenario *find_scn(const std::string &prop, const std::string &name) {
	for (auto &s : scenarios()) if (prop == s.prop && name == s.name) return &s;
	return nullptr;
}
static std::string site_name(const Result *r, u32 h) {
	static const char *fx[] = {"sched", "mem", "time", "stall", "clock"};
	for (auto n : fx) if ((site_hash(n) & ~1u) == h) return n;
	for (auto n : {"spurious", "wake"}) if ((site_hash(n) | 1u) == h) return n;
	for (u32 i = 0; i < r->nsites; ++i) if (r->sites[i].h == h) { std::string s = r->sites[i].name; for (auto &c : s) if (c == ' ') c = '_'; return s; }
	return "?";
}
static bool same_class(const char *a, const char *b) { return strcmp(a, b) == 0; }

// single run in slot s
static void run_one(Slot &s, const Scenario *scn, u64 seed, bool replay, const std::vector<Decision> &dec, bool verbose, const char *out) {
	clean_slot(s.dir); reset(s.r);
	s.spec = RunSpec(); s.spec.scn = scn; s.spec.seed = seed; s.spec.replay = replay; s.spec.verbose = verbose; s.dec = dec;
	launch(s, 0, out);
	for (;;) {
		int wst; pid_t p = waitpid(s.pid, &wst, WNOHANG);
		if (p == s.pid) { if (ended(s, wst, 0, out)) return; continue; }
		if (p < 0) return;
		if (wall() - s.t0 > g_wall_limit) { kill(s.pid, SIGKILL); s.t0 = wall(); }
		nap(0.0002);
	}
}

static std::vector<Decision> minimise(const Scenario *scn, u64 seed, std::vector<Decision> dec, const char *cls, double budget, u64 &tests) {
	double end = wall() + budget;
	auto slots = make_slots(g_jobs);
	auto first_ok = [&](std::vector<std::vector<Decision>> &cand) -> int {
		size_t nx = 0; int best = -1;
		pool(slots, [&](Slot &s) {
			if (nx >= cand.size() || (best >= 0 && (int)nx > best) || wall() > end) return false;
			s.spec.scn = scn; s.spec.seed = seed; s.spec.replay = true; s.dec = cand[nx]; s.tag = nx++; return true;
		}, [&](Slot &s) { ++tests; if (s.r->status == ST_VIOLATION && same_class(s.r->cls, cls)) if (best < 0 || s.tag < best) best = s.tag; return true; });
		return best;
	};
	size_t n = 2;
	while (!dec.empty() && wall() < end) {
		n = std::min(n, dec.size());
		size_t chunk = (dec.size() + n - 1) / n;
		std::vector<std::vector<Decision>> cand;
		std::vector<std::pair<size_t, size_t>> rg;
		for (size_t a = 0; a < dec.size(); a += chunk) {
			size_t b = std::min(dec.size(), a + chunk);
			std::vector<Decision> c(dec.begin(), dec.begin() + a); c.insert(c.end(), dec.begin() + b, dec.end());
			cand.push_back(c); 
		}
		int k = first_ok(cand);
		if (k >= 0) { dec = cand[k]; n = n > 2 ? n - 1 : 2; if (n > dec.size()) n = dec.size(); if (!n) break; }
		else { if (n >= dec.size()) break; n = std::min(dec.size(), n * 2); }
	}
	// shrink values of draws and fault parameters
	for (int round = 0; round < 3 && wall() < end && dec.size() <= 64; ++round) {
		bool any = false;
		for (size_t i = 0; i < dec.size() && wall() < end; ++i) if ((dec[i].site & 1) && dec[i].val > 1) {
			std::vector<std::vector<Decision>> cand;
			for (u64 v : {dec[i].val / 2, dec[i].val - 1}) { auto c = dec; c[i].val = v; cand.push_back(c); }
			int k = first_ok(cand);
			if (k >= 0) { dec = cand[k]; any = true; }
		}
		if (!any) break;
	}
	drop_slots(slots);
	return dec;
}

static void write_replay(const std::string &file, const Scenario *scn, u64 seed, const Result *r, const std::vector<Decision> &dec, size_t orig) {
	std::ofstream f(file);
	f << "gsim-replay 1\nharness " << g_harness << "\nproperty " << scn->prop << "\nscenario " << scn->name << "\nseed " << seed
	  << "\nclass " << r->cls << "\nhash " << std::hex << r->hash << std::dec << "\n# " << dec.size() << " decisions that differ from the default schedule and from no-fault (found with " << orig << ")\n";
	for (auto &d : dec) f << "D " << site_name(r, d.site) << ' ' << std::hex << d.site << std::dec << ' ' << d.tid << ' ' << d.idx << ' ' << d.val << "\n";
	std::string m = r->msg; std::istringstream is(m); std::string l;
	while (std::getline(is, l)) f << "message " << l << "\n";
	f << "trace\n";
	std::string t(r->trace, std::min<size_t>(r->trace_len, 400000));
	f << t;
}

static int usage() {
	std::cerr << "usage: --prop ID [--tier quick|thorough] [--seed N] [--time S] [--runs N] [--scenario NAME] [--evidence F] [--replay-dir D] [--known F] [--t0 EPOCH]\n"
	             "       --replay FILE | --determinism N | --one SEED --scenario NAME | --list\n";
	return 3;
}

int driver_main(int argc, char **argv) {
	mallopt(M_ARENA_MAX, 1);
	mallopt(M_PERTURB, 0xA5);
	mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30);
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("GSIM_NOREEXEC")) {
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("GSIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	std::string prop, tier = "quick", evidence, rdir = ".", known, replay, only;
	u64 seed = 1, runs = 0, det = 0; double secs = 20, t0 = -1; bool one = false, list = false, quiet = false; u64 one_seed = 0; double mintime = 25;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--time") secs = atof(nx().c_str()); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10);
		else if (a == "--scenario") only = nx(); else if (a == "--evidence") evidence = nx(); else if (a == "--replay-dir") rdir = nx();
		else if (a == "--known") known = nx(); else if (a == "--replay") replay = nx(); else if (a == "--determinism") det = strtoull(nx().c_str(), 0, 10);
		else if (a == "--one") { one = true; one_seed = strtoull(nx().c_str(), 0, 10); } else if (a == "--list") list = true; else if (a == "--quiet") quiet = true;
		else if (a == "--t0") t0 = atof(nx().c_str()); else if (a == "--jobs") g_jobs = atoi(nx().c_str()); else if (a == "--harness") g_harness = nx();
		else if (a == "--wall-limit") g_wall_limit = atof(nx().c_str()); else if (a == "--min-time") mintime = atof(nx().c_str());
		else return usage();
	}
	double start = t0 > 0 ? t0 : [] { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }();
	auto epoch = [] { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
	if (list) { for (auto &s : scenarios()) std::cout << s.prop << " " << s.name << " " << s.weight << "\n"; return 0; }
	cpu_set_t cs; CPU_ZERO(&cs);
	if (sched_getaffinity(0, sizeof cs, &cs) == 0) g_jobs = std::min(g_jobs, std::max(1, CPU_COUNT(&cs)));
	char tmpl[] = "/tmp/gsim.XXXXXX";
	if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
	g_base = tmpl;
	struct Cleanup { ~Cleanup() { wipe(g_base); } } cleanup;

	if (!replay.empty()) {
		Replay rp; if (!read_replay(replay, rp)) { std::cerr << "cannot read " << replay << "\n"; return 3; }
		auto scn = find_scn(rp.prop, rp.scn); if (!scn) { std::cerr << "no such scenario " << rp.prop << " " << rp.scn << "\n"; return 3; }
		auto slots = make_slots(1);
		std::string out = g_base + "/output.txt";
		run_one(slots[0], scn, rp.seed, true, rp.dec, !quiet, out.c_str());
		auto r = slots[0].r;
		if (!quiet) { std::cout << std::string(r->trace, r->trace_len); std::ifstream f(out); std::string l; int n = 0; while (n++ < 60 && std::getline(f, l)) std::cout << "  output| " << l << "\n"; }
		bool viol = r->status == ST_VIOLATION;
		std::cout << (viol ? "REPRODUCED " : "NOT-REPRODUCED ") << "property=" << rp.prop << " class=" << r->cls << " status=" << r->status << " hash=" << std::hex << r->hash << std::dec << "\n" << r->msg << std::endl;
		bool same = viol && rp.cls == r->cls;
		drop_slots(slots);
		return viol ? (same ? 1 : 2) : 0;
	}
	std::vector<const Scenario *> sc;
	for (auto &s : scenarios()) if ((prop.empty() || prop == s.prop) && (only.empty() || only == s.name)) for (int k = 0; k < (only.empty() ? s.weight : 1); ++k) sc.push_back(&s);
	if (sc.empty()) { std::cerr << "no scenario\n"; return 3; }
	// interleave weighted scenarios
	std::stable_sort(sc.begin(), sc.end(), [&](const Scenario *a, const Scenario *b) { return false && a < b; });
	{ std::vector<const Scenario *> o; size_t n = sc.size(); for (size_t i = 0, st = n > 2 ? n / 2 | 1 : 1, p = 0; i < n; ++i) { (void)st; (void)p; o.push_back(sc[i]); }
	  u64 z = 12345; for (size_t i = n; i > 1; --i) { z = z * 6364136223846793005ull + 1442695040888963407ull; std::swap(o[i - 1], o[(z >> 33) % i]); } sc = o; }

	if (one) {
		auto slots = make_slots(1);
		run_one(slots[0], sc[0], one_seed, false, {}, true, "/dev/stdout");
		auto r = slots[0].r;
		std::cout << std::string(r->trace, r->trace_len) << "status=" << r->status << " class=" << r->cls << " hash=" << std::hex << r->hash << std::dec << " steps=" << r->steps << " switches=" << r->switches << " ndec=" << r->ndec << " simtime=" << r->simtime / 1e9 << "\n" << r->msg << "\n";
		for (u64 i = 0; i < r->nprobes_c; ++i) std::cout << "probe " << r->probes[i].name << " " << r->probes[i].n << "\n";
		for (u64 i = 0; i < r->nfaults_c; ++i) std::cout << "fault " << r->faults[i].name << " " << r->faults[i].n << "\n";
		drop_slots(slots);
		return 0;
	}
	if (det) {
		std::map<u64, std::pair<u64, u64>> first; u64 bad = 0, total = 0;
		for (int round = 0; round < 3; ++round) {
			auto slots = make_slots(round == 1 ? 3 : g_jobs); u64 i = 0;
			// third round: replay from the recorded decisions of the same seed
			static std::map<u64, std::vector<Decision>> decs;
			pool(slots, [&](Slot &s) { if (i >= det) return false; s.tag = i; s.spec.scn = sc[i % sc.size()]; s.spec.seed = run_seed(seed, i); s.spec.verbose = getenv("GSIM_DUMP") != nullptr;
				if (round == 2) { s.spec.replay = true; s.dec = decs[i]; }
				++i; return true; },
				[&](Slot &s) {
					++total; auto k = (u64)s.tag;
					if (getenv("GSIM_DUMP")) std::ofstream(std::string(getenv("GSIM_DUMP")) + "/" + std::to_string(k) + "." + std::to_string(round)) << std::string(s.r->trace, s.r->trace_len); std::pair<u64, u64> v{s.r->hash, (u64)s.r->status};
					if (round == 0) { first[k] = v; decs[k].assign(s.r->dec, s.r->dec + s.r->ndec); }
					else if (first[k] != v) { ++bad; std::cout << "DIVERGED round " << round << " run " << k << " scenario " << s.spec.scn->name << " seed " << s.spec.seed << " " << std::hex << first[k].first << "/" << first[k].second << " vs " << v.first << std::dec << "/" << v.second << " " << s.r->cls << "\n"; }
					return true; });
			drop_slots(slots);
		}
		std::cout << "determinism: " << total << " runs, " << bad << " diverged\n";
		return bad ? 2 : 0;
	}

	auto kn = load_known(known, prop);
	std::string kdir = known.substr(0, known.rfind('/') + 1);
	// ---- known findings are replayed first -------------------------------------------
	for (auto &k : kn) if (k.replay != "-") {
		Replay rp; if (!read_replay(kdir + k.replay, rp)) continue;
		auto scn = find_scn(rp.prop, rp.scn); if (!scn) continue;
		auto slots = make_slots(1);
		run_one(slots[0], scn, rp.seed, true, rp.dec, false, nullptr);
		auto r = slots[0].r;
		if (r->status == ST_VIOLATION && std::regex_search(r->cls, k.cls) && std::regex_search(r->msg, k.msg)) k.seen = true;
		drop_slots(slots);
	}

	// ---- search -------------------------------------------------------------------------
	double s0 = wall(), send = s0 + secs;
	u64 i = 0, done = 0, disc = 0, steps = 0, sw = 0, mem = 0; double simt = 0; u64 nontriv = 0;
	std::set<u64> dist, distall; std::map<std::string, u64> faults, probes, per_scn; std::vector<std::string> samples;
	std::map<std::string, u64> discards;
	struct Found { const Scenario *scn; u64 seed, idx; std::string cls, msg; u64 hash; std::vector<Decision> dec; };
	std::vector<Found> found; u64 errors = 0; std::string errmsg;
	{
		auto slots = make_slots(g_jobs);
		pool(slots, [&](Slot &s) {
			if (!found.empty() || (runs ? i >= runs : wall() > send)) return false;
			s.tag = i; s.spec.scn = sc[i % sc.size()]; s.spec.seed = run_seed(seed, i); ++i; return true;
		}, [&](Slot &s) {
			auto r = s.r; ++done; per_scn[s.spec.scn->name]++;
			steps += r->steps; sw += r->switches; mem += r->memacc; simt += r->simtime / 1e9;
			for (u64 k = 0; k < r->nfaults_c; ++k) faults[r->faults[k].name] += r->faults[k].n;
			for (u64 k = 0; k < r->nprobes_c; ++k) probes[r->probes[k].name] += r->probes[k].n;
			if (r->status == ST_DISCARD) { ++disc; discards[r->msg]++; return true; }
			u64 h = r->shash ^ site_hash(s.spec.scn->name) ^ (r->hash * 31);
			distall.insert(h);
			if (r->ndec > 0 && r->switches >= 2) { if (dist.insert(h).second) ++nontriv; }
			else if (r->nfaults_c) { if (dist.insert(h).second) ++nontriv; }
			if (samples.size() < 6 && (done % 7 == 1)) {
				std::ostringstream o; o << s.spec.scn->name << " seed=" << s.spec.seed << " threads=" << r->threads << " steps=" << r->steps << " switches=" << r->switches << " decisions=" << r->ndec << " simtime=" << r->simtime / 1e9 << "s";
				for (u64 k = 0; k < r->nfaults_c; ++k) o << " " << r->faults[k].name << "x" << r->faults[k].n;
				if (r->sample[0]) o << " | " << r->sample;
				samples.push_back(o.str());
			}
			if (r->status == ST_VIOLATION) {
				auto k = match_known(kn, s.spec.scn->name, r->cls, r->msg);
				if (k) { k->seen = true; k->hits++; return true; }
				if (r->dec_overflow) { errors++; errmsg = std::string("decision log overflow, seed ") + std::to_string(s.spec.seed) + " class=" + r->cls + " " + std::string(r->msg).substr(0, 300); return true; }
				found.push_back({s.spec.scn, s.spec.seed, (u64)s.tag, r->cls, r->msg, r->hash, std::vector<Decision>(r->dec, r->dec + r->ndec)});
			} else if (r->status == ST_ERROR) { errors++; errmsg = r->msg; }
			return true;
		});
		drop_slots(slots);
	}
	double swall = wall() - s0;
	std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.idx < b.idx; });

	// ---- gate and minimise -----------------------------------------------------------------
	int rc = 0; std::string vline; u64 ungated = 0;
	for (auto &f : found) {
		auto slots = make_slots(1); bool ok = true;
		for (int k = 0; k < 2 && ok; ++k) { run_one(slots[0], f.scn, f.seed, false, {}, false, nullptr); ok = slots[0].r->status == ST_VIOLATION && f.cls == slots[0].r->cls && (f.hash == slots[0].r->hash || f.cls == "no-progress/wall"); }
		if (!ok) { ++ungated; std::cerr << "not reproducible: " << f.scn->name << " seed " << f.seed << " " << f.cls << ": " << f.msg << " / again: " << slots[0].r->cls << "\n"; drop_slots(slots); continue; }
		u64 tests = 0;
		std::vector<Decision> d = f.dec;
		run_one(slots[0], f.scn, f.seed, true, d, false, nullptr);
		bool rep = slots[0].r->status == ST_VIOLATION && f.cls == slots[0].r->cls;
		if (!rep) { ++ungated; std::cerr << "recorded decisions do not replay: " << f.scn->name << " seed " << f.seed << " " << f.cls << "\n"; drop_slots(slots); continue; }
		if (f.cls != "no-progress/wall") d = minimise(f.scn, f.seed, d, f.cls.c_str(), mintime, tests);
		run_one(slots[0], f.scn, f.seed, true, d, true, nullptr);
		::mkdir(rdir.c_str(), 0755);
		std::string file = rdir + "/" + prop + "-" + f.scn->name + "-" + std::to_string(f.seed) + ".replay";
		// the minimised run's own decision log is what is written (drops ineffective entries)
		write_replay(file, f.scn, f.seed, slots[0].r, d, f.dec.size());
		std::string minmsg = slots[0].r->msg;
		drop_slots(slots);
		// fresh process
		pid_t p = fork();
		if (p == 0) { int fd = ::open("/dev/null", O_WRONLY); dup2(fd, 1); unsetenv("GSIM_NOREEXEC"); execl("/proc/self/exe", argv[0], "--replay", file.c_str(), "--quiet", (char *)0); _exit(9); }
		int wst = 0; while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {}
		if (!(WIFEXITED(wst) && WEXITSTATUS(wst) == 1)) { ++ungated; std::cerr << "fresh-process replay does not reproduce: " << file << "\n"; continue; }
		std::cout << "violation: scenario=" << f.scn->name << " seed=" << f.seed << " class=" << f.cls << "\n  " << f.msg << "\n  minimised to " << d.size() << " of " << f.dec.size() << " decisions (" << tests << " replays): " << minmsg << "\n";
		vline = "VIOLATION property=" + prop + " replay=" + file;
		rc = 1;
		break;
	}
	if (rc == 0 && (ungated || errors)) { std::cerr << "error: " << ungated << " irreproducible, " << errors << " run errors " << errmsg << "\n"; rc = 2; }
	for (auto &k : kn) if (k.seen) std::cout << "KNOWN-FINDING: property=" << prop << " " << k.what << "\n";

	// ---- evidence ---------------------------------------------------------------------------
	if (!evidence.empty()) {
		std::ofstream e(evidence);
		auto mapj = [&](const std::map<std::string, u64> &m) { std::string s = "{"; for (auto &p : m) { if (s.size() > 1) s += ", "; s += "\"" + json_esc(p.first) + "\": " + std::to_string(p.second); } return s + "}"; };
		e << "{\n  \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n  \"coverage\": {\n";
		e << "    \"evaluations\": " << done << ", \"distinct_nontrivial\": " << nontriv << ",\n";
		e << "    \"rule\": \"one evaluation = one simulated execution of a scenario, decided by one seed (workload, schedule, faults); non-trivial = at least two context switches and one decision differing from the default schedule, or an injected fault; distinct = distinct hash of the context-switch sequence and of all decisions and observations\",\n";
		e << "    \"samples\": ["; for (size_t k = 0; k < samples.size(); ++k) e << (k ? ", " : "") << "\"" << json_esc(samples[k]) << "\""; e << "],\n";
		e << "    \"runs_per_hour\": " << (u64)(done / std::max(0.001, swall) * 3600) << ", \"seeds_per_hour\": " << (u64)(done / std::max(0.001, swall) * 3600) << ", \"search_wall_s\": " << swall << ",\n";
		e << "    \"simulated_seconds\": " << simt << ", \"scheduling_points\": " << steps << ", \"context_switches\": " << sw << ", \"instrumented_memory_accesses\": " << mem << ",\n";
		e << "    \"distinct_schedules\": " << distall.size() << ", \"runs_per_scenario\": " << mapj(per_scn) << ",\n";
		e << "    \"faults_injected\": " << mapj(faults) << ",\n    \"probes\": " << mapj(probes) << ",\n    \"discarded_runs\": " << disc << ", \"discard_reasons\": " << mapj(discards) << ",\n";
		{ std::map<std::string, u64> kf; for (auto &k : kn) kf[k.what] = k.hits; e << "    \"known_finding_hits_in_search\": " << mapj(kf) << ",\n"; }
		e << "    \"components_real\": \"" << json_esc(g_components_real) << "\", \"components_stubbed\": \"" << json_esc(g_components_stub) << "\",\n";
		e << "    \"parallel_processes\": " << g_jobs << "\n  },\n";
		e << "  \"assumptions\": [\"seeded sampling of schedules and faults, not exhaustive\", \"sequentially consistent memory: only one thread runs at a time\"],\n";
		e << "  \"violations\": " << (rc == 1 ? 1 : 0) << ",\n  \"wall_s\": " << (epoch() - start) << "\n}\n";
	}
	std::cout << prop << ": " << done << " runs (" << disc << " discarded), " << nontriv << " distinct non-trivial, " << simt << " simulated s, " << swall << " s wall\n";
	if (rc == 1) std::cout << vline << std::endl;
	return rc;
}
} // namespace sim

int main(int argc, char **argv) { return sim::driver_main(argc, argv); }
