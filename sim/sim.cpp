// Core of the simulator: scheduler, virtual time, decisions, pthread layer.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <malloc.h>
#include <algorithm>
#include <exception>
#include <map>
#include <queue>
#include <typeinfo>
#include <random>
#include <unordered_map>
#include <cxxabi.h>

namespace sim {

Config cfg;
bool g_active = false;
int g_in = 0;
Thr *cur = nullptr;
Result *R = nullptr;
const Scenario *g_scn = nullptr;

// ---------------------------------------------------------------- raw syscalls
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}
double wall() {
	struct timespec ts;
	raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- PRNG streams
struct Rng {
	u64 s[4];
	static u64 sm(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	void seed(u64 x) { for (auto &v : s) v = sm(x); }
	static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
	u64 operator()() {
		u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
};
static Rng r_sched, r_fault, r_draw, r_env;
u64 rng_sched() { return r_sched(); }
u64 rng_fault() { return r_fault(); }
u64 rng_draw() { return r_draw(); }
u64 rng_env() { return r_env(); }
void set_entropy(u64 e) { r_env.seed(e * 0x9e3779b97f4a7c15ull + 1); }
double unit(u64 r) { return (r >> 11) * (1.0 / 9007199254740992.0); }

// ---------------------------------------------------------------- run state
static u64 g_seed;
static bool g_replay, g_verbose;
static u32 g_phase, g_tidoff;
static std::vector<Thr *> *T;          // all threads
static i64 g_now;
static i64 g_rt_off;
static u64 g_seq, g_waitseq;
static u64 g_hash, g_shash, g_steps, g_switches, g_mem;
static bool g_faults = true, g_fair = false;
static double g_clock_fault_p = 0;
static pthread_key_t g_key;
static Thr *g_zombie;
static std::function<void()> *g_dummy;
struct Ev { i64 t; u64 s; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.s > b.s; } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> *g_ev;
static u64 g_evseq;
struct Key { u32 site, tid; u64 idx; bool operator==(const Key &o) const { return site == o.site && tid == o.tid && idx == o.idx; } };
struct KeyH { size_t operator()(const Key &k) const { return (k.idx * 0x9e3779b97f4a7c15ull) ^ (u64(k.site) << 20) ^ k.tid; } };
static std::unordered_map<Key, u64, KeyH> *g_rep;
static std::map<u32, std::vector<u64>> *g_rep_mem;  // tid -> sorted access indices
static u32 S_SCHED, S_MEM, S_TIME, S_STALL, S_SPUR, S_WAKE, S_CLOCK;
static std::vector<int> *g_pct_change;
static int g_lowprio = -1;

void mix(u64 v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }
void hash(u64 v) { mix(v * 0x9e3779b97f4a7c15ull + 1); }
u32 site_hash(const char *s) { u32 h = 2166136261u; for (; *s; ++s) { h ^= (u8)*s; h *= 16777619u; } return h; }

static Thr::St &st(Thr *t) { return t->st; }

void count(Counter *tab, u64 &n, const char *name, u64 add) {
	for (u64 i = 0; i < n; ++i) if (!strncmp(tab[i].name, name, sizeof(tab[i].name) - 1)) { tab[i].n += add; return; }
	if (n < MAX_COUNTERS) { strncpy(tab[n].name, name, sizeof(tab[n].name) - 1); tab[n].n = add; ++n; }
}

void trace_raw(const char *line) {
	if (!R) return;
	size_t l = strlen(line);
	if (R->trace_len + l + 2 >= sizeof(R->trace)) return;
	memcpy(R->trace + R->trace_len, line, l);
	R->trace_len += l;
	R->trace[R->trace_len++] = '\n';
	R->trace[R->trace_len] = 0;
}
static void vtrace(const char *pre, const char *fmt, va_list ap) {
	char b[1200];
	int n = snprintf(b, sizeof b, "[%10.6f] t%d%s%s %s", g_now / 1e9 - 1000000.0, cur ? cur->tid : -1, cur && cur->label[0] ? ":" : "", cur ? cur->label : "", pre);
	vsnprintf(b + n, sizeof b - n, fmt, ap);
	trace_raw(b);
}
void note(const char *fmt, ...) {
	if (!g_verbose) return;
	Guard g; va_list ap; va_start(ap, fmt); vtrace("", fmt, ap); va_end(ap);
}
static void itrace(const char *fmt, ...) {
	if (!g_verbose) return;
	va_list ap; va_start(ap, fmt); vtrace("  . ", fmt, ap); va_end(ap);
}
void op(const char *fmt, ...) {
	if (!cur) return;
	Guard g; va_list ap; va_start(ap, fmt); vsnprintf(cur->op, sizeof cur->op, fmt, ap); va_end(ap);
	if (g_verbose) { trace_raw(""); R->trace_len--; char b[300]; snprintf(b, sizeof b, "[%10.6f] t%d%s%s op: %s", g_now / 1e9 - 1000000.0, cur->tid, cur->label[0] ? ":" : "", cur->label, cur->op); trace_raw(b); }
}
void label(const char *n) { if (cur) { Guard g; strncpy(cur->label, n, sizeof cur->label - 1); } }
int tid() { return cur ? cur->tid : -1; }
u64 seq() { return ++g_seq; }
i64 now() { return g_now; }
i64 real_now() { return g_now + g_rt_off + 1700000000ll * SEC; }
u64 seed() { return g_seed; }
u64 steps() { return g_steps; }
bool verbose() { return g_verbose; }
void probe(const char *name, u64 n) { Guard g; count(R->probes, R->nprobes_c, name, n); }
void sample(const std::string &s) { Guard g; strncpy(R->sample, s.c_str(), sizeof(R->sample) - 1); }
void set_clock_offset(i64 ns) { g_rt_off = ns; }
i64 clock_offset() { return g_rt_off; }
void clock_faults(double p) { g_clock_fault_p = p; }
bool faults_active() { return g_faults; }
NoPreempt::NoPreempt() { ++g_in; }
NoPreempt::~NoPreempt() { --g_in; }

// ---------------------------------------------------------------- end of run
static void publish(int status) {
	R->hash = g_hash; R->shash = g_shash; R->steps += g_steps; R->switches += g_switches; R->memacc += g_mem;
	R->simtime += g_now - 1000000 * SEC; R->threads += T ? T->size() : 0;
	R->status = status;
}
[[noreturn]] static void die(int status) {
	publish(status);
	fflush(stdout);
	raw_syscall(SYS_exit_group, 0);
	for (;;) {}
}
void finish() { ++g_in; g_active = false; die(ST_OK); }
void discard(const char *why) { ++g_in; g_active = false; strncpy(R->msg, why, sizeof(R->msg) - 1); die(ST_DISCARD); }
u32 phase() { return g_phase; }
char *persist() { return R->persist; }
void next_phase() { ++g_in; g_active = false; die(ST_PHASE); }
static const char *kname(Kind k) {
	switch (k) { case K_MUTEX: return "mutex"; case K_COND: return "condition"; case K_JOIN: return "join"; case K_SLEEP: return "sleep"; case K_FUTEX: return "futex"; case K_ONCE: return "once"; case K_RWLOCK: return "rwlock"; case K_NET: return "socket"; case K_EPOLL: return "epoll"; case K_STALL: return "stall"; default: return "none"; }
}
static std::string thread_dump() {
	std::string s;
	char b[400];
	for (auto t : *T) {
		if (t->st == Thr::DONE) continue;
		snprintf(b, sizeof b, " t%d(%s) %s%s%s last-op[%s];", t->tid, t->label, t->st == Thr::RUN ? "runnable" : "blocked:", t->st == Thr::RUN ? "" : kname(t->kind), t == cur ? "*" : "", t->op);
		s += b;
		if (s.size() > 3000) { s += "..."; break; }
	}
	return s;
}
// development aid: GSIM_PAUSE=file keeps the process for a debugger
static void debug_pause() {
	const char *f = getenv("GSIM_PAUSE"); if (!f || !g_verbose) return;
	FILE *o = fopen(f, "w"); if (o) { fprintf(o, "%d\n", (int)raw_syscall(SYS_getpid)); fclose(o); }
	for (;;) raw_syscall(SYS_pause);
}
void violate(const char *cls, const char *fmt, ...) {
	++g_in; g_active = false;
	strncpy(R->cls, cls, sizeof(R->cls) - 1);
	va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
	if (g_verbose) { char b[700]; snprintf(b, sizeof b, "VIOLATION %s: %.500s", cls, R->msg); trace_raw(b); trace_raw(thread_dump().substr(0, 1500).c_str()); }
	debug_pause();
	die(ST_VIOLATION);
}
[[noreturn]] static void hang(const char *kind) {
	++g_in; g_active = false;
	// class: kind plus what the labelled threads are doing (stable under minimisation)
	std::string c = kind;
	strncpy(R->cls, c.c_str(), sizeof(R->cls) - 1);
	std::string d = thread_dump();
	snprintf(R->msg, sizeof R->msg, "%s at virtual time %.3f s after %llu steps:%s", kind, g_now / 1e9 - 1e6, (unsigned long long)g_steps, d.c_str());
	if (g_verbose) trace_raw(R->msg);
	debug_pause();
	die(ST_VIOLATION);
}

// ---------------------------------------------------------------- decisions
static void record(u32 site, u32 tid, u64 idx, u64 val) {
	if (R->ndec < MAX_DECISIONS) R->dec[R->ndec++] = Decision{site, tid + g_tidoff, idx, val}; else R->dec_overflow = 1;
}
static bool rep_find(u32 site, u32 tid, u64 idx, u64 &v) {
	auto it = g_rep->find(Key{site, tid + g_tidoff, idx});
	if (it == g_rep->end()) return false;
	v = it->second; return true;
}
static u64 site_idx(Thr *t, u32 site) {
	for (auto &p : t->site_cnt) if (p.first == site) return p.second++;
	t->site_cnt.push_back({site, 1});
	return 0;
}
// per (thread, site) decision; returns the value; default dflt
static u64 decide_v(u32 site, u64 dflt, u64 (*rnd)(void *), void *ctx) {
	u64 idx = site_idx(cur, site), v = dflt;
	if (g_replay) { rep_find(site, cur->tid, idx, v); }
	else v = rnd(ctx);
	if (v != dflt) record(site, cur->tid, idx, v);
	mix((u64(site) << 32) ^ v);
	return v;
}
static void reg_site(const char *name);
u64 draw(const char *name, u64 lo, u64 hi) {
	Guard g; reg_site(name);
	struct C { u64 lo, hi; } c{lo, hi};
	u64 v = decide_v(site_hash(name) | 1u, lo, [](void *p) -> u64 { C *c = (C *)p; return c->lo + r_draw() % (c->hi - c->lo + 1); }, &c);
	if (v < lo || v > hi) v = lo;
	itrace("draw %s = %llu", name, (unsigned long long)v);
	return v;
}
bool swarm(const char *name) { return draw(name, 0, 1) != 0; }
static double swarm_mult(const char *name) {
	u64 x = g_seed ^ (u64(site_hash(name)) << 17); u64 z = Rng::sm(x);
	switch (z % 5) { case 0: return 0; case 1: return 0.3; case 2: return 1; case 3: return 1; default: return 3; }
}
bool fault(const char *name, double p) {
	if (!g_active || !g_faults || p <= 0) return false;
	Guard g; reg_site(name);
	struct C { double p; } c{p >= 1 ? 1.0 : p * swarm_mult(name)};
	bool v = decide_v(site_hash(name) | 1u, 0, [](void *q) -> u64 { return unit(r_fault()) < ((C *)q)->p ? 1 : 0; }, &c) != 0;
	if (v) { count(R->faults, R->nfaults_c, name, 1); itrace("FAULT %s", name); }
	return v;
}
u64 fault_value(const char *name, u64 n) {
	if (n <= 1) return 0;
	Guard g; reg_site(name);
	struct C { u64 n; } c{n};
	u64 v = decide_v(site_hash(name) | 1u, 0, [](void *q) -> u64 { return r_fault() % ((C *)q)->n; }, &c);
	return v < n ? v : 0;
}
void stop_faults() {
	if (!g_faults && g_fair) return;
	g_faults = false; g_fair = true;
	itrace("faults stop, fair scheduling");
}

bool decide_spurious(void *q) {
	bool v = decide_v(S_SPUR, 0, [](void *x) -> u64 { double p = *(double *)x; return p > 0 && unit(r_fault()) < p ? 1 : 0; }, q) != 0;
	if (v) { count(R->faults, R->nfaults_c, "cond.spurious", 1); itrace("FAULT spurious wake-up"); }
	return v;
}
static void reg_site(const char *name) {
	u32 h = site_hash(name) | 1u;
	for (u32 i = 0; i < R->nsites; ++i) if (R->sites[i].h == h) return;
	if (R->nsites < MAX_COUNTERS) { R->sites[R->nsites].h = h; strncpy(R->sites[R->nsites].name, name, 47); R->nsites++; }
}
// ---------------------------------------------------------------- baton passing
static void futex_wait_real(std::atomic<int> *a, int v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake_real(std::atomic<int> *a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void baton_wait(Thr *me) {
	while (me->baton.load(std::memory_order_acquire) == 0) futex_wait_real(&me->baton, 0);
	me->baton.store(0, std::memory_order_relaxed);
}
static void baton_give(Thr *t) { t->baton.store(1, std::memory_order_release); futex_wake_real(&t->baton); }

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
static create_t real_create() { static create_t f = (create_t)dlsym(RTLD_NEXT, "pthread_create"); return f; }
static join_t real_join() { static join_t f = (join_t)dlsym(RTLD_NEXT, "pthread_join"); return f; }

static int start_thread(Thr *t, pthread_t *out, void *(*f)(void *), void *arg) {
	void *sa; u64 ss; int k = stack_take(&sa, &ss);
	if (k < 0) return EAGAIN;
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, sa, ss);
	int r = real_create()(out, &at, f, arg);
	pthread_attr_destroy(&at);
	if (r) stack_give(k); else if (t) t->stack = k;
	return r;
}
static void reap() {
	if (g_zombie) { Thr *z = g_zombie; g_zombie = nullptr; real_join()(z->real, nullptr); z->real_joined = true; stack_give(z->stack); z->stack = -1; }
}
static void switch_to(Thr *t) {
	Thr *me = cur;
	if (t == me) return;
	g_switches++;
	me->consec = 0;
	t->consec = 0;
	int in = g_in;                      // always 1 here, but keep it exact
	cur = t;
	g_shash = (g_shash ^ (u64(t->tid) + 0x9e37)) * 0x100000001b3ull; g_shash ^= (u64(me->kind) << 7) ^ (me->pts & 0xff);
	mix(0xABC0000 + t->tid);
	baton_give(t);
	baton_wait(me);
	g_in = in;
	reap();
}

// ---------------------------------------------------------------- time
static i64 mono_deadline(Thr *t) { return t->deadline < 0 ? -1 : (t->rt_clock ? t->deadline - g_rt_off - 1700000000ll * SEC : t->deadline); }
void post_event(i64 when, std::function<void()> f) { g_ev->push(Ev{when, g_evseq++, std::move(f)}); }
void at(i64 d, std::function<void()> f) { Guard g; post_event(g_now + d, std::move(f)); }
static i64 next_timer() {
	i64 n = -1;
	if (!g_ev->empty()) n = g_ev->top().t;
	for (auto t : *T) if (t->st == Thr::BLOCKED && t->deadline >= 0) { i64 d = mono_deadline(t); if (n < 0 || d < n) n = d; }
	return n;
}
static void fire_due() {
	while (!g_ev->empty() && g_ev->top().t <= g_now) { auto f = std::move(const_cast<Ev &>(g_ev->top()).f); g_ev->pop(); f(); }
	for (auto t : *T) if (t->st == Thr::BLOCKED && t->deadline >= 0 && mono_deadline(t) <= g_now) {
		t->st = Thr::RUN; t->timed_out = true; t->deadline = -1;
	}
}

// ---------------------------------------------------------------- choosing
static void check_limits() {
	if (g_steps > cfg.fair_after && !g_fair) stop_faults();
	if (g_steps > cfg.max_steps) hang("no-progress/steps");
	if (g_now - 1000000 * SEC > cfg.max_time) hang("no-progress/time");
}
// picks the next thread; me_ok: the caller may continue
static Thr *pick(bool me_ok, Pt p) {
	Thr *me = cur;
	fire_due();
	me_ok = me_ok || me->st == Thr::RUN;     // its own timer may just have fired
	static std::vector<Thr *> runnable;
	runnable.clear();
	for (auto t : *T) if (t->st == Thr::RUN && (t != me || me_ok)) runnable.push_back(t);
	while (runnable.empty()) {
		i64 n = next_timer();
		if (n < 0) hang("deadlock");
		if (n > g_now) g_now = n;
		if (g_now - 1000000 * SEC > cfg.max_time) hang("no-progress/time");
		fire_due();
		for (auto t : *T) if (t->st == Thr::RUN && (t != me || me_ok)) runnable.push_back(t);
		me_ok = me_ok || me->st == Thr::RUN;
		if (me->st == Thr::RUN && std::find(runnable.begin(), runnable.end(), me) == runnable.end()) runnable.push_back(me);
	}
	// default successor
	Thr *dflt = nullptr;
	bool forced = me->consec > 3000 || p == P_YIELD || !me_ok || me->st != Thr::RUN;
	if (!forced) dflt = me;
	else {
		for (auto t : runnable) if (t->tid > me->tid) { dflt = t; break; }
		if (!dflt) dflt = runnable[0];
	}
	if (runnable.size() == 1) return runnable[0];
	Thr *c = dflt;
	u64 idx = me->pts;
	if (g_replay) {
		u64 v;
		if (rep_find(S_SCHED, me->tid, idx, v)) for (auto t : runnable) if ((u64)t->tid == v) { c = t; break; }
	} else if (g_fair) {
		if (!forced && unit(r_sched()) < 0.05) c = runnable[r_sched() % runnable.size()];
		else if (forced && unit(r_sched()) < 0.3) c = runnable[r_sched() % runnable.size()];
	} else if (cfg.pct_depth >= 0) {
		if (!g_pct_change->empty() && std::find(g_pct_change->begin(), g_pct_change->end(), (int)g_steps) != g_pct_change->end()) me->prio = g_lowprio--;
		if (p == P_YIELD) me->prio = g_lowprio--;
		if (me->consec > 3000) me->prio = g_lowprio--;
		Thr *b = nullptr;
		for (auto t : runnable) if (!b || t->prio > b->prio) b = t;
		c = b;
	} else {
		double q = forced ? cfg.p_pick : cfg.p_switch;
		if (unit(r_sched()) < q) c = runnable[r_sched() % runnable.size()];
	}
	if (c != dflt) record(S_SCHED, me->tid, idx, c->tid);
	return c;
}

static i64 g_lost = 0; // time in which runnable threads were not run, or were stalled
i64 lost_time() { return g_lost; }
i64 pending_stall() { i64 r = 0; for (auto t : *T) if (t->st == Thr::BLOCKED && t->kind == K_STALL && t->deadline > g_now) r += t->deadline - g_now; return r; }
static bool early_jump() {
	u64 v = 0;
	if (g_replay) { if (!rep_find(S_TIME, cur->tid, cur->pts, v)) return false; }
	else { if (g_fair || cfg.p_early <= 0 || unit(r_sched()) >= cfg.p_early) return false; }
	i64 n = next_timer();
	if (n < 0 || n <= g_now || n > g_now + 10 * SEC) return false;   // nobody is kept from running for longer than that
	record(S_TIME, cur->tid, cur->pts, 1);
	count(R->faults, R->nfaults_c, "timer.early", 1);
	mix(77);
	g_lost += n - g_now;
	g_now = n;
	return true;
}
static void maybe_clock_fault() {
	u64 v = 0;
	if (g_replay) { if (!rep_find(S_CLOCK, cur->tid, cur->pts, v)) return; }
	else {
		if (!g_faults || g_clock_fault_p <= 0 || unit(r_fault()) >= g_clock_fault_p) return;
		v = 1 + r_fault() % 8;
	}
	static const i64 js[] = {0, -50 * MS, 50 * MS, -2 * SEC, 2 * SEC, -120 * SEC, 120 * SEC, -3600 * SEC, 3600 * SEC};
	record(S_CLOCK, cur->tid, cur->pts, v);
	g_rt_off += js[v % 9];
	count(R->faults, R->nfaults_c, js[v % 9] < 0 ? "clock.step_back" : "clock.step_forward", 1);
	itrace("FAULT wall clock steps by %lld ms", (long long)(js[v % 9] / MS));
}
static i64 stall_time() {
	static const i64 ds[] = {0, 1 * MS, 5 * MS, 20 * MS, 100 * MS, 400 * MS, 1500 * MS, 10 * SEC};
	u64 v = 0;
	if (g_replay) { if (!rep_find(S_STALL, cur->tid, cur->pts, v)) return 0; }
	else {
		if (!g_faults || g_fair || cfg.p_stall <= 0 || unit(r_fault()) >= cfg.p_stall) return 0;
		v = 1 + r_fault() % 7;
	}
	record(S_STALL, cur->tid, cur->pts, v);
	count(R->faults, R->nfaults_c, "thread.stall", 1);
	g_lost += ds[v % 8];
	return ds[v % 8];
}

static void resched(bool me_ok, Pt p) { Thr *t = pick(me_ok, p); if (t != cur) switch_to(t); }

void schedpoint(Pt p) {
	if (!g_active || g_in != 1) return;     // callers hold exactly one Guard
	Thr *me = cur;
	g_steps++; me->pts++; me->consec++; me->mem_since_sync = 0;
	g_now += cfg.tick;
	check_limits();
	maybe_clock_fault();
	early_jump();
	// others that spin while a thread is stalled do not use up the budget of steps: the rest of the stall passes at once
	if ((g_steps & 0xffff) == 0) for (auto t : *T) if (t->st == Thr::BLOCKED && t->kind == K_STALL && g_steps - t->stall0 > 300000 && t->deadline > g_now) { g_lost += t->deadline - g_now; g_now = t->deadline; }
	i64 s = stall_time();
	if (s > 0) {
		me->stall0 = g_steps;
		itrace("FAULT stalled for %lld ms", (long long)(s / MS));
		me->st = Thr::BLOCKED; me->kind = K_STALL; me->obj = nullptr; me->deadline = g_now + s; me->rt_clock = false;
		resched(false, P_NORMAL);
		me->kind = K_NONE;
		return;
	}
	resched(true, p);
}
bool block(Kind k, const void *obj, i64 deadline, bool rt) {
	Thr *me = cur;
	g_steps++; me->pts++; me->mem_since_sync = 0;
	g_now += cfg.tick;
	me->st = Thr::BLOCKED; me->kind = k; me->obj = obj; me->deadline = deadline; me->rt_clock = rt; me->timed_out = false;
	me->wait_seq = ++g_waitseq;
	check_limits();
	early_jump();
	resched(false, P_NORMAL);
	me->kind = K_NONE; me->obj = nullptr; me->deadline = -1;
	return !me->timed_out;
}
static void make_ready(Thr *t) { t->st = Thr::RUN; t->deadline = -1; t->timed_out = false; }
int waiters(Kind k, const void *obj) { int n = 0; for (auto t : *T) if (t->st == Thr::BLOCKED && t->kind == k && t->obj == obj) n++; return n; }
int wake(Kind k, const void *obj, int n) {
	int done = 0;
	while (n != 0) {
		Thr *b = nullptr; std::vector<Thr *> c;
		for (auto t : *T) if (t->st == Thr::BLOCKED && t->kind == k && t->obj == obj) { c.push_back(t); if (!b || t->wait_seq < b->wait_seq) b = t; }
		if (!b) break;
		if (c.size() > 1 && n == 1 && (k == K_COND || k == K_FUTEX)) { // which waiter is woken is unspecified
			u64 idx = site_idx(cur, S_WAKE), v;
			if (g_replay) { if (rep_find(S_WAKE, cur->tid, idx, v)) for (auto t : c) if ((u64)t->tid == v) b = t; }
			else if (unit(r_sched()) < 0.5) { Thr *x = c[r_sched() % c.size()]; if (x != b) { record(S_WAKE, cur->tid, idx, x->tid); b = x; } }
		}
		make_ready(b); ++done; --n;
	}
	return done;
}

// ---------------------------------------------------------------- memory level preemption
static void arm_mem(Thr *t) {
	if (g_replay) {
		auto it = g_rep_mem->find(t->tid + g_tidoff);
		t->next_mem = ~0ull;
		if (it != g_rep_mem->end()) { auto j = std::upper_bound(it->second.begin(), it->second.end(), t->mem); if (j != it->second.end()) t->next_mem = *j; }
	} else if (cfg.mem_mean > 0 && !g_fair) {
		double u = unit(r_sched()); if (u <= 1e-12) u = 1e-12;
		t->next_mem = t->mem + 1 + (u64)(-__builtin_log(u) * cfg.mem_mean);
	} else t->next_mem = ~0ull;
}
static void __attribute__((noinline)) mem_slow(Thr *me) {
	Guard g;
	arm_mem(me);
	std::vector<Thr *> c;
	for (auto t : *T) if (t->st == Thr::RUN && t != me) c.push_back(t);
	if (c.empty()) return;
	Thr *x = nullptr;
	if (g_replay) { u64 v; if (rep_find(S_MEM, me->tid, me->mem, v)) for (auto t : c) if ((u64)t->tid == v) x = t; }
	else x = c[r_sched() % c.size()];
	if (!x) return;
	record(S_MEM, me->tid, me->mem, x->tid);
	switch_to(x);
}
static void __attribute__((noinline)) mem_long(Thr *me) { // very long stretch without a call: forced switch
	me->mem_since_sync = 0;
	if (g_mem > cfg.max_mem) { Guard g; hang("no-progress/loop"); }
	Guard g;
	schedpoint(P_YIELD);
}
inline void mem_point() {
	if (!g_active || g_in) return;
	Thr *me = cur;
	++g_mem;
	if (++me->mem >= me->next_mem) mem_slow(me);
	if (++me->mem_since_sync > 200000) mem_long(me);
}
void yield_point() { if (!g_active) return; Guard g; schedpoint(P_YIELD); }
void sleep_ns(i64 ns) { if (!g_active) return; Guard g; if (ns <= 0) schedpoint(P_YIELD); else block(K_SLEEP, nullptr, g_now + ns); }
bool wait_until(const std::function<bool()> &pred, i64 timeout, i64 poll) {
	i64 end = g_now + timeout;
	for (;;) {
		bool ok; { Guard g; ok = pred(); }
		if (ok) return true;
		if (g_now >= end) return false;
		sleep_ns(poll);
	}
}
int live_threads() { int n = 0; for (auto t : *T) if (t->st != Thr::DONE) n++; return n; }

// ---------------------------------------------------------------- threads
static void key_dtor(void *v) {
	long r = (long)v;
	if (r > 1) { pthread_setspecific(g_key, (void *)(r - 1)); return; }   // run in the last destructor round
	if (!g_active) return;
	++g_in;
	Thr *me = cur;
	me->st = Thr::DONE;
	mix(0xD00D + me->tid);
	wake(K_JOIN, me, -1);
	me->pts++;
	g_zombie = nullptr;
	Thr *n = pick(false, P_NORMAL);
	g_zombie = me;
	g_switches++;
	n->consec = 0;
	g_in = 1;
	cur = n;
	baton_give(n);
}
static void *trampoline(void *p) {
	Thr *me = (Thr *)p;
	baton_wait(me);
	g_in = 1;
	reap();
	pthread_setspecific(g_key, (void *)3);
	arm_mem(me);
	g_in = 0;
	me->ret = me->fn(me->arg);
	return me->ret;
}
// handles given out for simulated threads: never reused, the same in every execution
static const u64 HANDLE0 = 0x700000000000ull;
static pthread_t handle_of(Thr *t) { return (pthread_t)(HANDLE0 + ((u64)t->tid << 12)); }
static Thr *find_thread(pthread_t p) {
	u64 i = ((u64)p - HANDLE0) >> 12;
	return (u64)p >= HANDLE0 && i < T->size() && !(*T)[i]->joined ? (*T)[i] : nullptr;
}

// ---------------------------------------------------------------- begin
static void on_terminate() {
	++g_in; g_active = false;
	std::string what = "std::terminate";
	if (auto ep = std::current_exception()) {
		int stt = 0; auto ti = abi::__cxa_current_exception_type(); char *nm = ti ? abi::__cxa_demangle(ti->name(), 0, 0, &stt) : nullptr;
		what += std::string(" by uncaught ") + (nm ? nm : "?");
		try { std::rethrow_exception(ep); } catch (std::exception &e) { what += std::string(": ") + e.what(); } catch (...) {}
	}
	strncpy(R->cls, "crash/terminate", sizeof(R->cls) - 1);
	snprintf(R->msg, sizeof R->msg, "%.2500s in thread t%d(%s) op[%s];%.3000s", what.c_str(), cur ? cur->tid : -1, cur ? cur->label : "", cur ? cur->op : "", T ? thread_dump().c_str() : "");
	die(ST_VIOLATION);
}
static void on_signal(int s) {
	// no allocation beyond this point is safe; keep it simple
	g_active = false; ++g_in;
	snprintf(R->cls, sizeof R->cls, "crash/%s", s == SIGSEGV || s == SIGBUS ? "memory" : s == SIGFPE ? "fpe" : s == SIGILL ? "ill" : "abort");
	snprintf(R->msg, sizeof R->msg, "signal %d in thread t%d(%s) last-op[%s]", s, cur ? cur->tid : -1, cur ? cur->label : "", cur ? cur->op : "");
	publish(ST_VIOLATION);
	raw_syscall(SYS_exit_group, 0);
}
static void on_exit_hook() {
	if (!g_active) return;
	++g_in; g_active = false;
	strncpy(R->cls, "crash/exit", sizeof(R->cls) - 1);
	snprintf(R->msg, sizeof R->msg, "the process called exit() in thread t%d(%s) op[%s]", cur->tid, cur->label, cur->op);
	die(ST_VIOLATION);
}

void begin(const RunSpec &spec, Result *res) {
	R = res;
	g_seed = spec.seed; g_replay = spec.replay; g_verbose = spec.verbose; g_scn = spec.scn;
	u64 x = spec.seed * 0x9e3779b97f4a7c15ull + site_hash(spec.scn->name);
	r_sched.seed(Rng::sm(x)); r_fault.seed(Rng::sm(x)); r_draw.seed(Rng::sm(x)); 
	u64 y = 0x5eed0000; r_env.seed(y);
	T = new std::vector<Thr *>; T->reserve(256);
	g_ev = new std::priority_queue<Ev, std::vector<Ev>, EvCmp>;
	g_rep = new std::unordered_map<Key, u64, KeyH>;
	g_rep_mem = new std::map<u32, std::vector<u64>>;
	g_pct_change = new std::vector<int>;
	S_SCHED = site_hash("sched") & ~1u; S_MEM = (site_hash("mem") & ~1u); S_TIME = site_hash("time") & ~1u; S_STALL = site_hash("stall") & ~1u;
	S_SPUR = site_hash("spurious") | 1u; S_WAKE = site_hash("wake") | 1u; S_CLOCK = site_hash("clock") & ~1u;
	if (spec.replay && spec.dec) for (auto &d : *spec.dec) {
		(*g_rep)[Key{d.site, d.tid, d.idx}] = d.val;
		if (d.site == S_MEM) (*g_rep_mem)[d.tid].push_back(d.idx);
	}
	for (auto &p : *g_rep_mem) std::sort(p.second.begin(), p.second.end());
	g_now = 1000000 * SEC; g_rt_off = 0; g_seq = 0; g_hash = 0xcbf29ce484222325ull; g_shash = g_hash;
	g_steps = g_switches = g_mem = 0;
	g_phase = spec.phase; g_tidoff = g_phase * 65536;
	if (g_phase) { g_hash ^= R->hash; g_shash ^= R->shash; }
	Thr *m = new Thr; m->tid = 0; m->real = pthread_self(); strcpy(m->label, "main"); T->push_back(m); cur = m;
	m->site_cnt.reserve(64);
	pthread_key_create(&g_key, key_dtor);
	// scheduling policy of this run
	if (!spec.replay) {
		auto &r = r_sched;
		static const double sw[] = {0.0, 0.02, 0.1, 0.3, 0.6};
		cfg.p_switch = sw[r() % 5];
		static const double pk[] = {0.0, 0.3, 1.0};
		cfg.p_pick = pk[r() % 3];
		static const double mm[] = {0, 0, 60, 300, 1500, 8000};
		cfg.mem_mean = mm[r() % 6];
		static const double sp[] = {0, 0, 0.02, 0.1};
		cfg.p_spurious = sp[r() % 4];
		static const double ea[] = {0, 0, 0.002, 0.02};
		cfg.p_early = ea[r() % 4];
		static const double sl[] = {0, 0, 0, 0.001, 0.005};
		cfg.p_stall = sl[r() % 5];
		if (r() % 4 == 0) {
			cfg.pct_depth = r() % 5;
			u64 len = 100 << (r() % 6);
			for (int i = 0; i < cfg.pct_depth; ++i) g_pct_change->push_back(r() % len);
		}
		m->prio = 1000 + r() % 1000;
	}
	arm_mem(m);
	std::set_terminate(on_terminate);
	static char altstack[65536];
	stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	signal(SIGPIPE, SIG_IGN);
	atexit(on_exit_hook);
	fs_begin();
}
[[noreturn]] void run_scenario(const RunSpec &spec, Result *res) {
	// everything runs on a stack and a heap at fixed addresses
	static const RunSpec *sp; static Result *rs; sp = &spec; rs = res;
	heap_begin();
	pthread_t th;
	auto body = [](void *) -> void * {
		begin(*sp, rs);
		heap_on();
		g_in = 0;
		g_active = true;
		sp->scn->fn();
		finish();
		return nullptr;
	};
	if (start_thread(nullptr, &th, body, nullptr)) { perror("thread"); _exit(3); }
	for (;;) raw_syscall(SYS_pause);
}

std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
} // namespace sim

// =================================================================================
// Interposed symbols
// =================================================================================
using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default")))
#pragma clang diagnostic ignored "-Wunknown-attributes"

static i64 ts2ns(const struct timespec *t) { return (i64)t->tv_sec * SEC + t->tv_nsec; }

// ---- mutex (state in the native layout: __lock, __owner, __count) ---------------
static inline int mtype(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static int mutex_try(pthread_mutex_t *m, int self) {
	auto &d = m->__data;
	if (d.__lock == 0) { d.__lock = 1; d.__owner = self; d.__count = 1; return 0; }
	if (mtype(m) == PTHREAD_MUTEX_RECURSIVE && d.__owner == self) { d.__count++; return 0; }
	return EBUSY;
}
static int mutex_lock_impl(pthread_mutex_t *m, i64 deadline, bool rt, bool point) {
	if (!g_active || g_in) {
		int r = mutex_try(m, cur ? cur->tid + 1 : 1);
		if (r && g_active) { violate("sim/lock-in-nopreempt", "mutex busy inside a non-preemptible section"); }
		return r ? EDEADLK : 0;
	}
	Guard g;
	if (point) schedpoint();
	int self = cur->tid + 1;
	for (;;) {
		if (mutex_try(m, self) == 0) { cur->held++; mix(0x10C); return 0; }
		if (mtype(m) == PTHREAD_MUTEX_ERRORCHECK && m->__data.__owner == self) return EDEADLK;
		if (!block(K_MUTEX, m, deadline, rt)) return ETIMEDOUT;
	}
}
static int mutex_unlock_impl(pthread_mutex_t *m, bool point) {
	auto &d = m->__data;
	if (d.__count > 1) { d.__count--; return 0; }
	d.__lock = 0; d.__owner = 0; d.__count = 0;
	if (!g_active || g_in) return 0;
	Guard g;
	cur->held--;
	// all blocked lockers become runnable and compete (no hand-off, as in futex locks)
	if (waiters(K_MUTEX, m)) wake(K_MUTEX, m, -1);
	if (point) schedpoint();
	return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return mutex_lock_impl(m, -1, false, true); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
	if (!g_active || g_in) return mutex_try(m, cur ? cur->tid + 1 : 1);
	Guard g; schedpoint();
	int r = mutex_try(m, cur->tid + 1);
	if (!r) cur->held++;
	return r;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) noexcept { return mutex_lock_impl(m, ts2ns(t), true, true); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) noexcept { return mutex_lock_impl(m, ts2ns(t), c == CLOCK_REALTIME, true); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return mutex_unlock_impl(m, true); }

namespace sim { bool decide_spurious(void *); }
// ---- condition variables ----------------------------------------------------------
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline, bool rt) {
	if (!g_active) return 0;
	if (g_in) violate("sim/wait-in-nopreempt", "condition wait inside a non-preemptible section");
	bool to = false;
	{
		Guard g;
		schedpoint();
		u64 idx = 0;
		(void)idx;
		int cnt = m->__data.__count;
		auto &d = m->__data; d.__lock = 0; d.__owner = 0; d.__count = 0; cur->held--;
		if (waiters(K_MUTEX, m)) wake(K_MUTEX, m, -1);
		bool spur = false;
		{
			struct C { double p; } q{g_faults ? cfg.p_spurious : 0};
			spur = decide_spurious(&q);
		}
		if (spur) { cur->consec = 0; schedpoint(P_YIELD); }
		else to = !block(K_COND, c, deadline, rt);
		int self = cur->tid + 1;
		while (mutex_try(m, self) != 0) block(K_MUTEX, m);
		d.__count = cnt; cur->held++;
		mix(to ? 0xC1 : 0xC0);
	}
	return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_impl(c, m, -1, false); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait_impl(c, m, ts2ns(t), true); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return cond_wait_impl(c, m, ts2ns(t), k == CLOCK_REALTIME); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!g_active || g_in) return 0; Guard g; schedpoint(); wake(K_COND, c, 1); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!g_active || g_in) return 0; Guard g; schedpoint(); wake(K_COND, c, -1); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *c) noexcept {
	if (!g_active || g_in) return 0;
	Guard g;
	if (waiters(K_COND, c)) violate("crash/cond-destroyed-with-waiters", "condition variable destroyed while threads wait on it;%s", thread_dump().c_str());
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { (void)m; return 0; }

// ---- rwlock --------------------------------------------------------------------------
static int rw_try(pthread_rwlock_t *l, bool wr) {
	auto &d = l->__data;
	if (d.__cur_writer) return EBUSY;
	if (wr) { if (d.__readers) return EBUSY; d.__cur_writer = cur ? cur->tid + 1 : 1; return 0; }
	d.__readers++; return 0;
}
static int rw_lock(pthread_rwlock_t *l, bool wr) {
	if (!g_active || g_in) return rw_try(l, wr);
	Guard g; schedpoint();
	while (rw_try(l, wr)) block(K_RWLOCK, l);
	return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return rw_try(l, false); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return rw_try(l, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
	auto &d = l->__data;
	if (d.__cur_writer) d.__cur_writer = 0; else if (d.__readers) d.__readers--;
	if (!g_active || g_in) return 0;
	Guard g; wake(K_RWLOCK, l, -1); schedpoint(); return 0;
}

// ---- once ------------------------------------------------------------------------------
EXPORT int pthread_once(pthread_once_t *o, void (*f)(void)) {
	volatile int *c = (volatile int *)o;
	for (;;) {
		if (*c == 2) return 0;
		if (*c == 0) {
			*c = 1;
			try { f(); } catch (...) { *c = 0; if (g_active && !g_in) { Guard g; wake(K_ONCE, (void *)o, -1); } throw; }
			*c = 2;
			if (g_active && !g_in) { Guard g; wake(K_ONCE, (void *)o, -1); schedpoint(); }
			return 0;
		}
		if (!g_active || g_in) return 0;
		Guard g; block(K_ONCE, (void *)o);
	}
}

// ---- threads -----------------------------------------------------------------------------
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept {
	if (!g_active) return real_create()(out, a, f, arg);
	Guard g;
	if (T->size() > 3000) violate("no-progress/threads", "more than 3000 threads were created");
	if (fault("thread.create_fails", 0.0)) return EAGAIN;
	Thr *t = new Thr; t->tid = (int)T->size(); t->fn = f; t->arg = arg;
	t->site_cnt.reserve(32);
	if (!g_replay) t->prio = 1000 + r_sched() % 1000;
	int r = start_thread(t, &t->real, trampoline, t);
	if (r) return r;
	*out = handle_of(t);
	T->push_back(t);
	mix(0x7C + t->tid);
	schedpoint();
	return 0;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
	if (!g_active) return (u64)p >= HANDLE0 && (u64)p < HANDLE0 + (1ull << 30) ? 0 : real_join()(p, ret);
	Guard g; schedpoint();
	Thr *t = find_thread(p);
	if (!t) return ESRCH;
	if (t == cur) return EDEADLK;
	while (t->st != Thr::DONE) block(K_JOIN, t);
	t->joined = true;
	if (ret) *ret = t->ret;
	return 0;
}
EXPORT pthread_t pthread_self() noexcept {
	if (g_active && cur) return handle_of(cur);
	static pthread_t (*f)() = (pthread_t (*)())dlsym(RTLD_NEXT, "pthread_self");
	return f();
}
EXPORT int pthread_detach(pthread_t p) noexcept {
	if (!g_active) return 0;
	Guard g; Thr *t = find_thread(p); if (t) t->detached = t->joined = true; return 0;
}
EXPORT int sched_yield() noexcept { if (g_active && !g_in) { Guard g; schedpoint(P_YIELD); } return 0; }

// ---- clocks and sleeping -------------------------------------------------------------------
EXPORT int clock_gettime(clockid_t c, struct timespec *t) noexcept {
	i64 v;
	if (!g_active && !R) v = c == CLOCK_REALTIME ? 1700000000ll * SEC + 1000000 * SEC : 1000000 * SEC;
	else {
		if (g_active && !g_in) { Guard g; g_now += 100; }   // reading the clock takes time; no preemption
		v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? real_now() : g_now;
	}
	t->tv_sec = v / SEC; t->tv_nsec = v % SEC; return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *o) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) { (void)rem; if (g_active && !g_in) sleep_ns(ts2ns(t)); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *) {
	if (!g_active || g_in) return 0;
	Guard g;
	i64 n = ts2ns(t);
	if (flags & TIMER_ABSTIME) block(K_SLEEP, nullptr, n, c == CLOCK_REALTIME); else block(K_SLEEP, nullptr, g_now + n);
	return 0;
}
EXPORT int usleep(useconds_t u) { sleep_ns((i64)u * US); return 0; }
EXPORT unsigned int sleep(unsigned int s) { sleep_ns((i64)s * SEC); return 0; }
EXPORT int get_nprocs(void) noexcept { return (int)cfg.ncpu; }
EXPORT int get_nprocs_conf(void) noexcept { return (int)cfg.ncpu; }

// ---- futex (std::future, __cxa_guard, atomics) ----------------------------------------------
EXPORT long syscall(long n, ...) noexcept {
	va_list ap; va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (n == SYS_getrandom && (g_active || R)) { u8 *p = (u8 *)a; for (long i = 0; i < b; ++i) p[i] = (u8)r_env(); return b; }
	if (n != SYS_futex || !g_active || g_in) { long r = raw_syscall(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
	Guard g;
	int cmd = b & FUTEX_CMD_MASK;
	if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
		schedpoint();
		if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
		i64 dl = -1; bool rt = false;
		if (d) {
			i64 v = ts2ns((const struct timespec *)d);
			if (cmd == FUTEX_WAIT) dl = g_now + v; else { dl = v; rt = (b & FUTEX_CLOCK_REALTIME) != 0; }
		}
		if (!block(K_FUTEX, (void *)a, dl, rt)) { errno = ETIMEDOUT; return -1; }
		return 0;
	}
	if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) { schedpoint(); return wake(K_FUTEX, (void *)a, c > 1000 ? -1 : (int)c); }
	errno = ENOSYS; return -1;
}

// ---- randomness -------------------------------------------------------------------------------
EXPORT ssize_t getrandom(void *p, size_t n, unsigned) noexcept { u8 *q = (u8 *)p; for (size_t i = 0; i < n; ++i) q[i] = (u8)r_env(); return n; }
EXPORT int getentropy(void *p, size_t n) { getrandom(p, n, 0); return 0; }
EXPORT uint32_t arc4random() noexcept { return (uint32_t)r_env(); }
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_init_pretr1(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (result_type)(r_env() >> 32); }
random_device::result_type random_device::_M_getval_pretr1() { return (result_type)(r_env() >> 32); }
double random_device::_M_getentropy() const noexcept { return 32.0; }
}

static inline void touch(const void *p, bool wr) {
	u64 o = (u64)p - ARENA_BASE;
	if (o < ARENA_SIZE && g_shadow && g_shadow[o >> 4] == 2 && g_active && !g_in) bad_access(p, wr);
}
// ---- instrumentation callbacks (clang/gcc -fsanitize=thread without its runtime) --------------
#define CB extern "C" __attribute__((visibility("default"), used))
CB void __tsan_init() {}
CB void __tsan_func_entry(void *) {}
CB void __tsan_func_exit() {}
CB void __tsan_ignore_thread_begin() {}
CB void __tsan_ignore_thread_end() {}
#define RD(p) do { mem_point(); touch((const void *)(p), false); } while (0)
#define WR(p) do { mem_point(); touch((const void *)(p), true); } while (0)
#define RW(N) CB void __tsan_read##N(void *p) { RD(p); } CB void __tsan_write##N(void *p) { WR(p); } \
	CB void __tsan_unaligned_read##N(void *p) { RD(p); } CB void __tsan_unaligned_write##N(void *p) { WR(p); } \
	CB void __tsan_volatile_read##N(void *p) { RD(p); } CB void __tsan_volatile_write##N(void *p) { WR(p); } \
	CB void __tsan_read_write##N(void *p) { WR(p); } CB void __tsan_unaligned_read_write##N(void *p) { WR(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
CB void __tsan_read_range(void *p, unsigned long) { RD(p); }
CB void __tsan_write_range(void *p, unsigned long) { WR(p); }
CB void __tsan_vptr_update(void **p, void *) { WR(p); }
CB void __tsan_vptr_read(void **p) { RD(p); }
CB void *__tsan_memcpy(void *d, const void *s, size_t n) { mem_point(); return memcpy(d, s, n); }
CB void *__tsan_memmove(void *d, const void *s, size_t n) { mem_point(); return memmove(d, s, n); }
CB void *__tsan_memset(void *d, int c, size_t n) { mem_point(); return memset(d, c, n); }
#define AT(B, TYPE) \
	CB TYPE __tsan_atomic##B##_load(const volatile TYPE *a, int) { RD(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	CB void __tsan_atomic##B##_store(volatile TYPE *a, TYPE v, int) { WR(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); mem_point(); } \
	CB TYPE __tsan_atomic##B##_exchange(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_fetch_add(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_fetch_sub(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_fetch_and(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_fetch_or(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_fetch_xor(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_fetch_nand(volatile TYPE *a, TYPE v, int) { WR(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	CB int __tsan_atomic##B##_compare_exchange_strong(volatile TYPE *a, TYPE *c, TYPE v, int, int) { WR(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	CB int __tsan_atomic##B##_compare_exchange_weak(volatile TYPE *a, TYPE *c, TYPE v, int, int) { WR(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	CB TYPE __tsan_atomic##B##_compare_exchange_val(volatile TYPE *a, TYPE c, TYPE v, int, int) { WR(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
CB void __tsan_atomic_thread_fence(int) { mem_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
CB void __tsan_atomic_signal_fence(int) {}
