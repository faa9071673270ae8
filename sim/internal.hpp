// Internals shared by the simulator's translation units.
#pragma once
#include "sim.hpp"
#include <pthread.h>
#include <time.h>
#include <cstring>
#include <atomic>

namespace sim {

struct Decision { u32 site; u32 tid; u64 idx; u64 val; };

constexpr int MAX_COUNTERS = 96;
constexpr u32 MAX_DECISIONS = 1u << 17;
struct Counter { char name[48]; u64 n; };

enum Status : int { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DISCARD = 3, ST_CRASH = 4, ST_ERROR = 5, ST_WALL = 6, ST_PHASE = 7 };
struct Site { u32 h; char name[48]; };

struct Result {                 // lives in memory shared with the driver
	volatile int status;
	char cls[512];
	char msg[8192];
	char sample[1024];
	u64 hash, shash, steps, switches, memacc, simtime, threads;
	u64 nfaults_c; Counter faults[MAX_COUNTERS];
	u64 nprobes_c; Counter probes[MAX_COUNTERS];
	u32 ndec; u32 dec_overflow;
	u32 nsites; Site sites[MAX_COUNTERS];
	char persist[65536];
	u32 trace_len;
	Decision dec[MAX_DECISIONS];
	char trace[1 << 20];
};

struct RunSpec {
	u64 seed = 0;
	const Scenario *scn = nullptr;
	bool replay = false;
	const std::vector<Decision> *dec = nullptr;
	bool verbose = false;
	u32 phase = 0;
	const char *scratch = nullptr;
};

extern bool g_active;           // simulation running in this process
extern int g_in;                // >0: inside the runtime or a NoPreempt section

enum Kind : u8 { K_NONE, K_MUTEX, K_COND, K_JOIN, K_SLEEP, K_FUTEX, K_ONCE, K_RWLOCK, K_NET, K_EPOLL, K_STALL };

struct Thr {
	int tid = 0;
	pthread_t real{};
	std::atomic<int> baton{0};
	enum St : u8 { RUN, BLOCKED, DONE } st = RUN;
	Kind kind = K_NONE;
	const void *obj = nullptr;
	i64 deadline = -1;          // in the time of clk
	bool rt_clock = false;      // deadline is in CLOCK_REALTIME
	bool timed_out = false;
	u64 pts = 0, mem = 0, next_mem = ~0ull;
	u64 consec = 0, mem_since_sync = 0;
	int held = 0;
	u64 wait_seq = 0; decltype(wait_seq) stall0 = 0;
	int prio = 0;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr, *ret = nullptr;
	int stack = -1;
	bool joined = false, detached = false, real_joined = false;
	char label[32] = {0};
	char op[160] = {0};
	std::vector<std::pair<u32, u64>> site_cnt;
};

extern Thr *cur;
extern Result *R;
extern const Scenario *g_scn;

struct Guard { Guard() { ++g_in; } ~Guard() { --g_in; } };

void begin(const RunSpec &spec, Result *res);
[[noreturn]] void run_scenario(const RunSpec &spec, Result *res);

enum Pt { P_NORMAL, P_YIELD };
void schedpoint(Pt p = P_NORMAL);
// blocks the caller on (kind,obj) until woken or the deadline; true if woken
bool block(Kind k, const void *obj, i64 deadline = -1, bool rt = false);
int wake(Kind k, const void *obj, int n);   // FIFO, with seeded choice; n<0: all
int waiters(Kind k, const void *obj);
i64 real_now();                              // realtime clock of the simulation
void post_event(i64 when, std::function<void()> f);
void trace_raw(const char *line);
u32 site_hash(const char *s);
bool decide(u32 site, u64 &val, u64 dflt, const std::function<u64()> &rnd); // generic per-thread decision
u64 rng_sched(); u64 rng_fault(); u64 rng_draw(); u64 rng_env();
double unit(u64 r);
void mix(u64 v);
void count(Counter *tab, u64 &n, const char *name, u64 add);
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
double wall();
bool net_owns(int fd);
int net_close(int fd);
void fs_begin();
// deterministic heap and stacks (mem.cpp)
constexpr u64 ARENA_BASE = 0x200000000000ull, ARENA_SIZE = 16ull << 30;
extern u8 *g_shadow; extern bool g_heap_on;
void heap_begin(); void heap_on();
void bad_access(const void *p, bool wr);
int stack_take(void **addr, u64 *size); void stack_give(int k);
} // namespace sim
