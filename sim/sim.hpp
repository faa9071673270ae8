// Deterministic simulator: public interface for the harnesses.
//
// One process, real threads, exactly one of them running at a time; every
// pthread / futex / clock / sleep / random_device / socket / file-write call of
// the code under test ends up in sim.cpp, net.cpp or fs.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t;
using u64 = std::uint64_t; using i64 = std::int64_t;

constexpr i64 US = 1000, MS = 1000 * US, SEC = 1000 * MS;

// ---- configuration of one run (defaults set by begin(); scenarios may change) --
struct Config {
	double p_switch = 0.1;        // preemption probability at synchronisation points
	double p_pick = 0.5;          // probability of a random (not round-robin) successor when blocking
	double mem_mean = 0;          // mean distance of memory-level preemptions (0: none)
	double p_spurious = 0;        // spurious condition variable wake-up
	double p_early = 0;           // jump to the next timer although threads are runnable
	double p_stall = 0;           // stall the running thread for a while
	int pct_depth = -1;           // >=0: PCT style priorities with that many change points
	u64 pct_len = 2000;           // expected run length used to place change points
	u64 fair_after = 60000;       // steps after which faults stop and scheduling is fair
	u64 max_steps = 400000;       // step limit after which the run counts as not progressing
	u64 max_mem = 400000000;      // memory-callback limit (catches loops without calls)
	i64 max_time = 24 * 3600 * SEC; // virtual time limit
	i64 tick = 1 * US;            // virtual time per scheduling point
	bool faults_on = true;
	u32 ncpu = 4;
};
extern Config cfg;

// ---- decisions -----------------------------------------------------------------
u64 draw(const char *name, u64 lo, u64 hi);          // workload parameter, default lo
bool fault(const char *name, double p);              // injected fault, default false; counted
u64 fault_value(const char *name, u64 n);            // parameter of a fault, default 0, in [0,n)
bool swarm(const char *name);                        // per-run feature on/off (a draw 0/1)
void stop_faults();                                  // from here on: no faults, fair scheduling
bool faults_active();

// ---- observation ---------------------------------------------------------------
u64 seq();                                           // global event sequence number
i64 now();                                           // virtual monotonic time, ns
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // what this thread is doing
void probe(const char *name, u64 n = 1);             // "this rare condition was hit"
void expect_crash(bool);                             // (unused by most) treat crash as end
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();                          // end of run: property held
[[noreturn]] void discard(const char *why);          // run outside of the property's domain (counted)
void label(const char *name);                        // name of the calling thread
int tid();
void hash(u64 v);                                    // mix an observation into the run's hash
void sample(const std::string &s);                   // description of this run for the evidence file
bool verbose();
u64 seed();
void yield_point();                                  // explicit scheduling point
void sleep_ns(i64 ns);                               // virtual sleep
void set_clock_offset(i64 ns);                       // wall clock jump (CLOCK_REALTIME only)
i64 clock_offset();
void at(i64 delay_ns, std::function<void()> f);      // event in scheduler context (must not block)
bool wait_until(const std::function<bool()> &pred, i64 timeout_ns, i64 poll_ns = 1 * MS);
u64 steps();
i64 lost_time();                                     // total time the simulator took away (stalls, time jumps while threads were runnable)
i64 pending_stall();                                 // remaining time of the stalls in progress
void set_entropy(u64);                               // restarts the stream behind random_device
int live_threads();                                  // threads not finished
void clock_faults(double p);                         // enable random wall-clock steps

struct NoPreempt { NoPreempt(); ~NoPreempt(); };     // no scheduling inside
template <typename F> auto atomically(F &&f) -> decltype(f()) { NoPreempt np; return f(); }

// ---- multi-phase runs (process crash and restart) --------------------------------
u32 phase();                                         // 0, 1, ... : number of restarts so far
char *persist();                                     // 64 KiB of harness memory surviving restarts
[[noreturn]] void next_phase();                      // this process is dead; restart in the same directory

// ---- network -------------------------------------------------------------------
namespace net {
struct NetConfig {
	i64 min_delay = 50 * US, max_delay = 2 * MS;
	double p_slow = 0;        // segment is delayed by up to slow_max
	i64 slow_max = 2 * SEC;
	double p_reset = 0;       // connection reset at a segment boundary / inside a segment
	double p_fin = 0;         // peer's bytes truncated, then FIN
	double p_refuse = 0;      // connection refused
	double p_connect_slow = 0;
	double p_short = 0.2;     // short read/write
	double p_accept = 0;      // accept() fails
	double p_dns = 0;         // name resolution fails
	double p_corrupt = 0;     // (only for garbage-peer scenarios)
	std::size_t rcvbuf = 65536;
};
extern NetConfig cfg;
// raw peers for scripted clients/servers (blocking, usable from simulated threads)
int raw_connect(u16 port, i64 timeout);
std::size_t open_connections();
void reset_all(u16 port);            // RST every connection of that listener
void set_refuse(bool);               // refuse everything (server host down)
void set_partition(bool);            // nothing is delivered while on
u64 bytes_moved();
u64 broken();                        // connections interrupted by injected faults so far
u64 connects();                      // connection attempts so far
int open_vfds();
}

// ---- files ---------------------------------------------------------------------
namespace fs {
struct FsConfig {
	bool enabled = false;
	double p_open = 0, p_write = 0, p_short = 0, p_close = 0, p_unlink = 0, p_rename = 0;
	i64 disk_bytes = -1;      // remaining space, -1: unlimited
	i64 crash_at_op = -1;     // process dies at this file operation (0-based), within a write at crash_frac
	u64 crash_frac = 0;       // permille of the write's bytes that reach the disk
	std::function<void()> on_crash; // called instead of ending the run
};
extern FsConfig cfg;
extern u64 ops, failed;       // file operations seen / failed by injection
const char *scratch();        // private scratch directory of this run (cwd at start)
}

// ---- registration --------------------------------------------------------------
struct Scenario { const char *prop; const char *name; void (*fn)(); int weight; };
std::vector<Scenario> &scenarios();
struct Reg { Reg(const char *p, const char *n, void (*f)(), int w) { scenarios().push_back({p, n, f, w}); } };
#define SIM_SCENARIO(PROP, NAME, WEIGHT) \
	static void scn_##PROP##_##NAME(); \
	static ::sim::Reg reg_##PROP##_##NAME(#PROP, #NAME, &scn_##PROP##_##NAME, WEIGHT); \
	static void scn_##PROP##_##NAME()

// components for the evidence file
void declare_components(const char *real, const char *stub);
int driver_main(int argc, char **argv);

} // namespace sim
