// Helpers shared by the harnesses.
#pragma once
#include "sim/sim.hpp"
#include <string>
#include <vector>
#include <thread>
#include <memory>
#include <functional>
#include <set>
#include <map>
#include <sstream>

namespace h {

// A bool/int that scenarios share between threads; accesses are never preempted inside.
template <typename T> struct Cell {
	T v{};
	T get() { sim::NoPreempt np; return v; }
	void set(T x) { sim::NoPreempt np; v = x; }
	T add(T x) { sim::NoPreempt np; v += x; return v; }
};

struct Threads {
	std::vector<std::thread> t;
	template <typename F> void go(const std::string &label, F f) {
		t.emplace_back([label, f]() { sim::label(label.c_str()); f(); });
	}
	void join() { for (auto &x : t) if (x.joinable()) x.join(); t.clear(); }
};

// ---- linearizability (Wing & Gong with memoisation) -------------------------------
struct Op { int kind; long arg; long res; sim::u64 inv, ret; int thread; }; // ret==0: pending
template <typename Model> // Model: copyable, bool apply(const Op&), std::string key()
bool linearizable(const std::vector<Op> &ops, const Model &m0) {
	size_t n = ops.size();
	if (n > 62) return true;
	std::set<std::string> seen;
	std::function<bool(sim::u64, const Model &)> rec = [&](sim::u64 done, const Model &m) -> bool {
		bool all = true;
		for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].ret) { all = false; break; }
		if (all) return true;
		std::string key = std::to_string(done) + "|" + m.key();
		if (!seen.insert(key).second) return false;
		sim::u64 minret = ~0ull;
		for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].ret) minret = std::min(minret, ops[i].ret);
		for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].inv < minret) {
			Model c = m;
			if (c.apply(ops[i]) && rec(done | (1ull << i), c)) return true;
		}
		return false;
	};
	return rec(0, m0);
}
} // namespace h
