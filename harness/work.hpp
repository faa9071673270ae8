// The work item used by all courtier harnesses, and the book that records what
// really happened to every item.
#pragma once
#include "util.hpp"
#include <boost/exception/all.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/export.hpp>
#include "common/GCommonHelperFunctions.hpp"
#include "common/GSerializableFunctionObjectT.hpp"
#include "courtier/GProcessingContainerT.hpp"

namespace w {
using sim::MS; using sim::SEC;
enum Kind { OK = 0, STD, GEM, BOOST, FOREIGN, FLAG, PRE, POST, NKINDS };
static const char *kindn[] = {"ok", "std-exception", "gemfony-exception", "boost-exception", "foreign-exception", "flagged", "pre-processor-throws", "post-processor-throws"};
inline std::string errtext(int id) { return "failure-of-item-" + std::to_string(id) + "!"; }
inline std::vector<int> payload(int id, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(id * 7919 + i * 31); return v; }
inline long result(int id, int exec) { return 1000L * id + exec + 1; }

struct Rec { int executions = 0, started = 0, finished = 0, running = 0, pre = 0, post = 0, delivered = 0, returned = 0; sim::u64 last_end = 0; bool wrong_payload = false; };
struct Book {
	std::map<int, Rec> r; int running = 0, maxrun = 0; sim::u64 last_start = 0; std::set<int> tids;
	std::function<void(int)> work; // additional work done inside process_
	std::function<void(int)> finished; // called at the end of an execution
	bool closed = false; // no execution may start any more
};
inline Book &book() { static Book *b = new Book; return *b; }

struct BoostErr : virtual std::exception, virtual boost::exception { std::string t; BoostErr(std::string s) : t(s) {} ~BoostErr() noexcept override = default; const char *what() const noexcept override { return t.c_str(); } };
struct Foreign { int id; };

class Item;
class Proc : public Gem::Common::GSerializableFunctionObjectT<Item> {
	friend class boost::serialization::access;
	template <typename A> void serialize(A &ar, const unsigned int) {
		ar & boost::serialization::make_nvp("base", boost::serialization::base_object<Gem::Common::GSerializableFunctionObjectT<Item>>(*this));
		ar & boost::serialization::make_nvp("is_post", is_post) & boost::serialization::make_nvp("fails", fails);
	}
public:
	bool is_post = false, fails = false;
	Proc() = default; Proc(bool p, bool f) : is_post(p), fails(f) {}
	Proc(const Proc &) = default;
protected:
	bool process_(Item &) override;
private:
	std::string name_() const override { return "Proc"; }
	Gem::Common::GSerializableFunctionObjectT<Item> *clone_() const override { return new Proc(*this); }
};

class Item : public Gem::Courtier::GProcessingContainerT<Item, long> {
	using Base = Gem::Courtier::GProcessingContainerT<Item, long>;
	friend class boost::serialization::access;
	template <typename A> void serialize(A &ar, const unsigned int) {
		ar & boost::serialization::make_nvp("base", boost::serialization::base_object<Base>(*this));
		ar & boost::serialization::make_nvp("id", id) & boost::serialization::make_nvp("kind", kind) & boost::serialization::make_nvp("work_ms", work_ms)
			& boost::serialization::make_nvp("data", data) & boost::serialization::make_nvp("blob", blob) & boost::serialization::make_nvp("nres", nres);
	}
public:
	int id = -1, kind = 0, work_ms = 0, nres = 1; std::vector<int> data; std::string blob;
	Item(int i, int k, int ms, int n = 3, int nr = 1) : Base(std::size_t(nr)), id(i), kind(k), work_ms(ms), nres(nr), data(payload(i, n)), blob("blob of item " + std::to_string(i) + std::string(n * 5, 'x')) {}
	Item(const Item &) = default;
	Item() : Base(std::size_t(1)) {}
	bool intact() const { return data == payload(id, data.size()) && blob == "blob of item " + std::to_string(id) + std::string(data.size() * 5, 'x'); }
	void add_processors(bool pre, bool post) {
		if (pre || kind == PRE) registerPreProcessor(std::make_shared<Proc>(false, kind == PRE));
		if (post || kind == POST) registerPostProcessor(std::make_shared<Proc>(true, kind == POST));
	}
	void flag(const std::string &s) { force_set_error(s); }
	void reg(std::size_t i, long v) { registerResult(i, v); }
private:
	void process_() override {
		int exec;
		{
			sim::NoPreempt np; Book &b = book(); Rec &r = b.r[id];
			if (b.closed) sim::violate("processed-after-shutdown", "item %d is processed after the shut-down has completed", id);
			exec = r.started++; r.running++;
			if (r.running > 1) sim::probe("same-item-processed-concurrently");
			b.running++; if (b.running > b.maxrun) b.maxrun = b.running; b.last_start = sim::seq(); b.tids.insert(sim::tid());
			if (!intact()) { r.wrong_payload = true; sim::violate("item-altered", "item %d reached the worker with an altered content", id); }
		}
		sim::op("processing item %d", id);
		if (book().work) book().work(id);
		if (work_ms > 0) sim::sleep_ns(work_ms * MS); else if (work_ms < 0) for (int i = work_ms; i < 0; ++i) sim::yield_point();
		for (int i = 0; i < nres; ++i) if (kind != STD || i == 0) registerResult(i, result(id, exec) + 100000000L * i);
		{ sim::NoPreempt np; Book &b = book(); Rec &r = b.r[id]; r.running--; b.running--; r.finished++; r.last_end = sim::seq(); if (b.finished) b.finished(id); }
		switch (kind) {
		case STD: throw std::runtime_error(errtext(id));
		case GEM: throw gemfony_exception(errtext(id));
		case BOOST: throw BoostErr(errtext(id));
		case FOREIGN: throw Foreign{id};
		case FLAG: force_set_error(errtext(id)); break;
		default: break;
		}
	}
};
inline bool Proc::process_(Item &p) {
	{ sim::NoPreempt np; Rec &r = book().r[p.id]; (is_post ? r.post : r.pre)++; }
	sim::yield_point();
	if (fails) throw std::runtime_error(errtext(p.id));
	return true;
}
// A result is valid if it stems from some execution of this very item.
inline std::map<int, Rec> recs() { sim::NoPreempt np; return book().r; }
inline Rec rec(int id) { sim::NoPreempt np; return book().r[id]; }
inline bool valid_result(const Item &it, long v) { Rec r = rec(it.id); long e = v - result(it.id, 0); return e >= 0 && e < r.started; }

// What must hold for an item once it has come back from one processing.
inline void check_returned(Item &it, const char *where) {
	if (!it.intact()) sim::violate("item-altered", "%s: item %d came back with an altered content", where, it.id);
	Rec r = rec(it.id);
	if (it.is_processed()) {
		if (it.kind != OK) sim::violate("failure-reported-as-success", "%s: item %d (%s) is reported as processed", where, it.id, kindn[it.kind]);
		if (!r.finished) sim::violate("unprocessed-reported-as-success", "%s: item %d is reported as processed but was never processed", where, it.id);
		for (int i = 0; i < it.nres; ++i) { long v = it.getStoredResult(i) - 100000000L * i; if (!valid_result(it, v)) sim::violate("wrong-result", "%s: item %d carries result %ld which is not the outcome of any of its %d executions", where, it.id, v, r.started); }
		if (!it.getStoredErrorDescriptions().empty()) sim::violate("error-on-success", "%s: processed item %d carries an error description", where, it.id);
	} else if (it.has_errors()) {
		if (it.kind == OK) sim::violate("success-reported-as-failure", "%s: item %d is reported as failed: %.300s", where, it.id, it.getStoredErrorDescriptions().c_str());
		if (it.getStoredErrorDescriptions().empty()) sim::violate("no-error-description", "%s: failed item %d (%s) carries no error description", where, it.id, kindn[it.kind]);
		if (it.kind != FOREIGN && it.getStoredErrorDescriptions().find(errtext(it.id)) == std::string::npos) sim::violate("wrong-error-description", "%s: failed item %d (%s) carries the description %.300s", where, it.id, kindn[it.kind], it.getStoredErrorDescriptions().c_str());
		if ((it.kind == FLAG) != it.error_flagged_by_user()) sim::violate("wrong-error-kind", "%s: item %d (%s): error flagged by user: %d", where, it.id, kindn[it.kind], it.error_flagged_by_user());
		bool threw = false; try { it.getStoredResult(); } catch (std::exception &) { threw = true; }
		if (!threw) sim::violate("result-of-failed-item", "%s: failed item %d hands out a result", where, it.id);
	} else sim::violate("returned-unprocessed", "%s: item %d came back with status %s", where, it.id, it.getProcessingStatusAsStr().c_str());
}
inline int draw_kind(const char *n, int ok_weight = 6) { int k = sim::draw(n, 0, ok_weight + NKINDS - 2); return k < ok_weight ? OK : k - ok_weight + 1; }
} // namespace w
BOOST_CLASS_EXPORT_KEY(w::Item)
BOOST_CLASS_EXPORT_KEY(w::Proc)
