// C01: ordered dispatch, return collection and disconnect results for histories of top-level
// operations on Callback and RecursiveCallback (with plain and tracked ids).
#include "sx.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>
#include <vector>

namespace {

constexpr int maxSteps = SX_THOROUGH ? 6 : 4;

template<typename Id> int64_t idval(const Id& id) { return id.get(); }

// Callback lists what it holds; RecursiveCallback has no such function
template<typename CB, typename = void> struct Lists { static constexpr bool value = false; };
template<typename CB> struct Lists<CB, std::void_t<decltype(std::declval<const CB&>().subscriptions().size())>> { static constexpr bool value = true; };

// One history: every step is an arbitrary operation, arguments and target ids are symbolic.
template<typename CB, typename ID, bool Void> void history(int steps)
{
	struct Entry { int64_t id; int salt; bool alive; int runs; };
	std::vector<Entry> model;
	std::vector<int> seen;      // salts of the handlers run by the current call, in order
	std::vector<int> args, runs;
	std::vector<ID> ids;        // as returned by add
	int salt = 100;

	CB cb;
	auto handler = [&](int s) {
		return [&seen, &args, &runs, s, n = 0](int x) mutable { seen.push_back(s); args.push_back(x); runs.push_back(n++); if constexpr(!Void) return x ^ s; };
	};
	auto add = [&](int how) {
		int s = salt++;
		auto conn = how == 0 ? cb.add(std::function<typename CB::Signature>(handler(s))) : (cb += std::function<typename CB::Signature>(handler(s)));
		CHECK(conn.connected(), "a connection returned by add is connected");
		for(auto& e : model) CHECK(e.id != conn.id().get(), "ids are unique");
		model.push_back({conn.id().get(), s, true, 0});
		ids.push_back(conn.id());
	};
	auto call = [&](bool op) {
		seen.clear(); args.clear(); runs.clear();
		int a = sx::i32("arg");
		if constexpr(Void) { if(op) cb(a); else cb.call(a); }
		else {
			auto ret = op ? cb(a) : cb.call(a);
			CHECK(ret.size() == seen.size(), "one return value per executed handler");
			for(size_t i = 0; i < ret.size(); ++i) CHECK(ret[i] == (a ^ seen[i]), "return values are in handler order");
		}
		size_t k = 0;
		for(auto& e : model) {
			if(!e.alive) continue;
			CHECK(k < seen.size(), "every registered handler runs");
			CHECK(seen[k] == e.salt, "handlers run in registration order");
			CHECK(args[k] == a, "handlers get the caller's argument");
			CHECK(runs[k] == e.runs++, "a registered function object keeps its state from one call to the next");
			++k;
		}
		CHECK(k == seen.size(), "nothing else runs");
		if constexpr(Lists<CB>::value) CHECK(cb.subscriptions().size() == k, "subscriptions lists what is registered, as many as run");
	};

	for(int i = 0; i < steps; ++i) {
		unsigned op = sx::u8("op");
		sx::assume(op < 5);
		switch(op) {
		case 0: add(i & 1); break;
		case 1: { // disconnect an arbitrary id this callback has handed out
			if(model.empty()) break;
			unsigned k = sx::u8("which");
			sx::assume(k < model.size());
			ID target = ids[k];
			bool was = model[k].alive;
			bool r = cb.disconnect(target);
			CHECK(r == was, "disconnect tells whether the function was registered");
			model[k].alive = false;
			break;
		}
		case 2: cb.clear(); for(auto& e : model) e.alive = false; break;
		case 3: call(i & 1); break;
		case 4: {
			int s = salt++;
			auto conn = (cb = std::function<typename CB::Signature>(handler(s)));
			for(auto& e : model) e.alive = false;
			model.push_back({conn.id().get(), s, true, 0});
			ids.push_back(conn.id());
			break;
		}
		}
	}
	call(false);
}

// ids are looked up by value: an arbitrary 64-bit value within the handed-out range
template<typename CB> void symbolicId()
{
	CB cb;
	std::vector<int> seen;
	int n = SX_THOROUGH ? 6 : 4;
	std::vector<int64_t> ids;
	for(int i = 0; i < n; ++i) ids.push_back(cb.add(std::function<void(int)>([&seen, i](int) { seen.push_back(i); })).id().get());
	int64_t a = sx::i64("a"), b = sx::i64("b");
	auto given = [&](int64_t x) { bool r = false; for(auto i : ids) r = r | (i == x); return r; };
	sx::assume(given(a)); sx::assume(given(b));
	CHECK(cb.disconnect(nytl::ConnectionID{a}), "a registered id disconnects");
	CHECK(cb.disconnect(nytl::ConnectionID{b}) == (a != b), "a second disconnect of the same id fails");
	cb.call(1);
	size_t k = 0;
	for(int i = 0; i < n; ++i) {
		if(ids[i] == a || ids[i] == b) continue;
		CHECK(k < seen.size() && seen[k] == i, "the others still run in order");
		++k;
	}
	CHECK(k == seen.size(), "removed ones do not run");
}


// results of other types, and many functions: those left run once, in order
struct NoDefault { int v; std::unique_ptr<int> p; explicit NoDefault(int x) : v(x), p(new int(x + 1)) {} NoDefault(NoDefault&&) = default; };
template<template<class, class> class CBT, typename ID> void results() {
	int a = sx::i32("a"), b = sx::i32("b");
	sx::assume(a < 1000 && b < 1000);
	unsigned n = 1 + sx::choice(4, "n"), out = sx::choice(5, "removed");
	auto fill = [&](auto& cb, auto make) {
		for(unsigned i = 0; i < n; ++i) { auto c = cb.add([=](int x) { return make(int(i) + x); }); if(i == out) c.disconnect(); }
	};
	auto kth = [&](unsigned k) { return int(k >= out ? k + 1 : k); };
	unsigned left = n - (out < n);
	CBT<int8_t(int), ID> bytes; fill(bytes, [=](int x) { return int8_t(x); });
	auto rb = bytes(a);
	CHECK(rb.size() == left, "one result per function");
	for(unsigned k = 0; k < left; ++k) CHECK(rb[k] == int8_t(kth(k) + a), "results are in handler order");
	CBT<NoDefault(int), ID> objects; fill(objects, [=](int x) { return NoDefault(x); });
	auto ro = objects.call(b);
	CHECK(ro.size() == left, "one result per function");
	for(unsigned k = 0; k < left; ++k) CHECK(ro[k].v == kth(k) + b && *ro[k].p == kth(k) + b + 1, "results are in handler order");
	CBT<const int*(int), ID> pointers; fill(pointers, [&](int x) { return x == a ? &a : &b; });
	auto rp = pointers(a);
	CHECK(rp.size() == left, "one result per function");
	for(unsigned k = 0; k < left; ++k) CHECK(rp[k] == (kth(k) == 0 ? &a : &b), "results are in handler order");
}
template<template<class, class> class CBT, typename ID> void many() {
	constexpr int n = SX_THOROUGH ? 300 : 70;
	CBT<int(int), ID> cb;
	std::vector<typename CBT<int(int), ID>::Connection> conns;
	for(int i = 0; i < n; ++i) conns.push_back(cb.add([i](int x) { return i ^ x; }));
	int gone[2];
	constexpr int where[] = {0, 1, 7, 8, 31, 32, 63, 64, n - 2, n - 1};
	for(auto& g : gone) g = where[sx::choice(10, "removed")];
	int x = sx::i32("x");
	CHECK(cb.disconnect(conns[gone[0]].id()), "removing tells whether the function was registered");
	CHECK(cb.disconnect(conns[gone[1]].id()) == (gone[0] != gone[1]), "removing tells whether the function was registered");
	auto c = cb.add([](int y) { return ~y; });
	for(auto& o : conns) CHECK(o.id().get() != c.id().get(), "ids are unique");
	auto r = cb(x);
	size_t k = 0;
	for(int i = 0; i < n; ++i) {
		if(i == gone[0] || i == gone[1]) continue;
		CHECK(k < r.size() && r[k] == (i ^ x), "all functions left run in order");
		++k;
	}
	CHECK(k + 1 == r.size() && r[k] == ~x, "nothing else runs");
	cb.clear();
	CHECK(cb(x).empty(), "clearing removes all functions");
}
} // namespace

namespace {
template<template<class, class> class CBT, typename ID> void manyIds() { // many functions were registered and removed before
	CBT<int(int), ID> cb;
	auto first = cb.add([](int x) { return x + 1; });
	int64_t last = first.id().get();
	for(int i = 0; i < (SX_THOROUGH ? 70000 : 40000); ++i) {
		auto c = cb.add([](int x) { return x; });
		if(c.id().get() == last || c.id().get() == first.id().get() || !c.connected()) CHECK(false, "ids are unique");
		last = c.id().get();
		if(!cb.disconnect(c.id())) CHECK(false, "removing tells whether the function was registered");
	}
	auto c = cb.add([](int x) { return x + 2; });
	int x = sx::i32("x");
	sx::assume(x < 1000);
	auto r = cb(x);
	CHECK(r.size() == 2 && r[0] == x + 1 && r[1] == x + 2, "all functions left run in order");
	bool second = sx::flag("second");
	CHECK(cb.disconnect(second ? c.id() : first.id()), "removing tells whether the function was registered");
	r = cb(x);
	CHECK(r.size() == 1 && r[0] == x + (second ? 1 : 2), "all functions left run in order");
}
}
#if SX_LONG
ENTRY(ids_callback) { manyIds<nytl::Callback, nytl::ConnectionID>(); }
ENTRY(ids_recursive) { manyIds<nytl::RecursiveCallback, nytl::ConnectionID>(); }
ENTRY(ids_tracked) { manyIds<nytl::RecursiveCallback, nytl::TrackedConnectionID>(); }
#else
ENTRY(results_callback) { results<nytl::Callback, nytl::ConnectionID>(); }
ENTRY(results_recursive) { results<nytl::RecursiveCallback, nytl::ConnectionID>(); }
ENTRY(many_callback) { many<nytl::Callback, nytl::ConnectionID>(); }
ENTRY(many_recursive) { many<nytl::RecursiveCallback, nytl::ConnectionID>(); }
ENTRY(many_tracked) { many<nytl::RecursiveCallback, nytl::TrackedConnectionID>(); }
ENTRY(callback_int) { history<nytl::Callback<int(int)>, nytl::ConnectionID, false>(maxSteps); }
ENTRY(callback_void) { history<nytl::Callback<void(int)>, nytl::ConnectionID, true>(maxSteps); }
ENTRY(recursive_int) { history<nytl::RecursiveCallback<int(int)>, nytl::ConnectionID, false>(maxSteps); }
ENTRY(recursive_void) { history<nytl::RecursiveCallback<void(int)>, nytl::ConnectionID, true>(maxSteps); }
ENTRY(tracked_int) { history<nytl::TrackedCallback<int(int)>, nytl::TrackedConnectionID, false>(maxSteps); }
ENTRY(trackedrec_int) { history<nytl::TrackedRecursiveCallback<int(int)>, nytl::TrackedConnectionID, false>(maxSteps); }
ENTRY(symid_callback) { symbolicId<nytl::Callback<void(int)>>(); }
ENTRY(symid_recursive) { symbolicId<nytl::RecursiveCallback<void(int)>>(); }
#endif
