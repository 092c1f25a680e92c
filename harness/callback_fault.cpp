// C46 allocation failures in registration and calls of callbacks.
#include "sx.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>
#include <new>
#include <optional>

namespace {
constexpr int maxAlloc = SX_THOROUGH ? 8 : 6;
struct Log { int n = 0; int e[16]; void add(int k) { if(n < 16) e[n++] = k; } };
bool operator==(const Log& a, const Log& b) { if(a.n != b.n) return false; for(int i = 0; i < a.n; ++i) if(a.e[i] != b.e[i]) return false; return true; }
template<typename F> bool failing(F&& f) { // runs f with one allocation of it failing (or none)
	__sx_fail_alloc((int)sx::choice(maxAlloc, "failing allocation"));
	bool failed = false;
	try { f(); } catch(const std::bad_alloc&) { failed = true; }
	__sx_fail_alloc(-1);
	return failed;
}
template<typename R> R result(int k) { if constexpr(!std::is_void_v<R>) return R(k); }
template<typename R> void results(int) {}

// top level: every way to register, with n functions registered and one of them possibly removed before
template<template<class, class> class CBT, typename R, typename ID, bool Conn> void registering() {
	using CB = CBT<R(int), ID>;
	using C = typename CB::Connection;
	int before = __sx_live_heap();
	{
		std::optional<CB> cb; cb.emplace();
		Log seen, model, none;
		C conns[4];
		int n = (int)sx::choice(3, "registered before");
		for(int k = 0; k < n; ++k) { conns[k] = cb->add(std::function<R(int)>([&seen, k](int) { seen.add(k); return result<R>(k); })); model.add(k); }
		if(n && sx::flag("remove the first one")) { conns[0].disconnect(); for(int i = 1; i < model.n; ++i) model.e[i - 1] = model.e[i]; --model.n; }
		struct Pad { long a[4]; }; // function objects that do not fit into std::function itself
		std::function<R(int)> f = [&seen, pad = Pad{{1, 2, 3, before}}](int x) { seen.add(10 + x - x); return result<R>((int)pad.a[0] * 10); };
		std::function<R(C, int)> g = [&seen, pad = Pad{{1, 2, 3, before}}](C own, int) { CHECK(own.connected(), "functions receive a connected connection"); seen.add(10); return result<R>((int)pad.a[0] * 10); };
		unsigned op = sx::choice(Conn ? 4 : 3, "op");
		C c;
		bool failed = failing([&] {
			if(op == 0) c = cb->add(std::move(f));
			else if(op == 1) c = (*cb += std::move(f));
			else if(op == 2) { model = none; c = (*cb = std::move(f)); }
			if constexpr(Conn) if(op == 3) c = cb->add(std::move(g));
		});
		if(!failed) model.add(10);
		CHECK(c.connected() == !failed, "a connection is returned exactly for what was registered");
		cb->call(1);
		CHECK(seen == model, "a failing allocation leaves the registered functions as they were");
		for(int k = 0; k < n; ++k) if(op != 2) { // connections made before still work
			bool there = false;
			for(int i = 0; i < model.n; ++i) there = there || model.e[i] == k;
			CHECK(!there || conns[k].connected(), "connections made before stay connected");
		}
		if(n == 2 && op != 2) { conns[1].disconnect(); Log m; for(int i = 0; i < model.n; ++i) if(model.e[i] != 1) m.add(model.e[i]); model = m; }
		seen = none;
		auto d = cb->add(std::function<R(int)>([&seen](int) { seen.add(11); return result<R>(11); }));
		model.add(11);
		cb->call(2);
		CHECK(seen == model, "registering and removing work after a failed allocation");
		CHECK(d.connected() && (!c.connected() || c.id().get() != d.id().get()), "ids are never reused");
		if(!failed) { c.disconnect(); Log m; for(int i = 0; i < model.n; ++i) if(model.e[i] != 10) m.add(model.e[i]); model = m; }
		seen = none;
		cb->call(3);
		CHECK(seen == model, "registering and removing work after a failed allocation");
	}
	CHECK(__sx_live_heap() == before, "nothing is leaked");
}
// from inside a running function, which lets the exception pass or not
template<typename R, typename ID, bool Conn> void reentrant() {
	using CB = nytl::RecursiveCallback<R(int), ID>;
	using C = typename CB::Connection;
	int before = __sx_live_heap();
	{
		CB cb;
		Log seen, model;
		bool caught = sx::flag("caught inside"), drop = sx::flag("removes itself before"), armed = true, failed = false, nested = sx::flag("nested call after it");
		C own, c;
		std::function<R(int)> f = [&seen, a = 1L, b = 2L, d = 10L](int) { seen.add(int(a * d * b / 2)); return result<R>(10); };
		auto act = [&](int x) {
			seen.add(0);
			if(armed && x == 1) {
				armed = false;
				if(drop) own.disconnect();
				failed = failing([&] {
					if constexpr(Conn) c = cb.add(std::function<R(C, int)>([&seen](C, int) { seen.add(10); return result<R>(10); }));
					else c = cb.add(std::move(f));
				});
				if(nested) cb.call(2);
				if(failed && !caught) throw std::bad_alloc();
			}
			return result<R>(0);
		};
		own = cb.add(std::function<R(int)>(act));
		cb.add(std::function<R(int)>([&seen](int) { seen.add(1); return result<R>(1); }));
		bool thrown = false;
		try { cb.call(1); } catch(const std::bad_alloc&) { thrown = true; }
		CHECK(thrown == (failed && !caught), "the exception reaches the caller");
		model.add(0);
		if(nested) { if(!drop) model.add(0); model.add(1); if(!failed) model.add(10); }
		if(!thrown) model.add(1);
		CHECK(seen == model, "a failing allocation inside a function leaves the registered functions as they were");
		seen = model = {};
		if(!drop) model.add(0);
		model.add(1);
		if(!failed) model.add(10);
		cb.call(3);
		CHECK(seen == model, "a failing allocation inside a function leaves the registered functions as they were");
		if(c.connected()) c.disconnect();
		if(!failed) --model.n;
		seen = {};
		cb.call(4);
		CHECK(seen == model, "registering and removing work after a failed allocation");
	}
	CHECK(__sx_live_heap() == before, "nothing is leaked");
}
// a call that cannot store its results
template<template<class, class> class CBT> void calling(bool rec) {
	int before = __sx_live_heap();
	{
		CBT<int(int), nytl::TrackedConnectionID> cb;
		Log seen, model, none;
		typename CBT<int(int), nytl::TrackedConnectionID>::Connection conns[3];
		int n = 1 + (int)sx::choice(3, "registered");
		bool drop = rec && sx::flag("the first one removes itself");
		for(int k = 0; k < n; ++k) conns[k] = cb.add(std::function<int(int)>([&, k](int x) { seen.add(k); if(k == 0 && drop) conns[0].disconnect(); return k + x; }));
		int x = sx::i32("x"); sx::assume(x < 1000);
		std::vector<int> r;
		bool failed = failing([&] { r = cb.call(x); });
		for(int k = 0; k < n; ++k) model.add(k);
		CHECK(failed || (seen == model && (int)r.size() == n), "a call that succeeds runs all functions");
		for(int k = 0; k < seen.n; ++k) CHECK(seen.e[k] == k, "functions run in order");
		bool gone = drop && seen.n > 0;
		CHECK(conns[0].connected() == !gone, "only functions that were removed are no longer registered");
		seen = model = none;
		for(int k = gone ? 1 : 0; k < n; ++k) model.add(k);
		r = cb.call(x);
		CHECK((int)r.size() >= model.n - (drop && !gone) && seen == model, "later calls run the registered functions");
		for(size_t i = 0; i < r.size(); ++i) CHECK(r[i] == (int)i + (gone ? 1 : 0) + x, "results are returned in order");
	}
	CHECK(__sx_live_heap() == before, "nothing is leaked");
}
using Plain = nytl::ConnectionID; using Tracked = nytl::TrackedConnectionID;
}
ENTRY(add_callback) { registering<nytl::Callback, void, Plain, false>(); }
ENTRY(add_callback_tracked) { registering<nytl::Callback, void, Tracked, false>(); }
ENTRY(add_callback_int) { registering<nytl::Callback, int, Plain, false>(); }
ENTRY(add_recursive) { registering<nytl::RecursiveCallback, void, Plain, true>(); }
ENTRY(add_recursive_tracked) { registering<nytl::RecursiveCallback, void, Tracked, true>(); }
ENTRY(add_recursive_int) { registering<nytl::RecursiveCallback, int, Plain, true>(); }
ENTRY(reentrant) { reentrant<void, Plain, false>(); }
ENTRY(reentrant_conn) { reentrant<void, Plain, true>(); }
ENTRY(reentrant_tracked) { reentrant<void, Tracked, true>(); }
ENTRY(reentrant_int) { reentrant<int, Tracked, false>(); }
ENTRY(call_callback) { calling<nytl::Callback>(false); }
ENTRY(call_recursive) { calling<nytl::RecursiveCallback>(true); }
