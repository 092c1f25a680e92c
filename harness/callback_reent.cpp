// C03/C04: re-entrant use of RecursiveCallback against a reference model; SX_THROW adds handlers
// that throw. Every handler invocation may perform an arbitrary operation on the callback.
#include "sx.hpp"
#include <nytl/recursiveCallback.hpp>
#include <nytl/callback.hpp>
#include <functional>
#include <memory>
#include <stdexcept>
#include <vector>

#ifndef SX_THROW
#define SX_THROW 0
#endif

namespace {

struct Boom { int code; };

template<typename CB, bool Void> struct World {
	using Conn = typename CB::Connection;
	struct Entry { int salt; bool alive; Conn conn; };
	struct Frame { std::vector<int> expect; size_t pos; };

	CB cb;
	std::vector<Entry> entries;
	std::vector<Frame> frames;
	int budget, salt = 1, maxDepth;
	bool quiet = false;
	int arg = 0;

	auto run(int s, int x) {
		CHECK(!frames.empty(), "a handler only runs inside a call");
		size_t depth = frames.size();
		{
			auto& f = frames.back();
			CHECK(f.pos < f.expect.size(), "only handlers registered when the call started run");
			CHECK(f.expect[f.pos] == s, "handlers registered when the call started run once, in order");
			CHECK(x == arg + (int)depth, "the handler gets the arguments of the innermost call");
			++f.pos;
		}
		if(!quiet && budget > 0) { --budget; act(); }
		CHECK(frames.size() == depth, "calls nest");
		if constexpr(!Void) return s * 16 + (int)depth;
	}
	void add() {
		int s = salt++;
		Conn c;
		if(s & 1) c = cb.add([this, s](int x) { return run(s, x); });
		else c = cb.add([this, s](Conn own, int x) {
			CHECK(own.id().get() == entryOf(s).conn.id().get(), "the handler gets its own connection");
			return run(s, x);
		});
		CHECK(c.connected(), "a new connection is connected");
		entries.push_back({s, true, c});
	}
	Entry& entryOf(int s) { return entries[s - 1]; }
	void call() {
		Frame f{{}, 0};
		for(auto& e : entries) if(e.alive) f.expect.push_back(e.salt);
		frames.push_back(f);
		int d = (int)frames.size();
		try {
			if constexpr(Void) cb.call(arg + d);
			else {
				auto ret = cb(arg + d);
				CHECK(ret.size() == f.expect.size(), "one return value per handler run");
				for(size_t i = 0; i < ret.size(); ++i) CHECK(ret[i] == f.expect[i] * 16 + d, "return values in handler order");
			}
		} catch(...) { frames.pop_back(); throw; }
		CHECK(frames.back().pos == f.expect.size(), "all handlers registered when the call started run, also ones removed during the call");
		frames.pop_back();
	}
	void act() {
		unsigned op = sx::u8("op");
		sx::assume(op < (SX_THROW ? 7 : 5));
		switch(op) {
		case 0: break;
		case 1: add(); break;
		case 2: {
			unsigned k = sx::u8("which");
			sx::assume(k < entries.size());
			auto& e = entries[k];
			bool was = e.alive;
			e.alive = false;
			auto id = e.conn.id();
			CHECK(cb.disconnect(id) == was, "disconnect tells whether the handler was still registered");
			break;
		}
		case 3: for(auto& e : entries) e.alive = false; cb.clear(); break;
		case 4: if((int)frames.size() < maxDepth) call(); break;
#if SX_THROW
		case 5: throw Boom{salt};
		case 6:
			if((int)frames.size() < maxDepth) {
				size_t d = frames.size();
				try { call(); } catch(const Boom&) { CHECK(frames.size() == d, "the exception reaches the nested caller"); }
			}
			break;
#endif
		}
	}
	void go(int handlers, int b) {
		maxDepth = 3;
		arg = sx::i32("arg");
		sx::assume(arg > -100 && arg < 100);
		for(int i = 0; i < handlers; ++i) add();
		budget = b;
		
		try { call(); } catch(const Boom&) {}
		CHECK(frames.empty(), "no call is left");
		quiet = true;
		call(); // exactly the registered handlers are left
		for(auto& e : entries) {
			if(!e.alive) CHECK(!cb.disconnect(e.conn.id()), "a removed handler cannot be removed again");
		}
		for(auto& e : entries) if(e.alive) { CHECK(cb.disconnect(e.conn.id()), "a registered handler can be removed"); e.alive = false; break; }
		add();
		call();
	}
};

template<typename CB, bool Void> void world(int handlers, int budget) {
	auto w = std::make_unique<World<CB, Void>>();
	w->go(handlers, budget);
}

#if SX_THROW
// calls nested several levels deep, every level may throw and every caller may catch: afterwards the callback is
// as usable as before, in particular removal takes effect at once again
int removals;
struct CountID {
	int64_t v {};
	void set(int64_t x) noexcept { v = x; }
	int64_t get() const noexcept { return v; }
	void removed() noexcept { ++removals; }
};
struct Held { int* n; Held(int* x) : n(x) { ++*n; } Held(const Held& o) : n(o.n) { ++*n; } ~Held() { --*n; } };
template<template<class, class> class CBT, typename Ret> void deepThrow(int levels) {
	removals = 0;
	int held = 0;
	{
	CBT<Ret(int), CountID> cb;
	std::vector<char> catches, throws;
	for(int i = 0; i < levels; ++i) {
		unsigned c = sx::u8("level");
		sx::assume(c < 4);
		c = (unsigned)__sx_concretize(c);
		catches.push_back(c & 1); throws.push_back(c & 2);
	}
	unsigned rm = sx::u8("removed at");
	sx::assume(rm <= (unsigned)levels);
	int ran = 0, flying = -1;
	bool active = true;
	auto conn = [&] { Held h(&held); return cb.add([h, &ran](int) { ++ran; return Ret(); }); };
	typename CBT<Ret(int), CountID>::Connection other;
	cb.add([&](int d) {
		if(active) {
			if((unsigned)d == rm) other.disconnect();
			if(d + 1 < levels) {
				if(catches[d]) {
					try { cb.call(d + 1); CHECK(flying == -1, "exceptions are not lost"); }
					catch(const Boom& b) { CHECK(b.code == flying, "the exception arrives untouched"); flying = -1; }
				} else cb.call(d + 1);
			}
			if(throws[d]) { flying = d; throw Boom{d}; }
		}
		return Ret();
	});
	other = conn();
	bool threw = false, expectThrow = false;
	for(int d = levels - 1; d >= 0; --d) { if(d + 1 < levels && catches[d]) expectThrow = false; if(throws[d]) expectThrow = true; }
	try { cb.call(0); } catch(const Boom& b) { threw = true; CHECK(b.code == flying, "the exception arrives untouched"); }
	CHECK(threw == expectThrow, "the exception propagates to the caller");
	active = false;
	bool gone = rm < (unsigned)levels;
	CHECK(removals == gone && held == !gone, "removals during a call are finished when the outermost call ends");
	ran = 0;
	cb.call(0);
	CHECK(ran == !gone, "exactly the registered handlers are left");
	auto c = conn();
	removals = 0;
	int before = held;
	auto c2 = conn();
	CHECK(c2.connected() && held == before + 1, "a handler can be added");
	c2.disconnect();
	CHECK(removals == 1 && held == before, "removal outside of calls takes effect at once");
	ran = 0;
	cb.call(0);
	CHECK(ran == !gone + 1, "exactly the registered handlers are left");
	removals = 0;
	cb.clear();
	CHECK(removals == 2 + !gone, "clear outside of calls takes effect at once");
	ran = 0;
	cb.call(0);
	CHECK(ran == 0 && held == 0, "nothing is left");
	(void)c;
	}
	CHECK(held == 0, "nothing is left");
}
// the non-recursive type: an exception leaves the callback usable and unchanged
template<typename CB, typename Ret> void plainThrow() {
	CB cb;
	unsigned bad = sx::u8("thrower"), n = 3;
	sx::assume(bad < 4);
	bool on = true;
	std::vector<int> seen;
	int a = sx::i32("a");
	std::vector<typename CB::Connection> conns;
	for(unsigned i = 0; i < n; ++i) conns.push_back(cb.add([&, i](int x) {
		seen.push_back(i);
		CHECK(x == a, "handlers get the argument");
		if(on && i == bad) throw Boom{x};
		return Ret(i);
	}));
	bool caught = false;
	try { cb.call(a); } catch(const Boom& b) { caught = true; CHECK(b.code == a, "the handler's exception arrives untouched"); }
	CHECK(caught == (bad < n), "the exception propagates to the caller");
	CHECK(seen.size() == (bad < n ? bad + 1 : n), "handlers after the throwing one are not called");
	for(size_t i = 0; i < seen.size(); ++i) CHECK(seen[i] == (int)i, "handlers run in order");
	on = false; seen.clear();
	cb.call(a);
	CHECK(seen.size() == n, "an exception does not unregister anything");
	unsigned k = sx::u8("k");
	sx::assume(k < n);
	CHECK(cb.disconnect(conns[k].id()), "handlers can be removed after an exception");
	seen.clear();
	cb.call(a);
	CHECK(seen.size() == n - 1, "and are gone afterwards");
	for(auto s : seen) CHECK(s != (int)k, "the removed one is gone");
}
// exceptions of any type, thrown by a function or by one called from it, arrive as what they are
struct Fail : std::runtime_error { int code; Fail(int c) : std::runtime_error("fail"), code(c) {} };
struct Worse : Fail { int more; Worse(int c) : Fail(c), more(c + 1) {} };
enum class Kind : int {};
struct Tagged { int v; int* copies; Tagged(int x, int* n) : v(x), copies(n) {} Tagged(const Tagged& o) : v(o.v), copies(o.copies) { ++*copies; } };
template<typename CB, typename Ret, bool Nested> void thrownKinds() {
	CB cb;
	unsigned kind = sx::choice(8, "kind"), bad = sx::choice(2, "thrower");
	int a = sx::i32("a"), copies = 0, ran = 0;
	sx::assume(a > -1000 && a < 1000);
	bool on = true;
	auto raise = [&] {
		switch(kind) {
		case 0: throw a;
		case 1: throw Kind(a);
		case 2: throw std::out_of_range("out of range");
		case 3: throw Fail(a);
		case 4: throw Worse(a);
		case 5: throw Tagged(a, &copies);
		case 6: throw std::bad_function_call();
		default: throw std::invalid_argument("invalid");
		}
	};
	for(unsigned i = 0; i < 2; ++i) cb.add([&, i](int x) {
		++ran;
		if(on && i == bad) {
			if(Nested && x == 1) cb.call(2);
			raise();
		}
		return Ret();
	});
	int caught = -1;
	try { cb.call(1); }
	catch(int x) { caught = 0; CHECK(x == a, "the exception arrives with its value"); }
	catch(Kind k) { caught = 1; CHECK(k == Kind(a), "the exception arrives with its value"); }
	catch(const std::out_of_range&) { caught = 2; }
	catch(const Worse& f) { caught = 4; CHECK(f.code == a && f.more == a + 1, "the exception arrives with its value"); }
	catch(const Fail& f) { caught = 3; CHECK(f.code == a, "the exception arrives with its value"); }
	catch(const Tagged& t) { caught = 5; CHECK(t.v == a, "the exception arrives with its value"); }
	catch(const std::bad_function_call&) { caught = 6; }
	catch(const std::invalid_argument&) { caught = 7; }
	catch(const std::exception&) { caught = 90; }
	catch(...) { caught = 91; }
	CHECK(caught == (int)kind, "the exception arrives with its own type");
	CHECK(ran == (Nested ? 2 : 1) * ((int)bad + 1), "functions after the throwing one are not called");
	on = false; ran = 0;
	cb.call(3);
	CHECK(ran == 2, "an exception does not unregister anything");
}
#endif

#if !SX_THROW
// many calls inside of each other, one of them removes, adds and calls once more
template<typename CB> void chain() {
	constexpr int n = SX_THOROUGH ? 1100 : 300;
	static const int levels[] = {n, n - 1, n - 127, n - 128, n - 254, n - 255, n - 256, 44, 1, 0};
	int level = levels[sx::choice(10, "level")];
	CB cb;
	typename CB::Connection conn;
	int a = 0, b = 0, c = 0, last = -2;
	cb.add([&](int x) {
		++a;
		if(x > 0) cb.call(x - 1);
		if(x == level) {
			CHECK(cb.disconnect(conn.id()), "removing tells whether the function was registered");
			CHECK(!cb.disconnect(conn.id()), "removing tells whether the function was registered");
			cb.add([&](int y) { ++c; last = y; });
			int before = b;
			cb.call(-1);
			CHECK(b == before, "a nested call does not run what was removed before");
			CHECK(c == 1 && last == -1, "a nested call runs what was added before");
		}
	});
	std::vector<int> seen;
	conn = cb.add([&](int x) { ++b; seen.push_back(x); });
	cb.call(n);
	CHECK(a == n + 2, "the other functions run once in every call");
	CHECK(b == n + 1, "every call that has started runs the function removed while it runs");
	for(int i = 0; i <= n; ++i) CHECK(seen[i] == i, "calls run their functions in order");
	CHECK(c == 1, "functions added while a call runs are not run by it");
	level = -5;
	cb.call(0);
	CHECK(a == n + 3 && b == n + 1 && c == 2 && last == 0, "later calls run what was not removed");
}
template<typename CB> void manyCalls() {
	CB cb;
	typename CB::Connection conn, self;
	int a = 0, b = 0;
	self = cb.add([&](int x) {
		a += x;
		if(x != 1) return;
		CHECK(cb.disconnect(conn.id()), "removing tells whether the function was registered");
		int before = b;
		cb.call(2);
		CHECK(b == before, "a nested call does not run what was removed before");
	});
	conn = cb.add([&](int x) { b += x; });
	for(int i = 0; i < (SX_THOROUGH ? 70000 : 40000); ++i) cb.call(0);
	int x = sx::flag("x") ? 1 : 4;
	cb.call(x);
	CHECK(x == 1 ? a == 3 && b == 1 : a == 4 && b == 4, "every call that has started runs the function removed while it runs");
	cb.call(8);
	CHECK(a == (x == 1 ? 11 : 12) && b == (x == 1 ? 1 : 12), "later calls run what was not removed");
}
#endif
} // namespace

using nytl::RecursiveCallback; using nytl::TrackedRecursiveCallback;
#if SX_LONG
ENTRY(chain) { chain<RecursiveCallback<void(int)>>(); }
ENTRY(chain_tracked) { chain<TrackedRecursiveCallback<void(int)>>(); }
ENTRY(many_calls) { manyCalls<RecursiveCallback<void(int)>>(); }
ENTRY(many_calls_tracked) { manyCalls<TrackedRecursiveCallback<void(int)>>(); }
#elif !SX_THROW
constexpr int B = SX_THOROUGH ? 6 : 5;
ENTRY(rec_void_1) { world<RecursiveCallback<void(int)>, true>(1, B); }
ENTRY(rec_void_2) { world<RecursiveCallback<void(int)>, true>(2, B); }
ENTRY(rec_int_2) { world<RecursiveCallback<int(int)>, false>(2, B); }
ENTRY(rec_int_3) { world<RecursiveCallback<int(int)>, false>(3, SX_THOROUGH ? B : B - 1); }
ENTRY(tracked_void_2) { world<TrackedRecursiveCallback<void(int)>, true>(2, B); }
ENTRY(tracked_int_2) { world<TrackedRecursiveCallback<int(int)>, false>(2, B); }
ENTRY(tracked_int_3) { world<TrackedRecursiveCallback<int(int)>, false>(3, SX_THOROUGH ? B : B - 1); }
#else
constexpr int B = SX_THOROUGH ? 5 : 4;
ENTRY(throw_rec_void_2) { world<RecursiveCallback<void(int)>, true>(2, B); }
ENTRY(throw_rec_int_2) { world<RecursiveCallback<int(int)>, false>(2, B); }
ENTRY(throw_tracked_void_3) { world<TrackedRecursiveCallback<void(int)>, true>(3, B); }
ENTRY(throw_tracked_int_2) { world<TrackedRecursiveCallback<int(int)>, false>(2, B); }
ENTRY(throw_deep_void) { deepThrow<RecursiveCallback, void>(3 + SX_THOROUGH); }
ENTRY(throw_deep_int) { deepThrow<RecursiveCallback, int>(3 + SX_THOROUGH); }
ENTRY(throw_plain_int) { plainThrow<nytl::Callback<int(int)>, int>(); plainThrow<RecursiveCallback<int(int)>, int>(); }
ENTRY(throw_plain_tracked) { plainThrow<nytl::TrackedCallback<int(int)>, int>(); plainThrow<TrackedRecursiveCallback<int(int)>, int>(); }
ENTRY(throw_kinds) { thrownKinds<nytl::Callback<void(int)>, void, false>(); }
ENTRY(throw_kinds_int) { thrownKinds<nytl::Callback<int(int)>, int, false>(); }
ENTRY(throw_kinds_rec) { thrownKinds<RecursiveCallback<void(int)>, void, true>(); }
ENTRY(throw_kinds_rec_int) { thrownKinds<RecursiveCallback<int(int)>, int, true>(); }
ENTRY(throw_kinds_tracked) { thrownKinds<TrackedRecursiveCallback<void(int)>, void, true>(); thrownKinds<nytl::TrackedCallback<int(int)>, int, false>(); }
#endif
