// C09: scope guards run their function exactly when the scope is left the way they ask for.
#include "sx.hpp"
#include <nytl/scope.hpp>
#include <functional>
#include <memory>
#include <stdexcept>

namespace {
struct Boom { int code; };
struct Err : std::exception { const char* what() const noexcept override { return "err"; } };

struct Log { int scope {}, success {}, error {}; };

enum class Exit { normal, early, brk, thrown };

// one scope with all guards; how it is left and which guards are disarmed is arbitrary
void body(Log& log, unsigned how, bool u1, bool u2, bool u3, int code) {
	auto f = [&] { ++log.error; };
	nytl::ScopeGuard g([&] { ++log.scope; });
	nytl::SuccessGuard s([&] { ++log.success; });
	nytl::ExceptionGuard e(f); // by reference
	if(u1) g.unset();
	if(u2) s.unset();
	if(u3) e.unset();
	CHECK(log.scope == 0 && log.success == 0 && log.error == 0, "a guard does not run before the scope is left");
	if(how == 1) return;
	if(how == 2) throw Boom{code};
	if(how == 3) throw Err{};
}
void check(const Log& log, bool threw, bool u1, bool u2, bool u3) {
	CHECK(log.scope == (u1 ? 0 : 1), "a scope guard runs exactly once unless it was unset");
	CHECK(log.success == (!u2 && !threw ? 1 : 0), "a success guard runs exactly when no exception leaves the scope");
	CHECK(log.error == (!u3 && threw ? 1 : 0), "an exception guard runs exactly when an exception leaves the scope");
}

struct InDtor { // uses guards while another exception is in flight
	Log& log; unsigned how; bool u1, u2, u3; int code; bool& threw;
	~InDtor() {
		threw = false;
		try { body(log, how, u1, u2, u3, code); } catch(const Boom&) { threw = true; } catch(const Err&) { threw = true; }
	}
};
} // namespace

ENTRY(scope_guards) {
	unsigned how = sx::u8("how");
	sx::assume(how < 4);
	bool u1 = sx::flag("u1"), u2 = sx::flag("u2"), u3 = sx::flag("u3");
	int code = sx::i32("code");
	Log log;
	bool threw = false;
	try { body(log, how, u1, u2, u3, code); }
	catch(const Boom& b) { threw = true; CHECK(b.code == code, "the exception passes the guards unchanged"); }
	catch(const Err&) { threw = true; }
	CHECK(threw == (how >= 2), "guards do not swallow the exception that leaves the scope");
	check(log, threw, u1, u2, u3);
}
// guards used during unwinding only react to exceptions of their own scope
ENTRY(scope_unwinding) {
	unsigned how = sx::u8("how");
	sx::assume(how < 4);
	bool u1 = sx::flag("u1"), u2 = sx::flag("u2"), u3 = sx::flag("u3");
	Log log;
	bool threw = false, outer = false;
	try {
		InDtor d{log, how, u1, u2, u3, 1, threw};
		throw Boom{2};
	} catch(const Boom& b) { outer = true; CHECK(b.code == 2, "the outer exception goes on"); }
	CHECK(outer, "the outer exception goes on");
	CHECK(threw == (how >= 2), "the inner exception is seen inside");
	check(log, threw, u1, u2, u3);
}
// a guard inside a catch block: the handled exception is not "in flight"
ENTRY(scope_catch) {
	unsigned how = sx::u8("how");
	sx::assume(how < 4);
	Log log;
	bool threw = false;
	try { throw Boom{3}; }
	catch(const Boom&) {
		try { body(log, how, false, false, false, 4); }
		catch(const Boom& b) { threw = true; CHECK(b.code == 4, "the exception passes the guards unchanged"); }
		catch(const Err&) { threw = true; }
	}
	CHECK(threw == (how >= 2), "guards do not swallow the exception that leaves the scope");
	check(log, threw, false, false, false);
}
// guards may live on the heap: made while an exception is in flight, destroyed after that one was handled (or the other way round)
namespace {
using Fn = std::function<void()>;
struct Guards {
	nytl::ScopeGuard<Fn> g; nytl::SuccessGuard<Fn> s; nytl::ExceptionGuard<Fn> e;
	Guards(Log& log) : g(Fn([&log] { ++log.scope; })), s(Fn([&log] { ++log.success; })), e(Fn([&log] { ++log.error; })) {}
};
struct Maker { std::unique_ptr<Guards>& to; Log& log; ~Maker() { to = std::make_unique<Guards>(log); } };
struct Killer { std::unique_ptr<Guards>& what; ~Killer() { what.reset(); } };
template<typename F> void nest(unsigned n, F f) { // runs f with n exceptions in flight
	struct D { unsigned n; F& f; ~D() { nest(n, f); } };
	if(n == 0) return f();
	try { D d{n - 1, f}; throw Boom{(int)n}; } catch(const Boom& b) { CHECK(b.code == (int)n, "the outer exception goes on"); }
}
} // namespace
ENTRY(scope_heap) {
	unsigned created = sx::choice(3, "created"), destroyed = sx::choice(3, "destroyed");
	bool unset = sx::flag("unset");
	Log log;
	std::unique_ptr<Guards> p;
	nest(created, [&] { p = std::make_unique<Guards>(log); });
	if(unset) { p->g.unset(); p->s.unset(); p->e.unset(); }
	CHECK(log.scope == 0 && log.success == 0 && log.error == 0, "a guard does not run before the scope is left");
	nest(destroyed, [&] { p.reset(); });
	CHECK(log.scope == !unset, "a scope guard runs exactly once unless it was unset");
	CHECK(log.success == (!unset && destroyed <= created), "a success guard runs exactly when no new exception is in flight");
	CHECK(log.error == (!unset && destroyed > created), "an exception guard runs exactly when a new exception is in flight");
}
ENTRY(scope_heap_mixed) { // made inside the unwinding, left alone until it is over
	Log log;
	std::unique_ptr<Guards> p;
	int code = sx::i32("code");
	try { Maker m{p, log}; throw Boom{code}; } catch(const Boom& b) { CHECK(b.code == code, "the outer exception goes on"); }
	bool late = sx::flag("late");
	if(late) try { Killer k{p}; throw Err{}; } catch(const Err&) {}
	else p.reset();
	CHECK(log.scope == 1, "a scope guard runs exactly once unless it was unset");
	// as many exceptions in flight as at its creation, or fewer: no exception left its lifetime
	CHECK(log.success == 1 && log.error == 0, "guards created during unwinding only react to further exceptions");
}
// functions of guards that throw themselves
ENTRY(scope_throwing_function) {
	unsigned how = sx::u8("how"), kind = sx::u8("kind");
	sx::assume(how < 3); sx::assume(kind < 3);
	int order = 0, first = 0, second = 0;
	bool caught = false;
	auto bad = [&] { if(kind == 1) throw Boom{9}; if(kind == 2) throw Err{}; };
	try {
		nytl::ScopeGuard a([&] { first = ++order; bad(); });
		nytl::ScopeGuard b([&] { second = ++order; bad(); });
		if(how == 1) throw Boom{1};
		if(how == 2) throw Err{};
	} catch(const Boom& b) { caught = true; CHECK(how == 1 && b.code == 1, "exceptions of the guard function do not leave the guard"); }
	catch(const Err&) { caught = true; CHECK(how == 2, "exceptions of the guard function do not leave the guard"); }
	CHECK(caught == (how != 0), "exceptions of the guard function do not leave the guard");
	CHECK(second == 1 && first == 2, "guards run in reverse order of their creation");
}
// guards constructed from lvalues refer to the function, rvalues are owned
ENTRY(scope_reference) {
	int a = sx::i32("a"), got = 0;
	{
		std::function<void()> f = [&] { got = ~a; };
		{
			nytl::ScopeGuard g(f);
			f = [&] { got = a; };
		}
		CHECK(got == a, "a guard made from an lvalue runs the function it has at the end of the scope");
	}
	got = 0;
	{ nytl::ScopeGuard g(std::function<void()>([&got, a] { got += a; })); }
	CHECK(got == a, "a guard made from a temporary owns its function");
	// loops: one run per iteration
	unsigned n = sx::u8("n"), runs = 0;
	sx::assume(n <= 4);
	for(unsigned i = 0; i < n; ++i) {
		nytl::ScopeGuard g([&] { ++runs; });
		nytl::ExceptionGuard e([&] { runs += 100; });
		if(i == 2) continue;
	}
	CHECK(runs == n, "one run per scope");
}
