// C02: every handler sees the arguments the caller passed.
#include "sx.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>
#include <vector>

namespace {

// a value whose content is gone after it was moved from
struct Value {
	int v {};
	std::vector<int> big {};
	Value() = default;
	explicit Value(int x) : v(x), big{x, x} {}
	Value(const Value&) = default;
	Value(Value&& o) noexcept : v(o.v), big(std::move(o.big)) { o.v = ~o.v; }
	Value& operator=(const Value&) = default;
	Value& operator=(Value&& o) noexcept { v = o.v; big = std::move(o.big); o.v = ~o.v; return *this; }
	bool is(int x) const { return v == x && big.size() == 2 && big[0] == x; }
};

// the same with many members
struct Wide {
	int pad[24] {};
	Value a {}, b {}, c {}, d {};
	int v {};
	std::vector<int> big {};
	Wide() = default;
	explicit Wide(int x) : a(x), b(x), c(x), d(x), v(x), big{x} { for(auto& p : pad) p = x; }
	bool is(int x) const {
		bool ok = v == x && big.size() == 1 && a.is(x) && b.is(x) && c.is(x) && d.is(x);
		for(auto& p : pad) ok = ok && p == x;
		return ok;
	}
};
// small with one member only
struct Tiny {
	std::vector<int> big {};
	int v {};
	Tiny() = default;
	explicit Tiny(int x) : big{x}, v(x) {}
	bool is(int x) const { return big.size() == 1 && big[0] == x && v == x; }
};

constexpr int maxHandlers = SX_THOROUGH ? 5 : 3;

unsigned count() {
	unsigned n = sx::u8("handlers");
	sx::assume(n >= 1 && n <= maxHandlers);
	return (unsigned)__sx_concretize(n);
}

template<template<class, class> class CB, class V = Value> void byValue(bool op) {
	CB<void(V, int), nytl::ConnectionID> cb;
	int a = sx::i32("a"), b = sx::i32("b");
	unsigned n = count(), runs = 0;
	for(unsigned i = 0; i < n; ++i) cb.add([&, i](V v, int x) {
		CHECK(v.is(a), "a by-value argument reaches every handler unchanged");
		CHECK(x == b, "every handler gets the second argument");
		v.v = 7; v.big.clear(); // handlers own their copy
		++runs;
	});
	V mine(a);
	if(op) cb(mine, b); else cb.call(mine, b);
	CHECK(mine.is(a), "the caller's object is not changed");
	CHECK(runs == n, "every handler runs");
}

template<template<class, class> class CB, class V = Value> void byValueRet(bool op) {
	CB<V(V), nytl::ConnectionID> cb;
	int a = sx::i32("a");
	unsigned n = count();
	for(unsigned i = 0; i < n; ++i) cb.add([&, i](V v) {
		CHECK(v.is(a), "a by-value argument reaches every handler unchanged");
		return v;
	});
	auto ret = op ? cb(V(a)) : cb.call(V(a));
	CHECK(ret.size() == n, "one return value per handler");
	for(auto& r : ret) CHECK(r.is(a), "return values are kept intact");
}

template<template<class, class> class CB> void byRef(bool op) {
	CB<int(int&, const Value&, Value&), nytl::ConnectionID> cb;
	int a = sx::i32("a"), m = sx::i32("m");
	sx::assume(a > -1000 && a < 1000);
	Value cv(m), mv(m);
	int x = a;
	unsigned n = count(), runs = 0;
	for(unsigned i = 0; i < n; ++i) cb.add([&, i](int& r, const Value& c, Value& w) {
		CHECK(&r == &x && &c == &cv && &w == &mv, "references refer to the caller's objects");
		CHECK(r == a + (int)runs, "changes through a reference are seen by the next handler");
		CHECK(c.is(m) && w.is(m), "a referenced object is not moved from");
		++r; ++runs;
		return r;
	});
	auto ret = op ? cb(x, cv, mv) : cb.call(x, cv, mv);
	CHECK(x == a + (int)n, "the caller sees the changes");
	CHECK(ret.size() == n, "one return value per handler");
	for(unsigned i = 0; i < n; ++i) CHECK(ret[i] == a + (int)i + 1, "return values in order");
	CHECK(cv.is(m) && mv.is(m), "referenced objects keep their value");
}

template<template<class, class> class CB> void moveOnly(bool op) {
	CB<void(std::unique_ptr<int>), nytl::ConnectionID> cb;
	int a = sx::i32("a"), got = ~a;
	cb.add([&](std::unique_ptr<int> p) { CHECK(p != nullptr, "a move-only argument arrives"); got = *p; });
	auto p = std::make_unique<int>(a);
	if(op) cb(std::move(p)); else cb.call(std::move(p));
	CHECK(got == a, "a move-only argument reaches the handler");
}

// the handler variant that gets its own connection
template<class V = Value> void connVariant() {
	using CB = nytl::RecursiveCallback<void(V, V&)>;
	CB cb;
	int a = sx::i32("a"), m = sx::i32("m");
	V w(m);
	unsigned n = count(), runs = 0;
	std::vector<int64_t> got, ids;
	for(unsigned i = 0; i < n; ++i) {
		auto c = cb.add([&](typename CB::Connection conn, V v, V& r) {
			CHECK(conn.connected() && conn.connectable() == &cb, "the connection passed in is valid");
			CHECK(v.is(a), "a by-value argument reaches every handler unchanged");
			CHECK(&r == &w && r.is(m), "references refer to the caller's objects");
			got.push_back(conn.id().get());
			++runs;
		});
		ids.push_back(c.id().get());
	}
	cb.call(V(a), w);
	CHECK(runs == n && got == ids, "each handler gets its own connection");
}

// parameters of other kinds, in their order: rvalue references, const values, big trivial objects, pointers, floats
struct Big { int d[12]; };
template<template<class, class> class CB> void kinds(bool op) {
	CB<void(Value&&, const int, Big, const Big&, int*, double, bool, int8_t), nytl::ConnectionID> cb;
	int a = sx::i32("a"), b = sx::i32("b"), local = 0;
	unsigned at = sx::choice(12, "at");
	bool f = sx::flag("f");
	int8_t c = sx::i8("c");
	double d = sx::f64("d");
	sx::assume(d == d);
	Value v(a);
	Big x {}, y {};
	x.d[at] = a; y.d[at] = b;
	unsigned n = count(), runs = 0;
	for(unsigned i = 0; i < n; ++i) cb.add([&](Value&& r, const int k, Big p, const Big& q, int* ptr, double e, bool g, int8_t h) {
		CHECK(&r == &v && r.is(a), "rvalue references refer to the caller's object");
		CHECK(k == b && e == d && g == f && h == c, "scalars arrive in their order");
		CHECK(ptr == &local && &q == &y, "pointers and references refer to the caller's objects");
		for(unsigned j = 0; j < 12; ++j) CHECK(p.d[j] == (j == at ? a : 0) && q.d[j] == (j == at ? b : 0), "large objects arrive complete");
		p.d[at] = 3;
		++runs;
	});
	if(op) cb(std::move(v), b, x, y, &local, d, f, c); else cb.call(std::move(v), b, x, y, &local, d, f, c);
	CHECK(v.is(a), "what no function takes over keeps its value");
	CHECK(x.d[at] == a, "the caller's object is not changed");
	CHECK(runs == n, "every handler runs");
}
// the variant with connection: move-only and reference parameters together
void connKinds() {
	using CB = nytl::RecursiveCallback<int(std::unique_ptr<int>, const Value&, Value&&)>;
	CB cb;
	int a = sx::i32("a"), m = sx::i32("m"), got = ~a;
	Value c(m), r(m);
	cb.add([&](CB::Connection conn, std::unique_ptr<int> p, const Value& x, Value&& y) {
		CHECK(conn.connected(), "the connection passed in is valid");
		CHECK(p && *p == a && &x == &c && x.is(m), "arguments arrive at functions with a connection");
		CHECK(&y == &r && y.is(m), "rvalue references refer to the caller's object");
		Value z(std::move(y));
		got = *p;
		return z.v;
	});
	auto ret = cb(std::make_unique<int>(a), c, std::move(r));
	CHECK(ret.size() == 1 && ret[0] == m && got == a && c.is(m) && !r.is(m), "a function may take over what it was given");
}
} // namespace

ENTRY(kinds_callback) { kinds<nytl::Callback>(false); }
ENTRY(kinds_callback_op) { kinds<nytl::Callback>(true); }
ENTRY(kinds_recursive) { kinds<nytl::RecursiveCallback>(false); }
ENTRY(kinds_recursive_op) { kinds<nytl::RecursiveCallback>(true); }
ENTRY(conn_kinds) { connKinds(); }
ENTRY(value_callback) { byValue<nytl::Callback>(false); }
ENTRY(value_callback_op) { byValue<nytl::Callback>(true); }
ENTRY(value_recursive) { byValue<nytl::RecursiveCallback>(false); }
ENTRY(value_recursive_op) { byValue<nytl::RecursiveCallback>(true); }
ENTRY(ret_callback) { byValueRet<nytl::Callback>(false); }
ENTRY(ret_callback_op) { byValueRet<nytl::Callback>(true); }
ENTRY(ret_recursive) { byValueRet<nytl::RecursiveCallback>(false); }
ENTRY(ret_recursive_op) { byValueRet<nytl::RecursiveCallback>(true); }
ENTRY(ref_callback) { byRef<nytl::Callback>(false); }
ENTRY(ref_recursive_op) { byRef<nytl::RecursiveCallback>(true); }
ENTRY(moveonly_callback) { moveOnly<nytl::Callback>(false); }
ENTRY(moveonly_recursive) { moveOnly<nytl::RecursiveCallback>(false); moveOnly<nytl::RecursiveCallback>(true); }
ENTRY(conn_recursive) { connVariant(); }
ENTRY(wide_callback) { byValue<nytl::Callback, Wide>(false); byValueRet<nytl::Callback, Wide>(true); }
ENTRY(wide_recursive) { byValue<nytl::RecursiveCallback, Wide>(true); byValueRet<nytl::RecursiveCallback, Wide>(false); }
ENTRY(wide_conn) { connVariant<Wide>(); }
ENTRY(tiny_callback) { byValue<nytl::Callback, Tiny>(true); byValueRet<nytl::Callback, Tiny>(false); }
ENTRY(tiny_recursive) { byValue<nytl::RecursiveCallback, Tiny>(false); byValueRet<nytl::RecursiveCallback, Tiny>(true); }
ENTRY(tiny_conn) { connVariant<Tiny>(); }
