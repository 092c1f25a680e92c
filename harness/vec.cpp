// C24 vector arithmetic, C25 norms and products, C26 component-wise operations, C27 access and conversion.
#include "sx.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/simplex.hpp>
#include <cmath>
#include <type_traits>
#include <utility>

namespace {
template<size_t D, typename T> using Vec = nytl::Vec<D, T>;
template<typename T> T num(const char* n) { // integers small enough for all products here
	T v = sx::val<T>(n);
	if constexpr(std::is_same_v<T, int>) sx::assume(v > -1000 && v < 1000);
	if constexpr(std::is_same_v<T, int64_t>) sx::assume(v > -1000 && v < 1000);
	return v;
}
template<size_t D, typename T> struct In { // a vector and a plain copy of its components
	Vec<D, T> v; T e[D];
	explicit In(const char* n) { for(size_t i = 0; i < D; ++i) v[i] = e[i] = num<T>(n); }
	void kept() const { for(size_t i = 0; i < D; ++i) sx::same(v[i], e[i], "operands are not changed"); }
};
template<typename A, typename B> constexpr bool sameType = std::is_same_v<A, B>;
template<typename V, typename E> constexpr bool hasType = std::is_same_v<std::decay_t<decltype(std::declval<V&>()[0])>, E>;
template<typename A> void eqv(A a, A b, const char* id) {
	if constexpr(std::is_same_v<A, float>) __sx_assert_eq_f32(a, b, id);
	else if constexpr(std::is_floating_point_v<A>) __sx_assert_eq_f64(a, b, id);
	else CHECK(a == b, id);
}
// two vectors with different value types, result type and values of the component expression
#define MIX(RESULT, EXPR, ID) { auto&& vr = RESULT; [[maybe_unused]] size_t i = 0; using E = std::decay_t<decltype(EXPR)>; CHECK((hasType<decltype(vr), E>), "the value type is that of the component expression"); \
	CHECK(vr.size() == D, "operations keep the dimension"); for(i = 0; i < D; ++i) eqv<E>((E)vr[i], E(EXPR), ID); }
} // namespace

#if SX_PART == 24
namespace {
template<size_t D, typename T> void arith() {
	In<D, T> a("a"), b("b");
	T f = num<T>("f");
	auto each = [&](const auto& v, auto ref, const char* id) { for(size_t i = 0; i < D; ++i) sx::same((T)v[i], (T)ref(i), id); };
	each(a.v + b.v, [&](size_t i) { return a.e[i] + b.e[i]; }, "a + b adds components");
	each(a.v - b.v, [&](size_t i) { return a.e[i] - b.e[i]; }, "a - b subtracts components");
	each(-a.v, [&](size_t i) { return -a.e[i]; }, "-a negates components");
	each(+a.v, [&](size_t i) { return a.e[i]; }, "+a is a");
	each(f * a.v, [&](size_t i) { return f * a.e[i]; }, "f * a scales components");
	a.kept(); b.kept();
	{
		using namespace nytl::vec::operators;
		each(a.v * f, [&](size_t i) { return a.e[i] * f; }, "a * f scales components");
	}
	a.kept();
	auto x = a.v; auto& rx = (x += b.v);
	each(x, [&](size_t i) { return a.e[i] + b.e[i]; }, "a += b adds components"); CHECK(&rx == &x, "compound assignment returns its object");
	x = a.v; auto& ry = (x -= b.v);
	each(x, [&](size_t i) { return a.e[i] - b.e[i]; }, "a -= b subtracts components"); CHECK(&ry == &x, "compound assignment returns its object");
	x = a.v; auto& rz = (x *= f);
	each(x, [&](size_t i) { return a.e[i] * f; }, "a *= f scales components"); CHECK(&rz == &x, "compound assignment returns its object");
	b.kept();
	// operands that overlap the result
	x = a.v; x += x; each(x, [&](size_t i) { return a.e[i] + a.e[i]; }, "a += a");
	x = a.v; x -= x; each(x, [&](size_t) { return T(0); }, "a -= a");
	for(size_t k = 0; k < D; ++k) {
		x = a.v; x *= x[k];
		each(x, [&](size_t i) { return a.e[i] * a.e[k]; }, "a *= a[k] uses the factor as it was");
		x = a.v; x = x[k] * x;
		each(x, [&](size_t i) { return a.e[i] * a.e[k]; }, "a = a[k] * a");
	}
}
template<size_t D, typename T> void equality() {
	In<D, T> a("a"), b("b");
	bool eq = true;
	for(size_t i = 0; i < D; ++i) eq = eq && a.e[i] == b.e[i];
	CHECK((a.v == b.v) == eq, "vectors are equal exactly if all components are");
	CHECK((a.v != b.v) == !eq, "!= is the negation of ==");
	CHECK(a.v == a.v && !(a.v != a.v), "vectors equal themselves");
}
#ifndef SX_REAL
// whatever the values are: large, NaN or infinite
template<size_t D, typename A, typename B> void equalityAll() {
	Vec<D, A> v; Vec<D, B> w;
	A a[D]; B b[D];
	bool eq = true;
	for(size_t i = 0; i < D; ++i) {
		v[i] = a[i] = sx::val<A>("a"); w[i] = b[i] = sx::val<B>("b");
		eq = eq & (a[i] == b[i]);
	}
	CHECK((v == w) == eq && (w == v) == eq, "vectors are equal exactly if all components are");
	CHECK((v != w) == !eq && (w != v) == !eq, "!= is the negation of ==");
}
template<size_t D, typename T> void sumsAll() { // values near the limits of the type
	Vec<D, T> v, w;
	T a[D], b[D];
	constexpr T lim = std::numeric_limits<T>::max() / 2;
	for(size_t i = 0; i < D; ++i) {
		v[i] = a[i] = sx::val<T>("a"); w[i] = b[i] = sx::val<T>("b");
		sx::assume(a[i] <= lim && b[i] <= lim && a[i] >= -lim && b[i] >= -lim);
	}
	auto s = v + w, d = v - w, n = -v;
	auto x = v, y = v;
	x += w; y -= w;
	for(size_t i = 0; i < D; ++i) {
		CHECK(s[i] == a[i] + b[i] && x[i] == s[i], "a + b adds components");
		CHECK(d[i] == a[i] - b[i] && y[i] == d[i], "a - b subtracts components");
		CHECK(n[i] == -a[i], "-a negates components");
	}
}
#endif
template<size_t D> void division() {
	In<D, double> a("a");
	double f = sx::f64("f");
	using namespace nytl::vec::operators;
	sx::assume(f != 0);
	auto q = a.v / f;
	for(size_t i = 0; i < D; ++i) sx::same(q[i] * f, a.e[i], "a / f divides components");
	for(size_t i = 0; i < D; ++i) sx::assume(a.e[i] != 0);
	auto r = f / a.v;
	for(size_t i = 0; i < D; ++i) sx::same(r[i] * a.e[i], f, "f / a divides by components");
	a.kept();
}
}
namespace {
template<size_t D, typename A, typename B> void mixed() {
	In<D, A> a("a"); In<D, B> b("b");
	A f = num<A>("f"); B g = num<B>("g");
	MIX(a.v + b.v, a.e[i] + b.e[i], "mixed addition") MIX(b.v + a.v, b.e[i] + a.e[i], "mixed addition")
	MIX(a.v - b.v, a.e[i] - b.e[i], "mixed subtraction") MIX(b.v - a.v, b.e[i] - a.e[i], "mixed subtraction")
	MIX(f * b.v, f * b.e[i], "mixed scaling") MIX(g * a.v, g * a.e[i], "mixed scaling")
	{
		using namespace nytl::vec::operators;
		MIX(a.v * g, a.e[i] * g, "mixed scaling") MIX(b.v * f, b.e[i] * f, "mixed scaling")
	}
	if constexpr(std::is_floating_point_v<A> || !std::is_floating_point_v<B>) {
		auto x = a.v; x += b.v; MIX(x, A(a.e[i] + b.e[i]), "mixed addition in place")
		x = a.v; x -= b.v; MIX(x, A(a.e[i] - b.e[i]), "mixed subtraction in place")
		x = a.v; x *= g; MIX(x, A(a.e[i] * g), "mixed scaling in place")
	}
	a.kept(); b.kept();
}
template<typename A, typename B> void mixedQuotient() {
	constexpr size_t D = 3;
	In<D, A> a("a"); B f = num<B>("f");
	using namespace nytl::vec::operators;
	sx::assume(f != 0);
	MIX(a.v / f, a.e[i] / f, "mixed division")
	for(size_t i = 0; i < D; ++i) sx::assume(a.e[i] != 0);
	MIX(f / a.v, f / a.e[i], "mixed division")
}
#ifndef SX_REAL
// quotients of multiples and their neighbours: rounding in between would show
template<size_t D, typename A, typename B> void exactQuotient() {
	unsigned f = sx::u8("f");
	sx::assume(f > 0 && f < 100);
	f = (unsigned)__sx_concretize(f);
	Vec<D, A> v {};
	for(size_t i = 0; i < D; ++i) v[i] = A(i % 2 ? f * (i + 1) - 1 : f * (i + 1));
	B g = B(f);
	using namespace nytl::vec::operators;
	MIX(v / g, v[i] / g, "a / f divides components exactly")
	v[0] = A(f); v[1] = A(3);
	B h = B(f * 3);
	MIX(h / v, h / v[i], "f / a divides by components exactly")
}
#endif
}
#ifdef SX_REAL
ENTRY(mixed_id) { mixed<2, int, double>(); mixed<3, int, double>(); mixed<4, double, int>(); mixed<5, int, double>(); }
ENTRY(mixed_fd) { mixed<2, float, double>(); mixed<3, double, float>(); mixed<4, float, double>(); mixed<6, double, float>(); }
ENTRY(mixed_if) { mixed<2, float, int>(); mixed<3, int, float>(); mixed<4, uint8_t, float>(); }
ENTRY(mixed_quotient) { mixedQuotient<int, double>(); mixedQuotient<double, int>(); mixedQuotient<float, double>(); mixedQuotient<double, float>(); }
ENTRY(types) { // mixed value types are combined in their common type
	In<2, int> a("a"); In<2, double> b("b"); In<3, float> c("c"); In<3, double> d("d"); In<3, int> e("e");
	double f = sx::f64("f");
	auto s = a.v + b.v; auto t = b.v - a.v; auto m = f * a.v; auto u = c.v + d.v; auto w = d.v - c.v; auto g = e.v + c.v;
	CHECK((sameType<decltype(s), Vec<2, double>> && sameType<decltype(t), Vec<2, double>> && sameType<decltype(m), Vec<2, double>> && sameType<decltype(u), Vec<3, double>> && sameType<decltype(w), Vec<3, double>> && sameType<decltype(g), Vec<3, float>>), "the value type is that of the component expression");
	for(size_t i = 0; i < 2; ++i) {
		sx::same((double)s[i], a.e[i] + b.e[i], "mixed addition");
		sx::same((double)t[i], b.e[i] - a.e[i], "mixed subtraction");
		sx::same((double)m[i], f * a.e[i], "scaling an integer vector by a real factor");
	}
	for(size_t i = 0; i < 3; ++i) {
		sx::same((double)u[i], c.e[i] + d.e[i], "mixed addition");
		sx::same((double)w[i], d.e[i] - c.e[i], "mixed subtraction");
		sx::same((float)g[i], (float)e.e[i] + c.e[i], "mixed addition");
	}
	auto k = a.v; k += Vec<2, int64_t> {3, 4};
	CHECK(k[0] == a.e[0] + 3 && k[1] == a.e[1] + 4 && (sameType<decltype(k), Vec<2, int>>), "adding to a vector keeps its type");
	{
		using namespace nytl::vec::operators;
		auto q = a.v * f; auto r = b.v / 2; auto h = a.v / 2;
		CHECK((sameType<decltype(q), Vec<2, double>> && sameType<decltype(r), Vec<2, double>> && sameType<decltype(h), Vec<2, int>>), "the value type is that of the component expression");
		for(size_t i = 0; i < 2; ++i) {
			sx::same((double)q[i], a.e[i] * f, "scaling an integer vector by a real factor");
			sx::same((double)r[i], b.e[i] / 2, "dividing by an integer");
			sx::same((int)h[i], a.e[i] / 2, "integer division");
		}
	}
	CHECK(a.v == (Vec<2, double>{(double)a.e[0], (double)a.e[1]}), "equality across value types");
	CHECK((sameType<decltype(nytl::Vec{b.e[0], c.e[0]}), Vec<2, double>> && sameType<decltype(nytl::Vec{1, 2, 3}), Vec<3, int>>), "deduced value type and size");
}
ENTRY(arith_7) { arith<7, double>(); }
ENTRY(arith_9) { arith<9, double>(); }
ENTRY(arith_17) { arith<17, double>(); }
ENTRY(division_9) { division<9>(); }
ENTRY(arith_5) { arith<5, double>(); }
ENTRY(arith_3f) { arith<3, float>(); }
ENTRY(arith_4f) { arith<4, float>(); }
ENTRY(equality_1) { equality<1, double>(); }
ENTRY(equality_4) { equality<4, float>(); }
ENTRY(equality_6) { equality<6, double>(); }
ENTRY(division_5) { division<5>(); }
ENTRY(division_6) { division<6>(); }
ENTRY(arith_2) { arith<2, double>(); }
ENTRY(arith_3) { arith<3, double>(); }
ENTRY(arith_4) { arith<4, double>(); }
ENTRY(arith_1) { arith<1, double>(); }
ENTRY(arith_6) { arith<6, double>(); }
ENTRY(arith_2f) { arith<2, float>(); }
ENTRY(equality_2) { equality<2, double>(); }
ENTRY(equality_3) { equality<3, double>(); }
ENTRY(equality_5) { equality<5, double>(); }
ENTRY(division_2) { division<2>(); }
ENTRY(division_3) { division<3>(); }
ENTRY(division_4) { division<4>(); }
#else
ENTRY(mixed_integers) { mixed<2, int, int64_t>(); mixed<3, uint8_t, int>(); mixed<4, int8_t, int64_t>(); mixed<5, unsigned, uint64_t>(); mixed<2, uint8_t, uint8_t>(); mixed<3, int8_t, uint8_t>(); mixed<3, int8_t, int8_t>(); mixed<2, short, short>(); mixed<5, uint16_t, short>(); }
// integer vectors changed in place by fractions: only the result is rounded
template<size_t D, typename T> void fractions() {
	constexpr double fs[] = {1.5, 0.25, -0.5, -2.75, 3., 0.999};
	constexpr int vs[] = {4, 7, 10, 101, 0};
	double f = fs[sx::choice(std::is_signed_v<T> ? 6 : 2, "f")];
	Vec<D, T> v {};
	Vec<D, double> w {};
	int k = vs[sx::choice(5, "v")];
	for(size_t i = 0; i < D; ++i) { v[i] = T(k + int(i)); w[i] = f + 2. * double(i); }
	auto x = v; x *= f;
	auto y = v; y += w;
	auto z = v; z *= (float) f;
	for(size_t i = 0; i < D; ++i) {
		CHECK(x[i] == T(double(v[i]) * f) && z[i] == T(float(v[i]) * float(f)), "scaling by fractions is rounded afterwards");
		CHECK(y[i] == T(double(v[i]) + w[i]), "adding fractions is rounded afterwards");
	}
}
ENTRY(fractions_2) { fractions<2, int>(); }
ENTRY(fractions_3) { fractions<3, int64_t>(); }
ENTRY(fractions_4) { fractions<4, short>(); }
ENTRY(fractions_5) { fractions<5, uint8_t>(); }
ENTRY(mixed_division) {
	mixedQuotient<int, int64_t>(); mixedQuotient<uint8_t, int>();
}
ENTRY(division_exact) {
	unsigned k = sx::choice(7, "types");
	if(k == 0) exactQuotient<2, int, int>();
	else if(k == 1) exactQuotient<3, double, double>();
	else if(k == 2) exactQuotient<4, float, float>();
	else if(k == 3) exactQuotient<3, int, double>();
	else if(k == 4) exactQuotient<2, int64_t, int>();
	else if(k == 5) exactQuotient<3, double, int>();
	else exactQuotient<2, float, double>();
}
ENTRY(equality_doubles) { equalityAll<1, double, double>(); equalityAll<3, double, double>(); equalityAll<4, double, double>(); }
ENTRY(equality_floats) { equalityAll<2, float, float>(); equalityAll<3, float, double>(); equalityAll<2, double, float>(); }
ENTRY(equality_ints) { equalityAll<2, int, int>(); equalityAll<3, int64_t, int64_t>(); equalityAll<3, int, int64_t>(); equalityAll<2, int, unsigned>(); equalityAll<2, uint8_t, int>(); }
ENTRY(equality_types) { equalityAll<2, int, double>(); equalityAll<2, int64_t, double>(); equalityAll<2, int, float>(); }
ENTRY(sums_all) { sumsAll<1, int>(); sumsAll<2, int>(); sumsAll<3, int>(); sumsAll<4, int>(); sumsAll<2, int64_t>(); sumsAll<3, int64_t>(); }
ENTRY(equality_long) { unsigned k = sx::choice(4, "dim"); if(k == 0) equalityAll<7, int, int>(); else if(k == 1) equalityAll<9, int64_t, int64_t>(); else if(k == 2) equalityAll<17, int, int>(); else equalityAll<33, uint8_t, uint8_t>(); }
ENTRY(sums_long) { sumsAll<8, int>(); sumsAll<17, int>(); sumsAll<33, int64_t>(); }
ENTRY(arith_8i) { arith<8, unsigned>(); }
ENTRY(arith_17i) { arith<17, unsigned>(); }
ENTRY(arith_1i) { arith<1, int>(); }
ENTRY(arith_5i) { arith<5, int>(); }
ENTRY(arith_6u) { arith<6, unsigned>(); }
ENTRY(equality_1i) { equality<1, int>(); }
ENTRY(equality_5i) { equality<5, int64_t>(); }
ENTRY(equality_6b) { equality<6, uint8_t>(); }
ENTRY(arith_2i) { arith<2, int>(); }
ENTRY(arith_3i) { arith<3, int>(); }
ENTRY(arith_4i) { arith<4, int>(); }
ENTRY(arith_2u) { arith<2, unsigned>(); }
ENTRY(arith_4u) { arith<4, uint64_t>(); }
ENTRY(equality_2i) { equality<2, int>(); }
ENTRY(equality_3i) { equality<3, int>(); }
ENTRY(equality_4u) { equality<4, uint64_t>(); }
#endif
#endif

#if SX_PART == 25
#ifdef SX_REAL
namespace {
template<size_t D> double dotRef(const double* a, const double* b) { double s = 0; for(size_t i = 0; i < D; ++i) s += a[i] * b[i]; return s; }
template<size_t D> void products() {
	In<D, double> a("a"), b("b");
	double s = 0, p = 1;
	for(size_t i = 0; i < D; ++i) { s += a.e[i]; p *= a.e[i]; }
	sx::same(nytl::sum(a.v), s, "sum adds all components");
	sx::same(nytl::multiply(a.v), p, "multiply multiplies all components");
	sx::same(nytl::dot(a.v, b.v), dotRef<D>(a.e, b.e), "dot is the sum of products");
	sx::same(nytl::dot(a.v, b.v), nytl::dot(b.v, a.v), "dot is symmetric");
	auto m = nytl::mirror(a.v, b.v);
	for(size_t i = 0; i < D; ++i) sx::same(m[i], 2 * a.e[i] - b.e[i], "mirror reflects the point at the mirror");
	a.kept(); b.kept();
}
template<size_t D> void lengths() {
	In<D, double> a("a"), b("b");
	double l = nytl::length(a.v), d = nytl::distance(a.v, b.v), d2 = nytl::distance(b.v, a.v);
	sx::same(l * l, dotRef<D>(a.e, a.e), "the squared length is the sum of squares");
	CHECK(l >= 0, "lengths are not negative");
	double q[D];
	for(size_t i = 0; i < D; ++i) q[i] = a.e[i] - b.e[i];
	sx::same(d * d, dotRef<D>(q, q), "the squared distance is the squared length of the difference");
	CHECK(d >= 0, "distances are not negative");
	sx::same(d2 * d2, d * d, "distances are symmetric");
	sx::same(nytl::distance(a.v, a.v), 0., "the distance to itself is 0");
}
template<size_t D> void normal() {
	In<D, double> a("a");
	double sq = dotRef<D>(a.e, a.e);
	sx::assume(sq > 0);
	double l = nytl::length(a.v);
	sx::assume(l > 0);
	auto n = nytl::normalized(a.v);
	auto m = a.v;
	nytl::normalize(m);
	for(size_t i = 0; i < D; ++i) {
		sx::same(n[i] * l, a.e[i], "a normalized vector has the same direction");
		sx::same(m[i] * l, a.e[i], "normalizing in place keeps the direction");
	}
	sx::same(nytl::dot(n, n), 1., "a normalized vector has length 1");
	sx::same(nytl::dot(m, m), 1., "a vector normalized in place has length 1");
	a.kept();
}
template<size_t D> void angles() {
	In<D, double> a("a"), b("b");
	sx::assume(dotRef<D>(a.e, a.e) > 0);
	sx::assume(dotRef<D>(b.e, b.e) > 0);
	double la = nytl::length(a.v), lb = nytl::length(b.v);
	sx::assume(la > 0); sx::assume(lb > 0);
	double v = dotRef<D>(a.e, b.e), ll = la * lb;
	sx::assume(ll > 0);
	double w = v / ll;
	sx::assume(w <= 1); sx::assume(w >= -1); // Cauchy-Schwarz
	double t = nytl::angle(a.v, b.v);
	sx::same(std::cos(t) * la * lb, v, "the cosine of the angle is the normalised dot product");
	CHECK(std::sin(t) >= 0, "angles are in [0, pi]");
	sx::same(std::cos(nytl::angle(b.v, a.v)) * la * lb, v, "angles are symmetric");
}
template<size_t D> void anglesNormed() {
	In<D, double> a("a"), b("b");
	double v = dotRef<D>(a.e, b.e);
	sx::assume(v <= 1); sx::assume(v >= -1);
	double t = nytl::angleNormed(a.v, b.v);
	sx::same(std::cos(t), v, "the cosine of the angle of unit vectors is the dot product");
	CHECK(std::sin(t) >= 0, "angles are in [0, pi]");
}
template<size_t D> void angleClamp() { // products beyond +-1, as rounding errors give them
	In<D, double> a("a"), b("b");
	double v = dotRef<D>(a.e, b.e);
	double t = nytl::angleNormed(a.v, b.v);
	if(v > 1) sx::same(std::cos(t), 1., "products above 1 are angle 0");
	else if(v < -1) sx::same(std::cos(t), -1., "products below -1 are angle pi");
}
}
namespace {
template<size_t D, typename A, typename B> void mixedProducts() {
	In<D, A> a("a"); In<D, B> b("b");
	using E = decltype(a.e[0] * b.e[0]);
	E s = 0;
	for(size_t i = 0; i < D; ++i) s += a.e[i] * b.e[i];
	CHECK((sameType<decltype(nytl::dot(a.v, b.v)), E> && sameType<decltype(nytl::dot(b.v, a.v)), E>), "results have the type of the component expression");
	eqv<E>(nytl::dot(a.v, b.v), s, "dot is the sum of products"); eqv<E>(nytl::dot(b.v, a.v), s, "dot is the sum of products");
	if constexpr(D == 3) {
		auto c = nytl::cross(a.v, b.v);
		MIX(c, a.e[(i + 1) % 3] * b.e[(i + 2) % 3] - a.e[(i + 2) % 3] * b.e[(i + 1) % 3], "the cross product")
	}
	if constexpr(D == 2) {
		auto c = nytl::cross(a.v, b.v);
		CHECK((sameType<decltype(c), E>), "results have the type of the component expression");
		eqv<E>(c, a.e[0] * b.e[1] - a.e[1] * b.e[0], "the two dimensional cross product");
	}
	double d = nytl::distance(a.v, b.v), e = nytl::distance(b.v, a.v), q = 0;
	for(size_t i = 0; i < D; ++i) { double x = double(a.e[i]) - double(b.e[i]); q += x * x; }
	sx::same(d * d, q, "the squared distance is the squared length of the difference");
	sx::same(e * e, q, "the squared distance is the squared length of the difference");
}
template<size_t D, typename T> void lengthOf() {
	In<D, T> a("a");
	double l = nytl::length(a.v), q = 0;
	for(size_t i = 0; i < D; ++i) q += double(a.e[i]) * double(a.e[i]);
	sx::same(l * l, q, "the squared length is the sum of squares");
	CHECK(l >= 0, "lengths are not negative");
	if constexpr(!std::is_unsigned_v<T>) {
		sx::assume(q > 0);
		auto n = nytl::normalized(a.v);
		for(size_t i = 0; i < D; ++i) sx::same(double(n[i]) * l, double(a.e[i]), "a normalized vector has the same direction");
	}
}
}
ENTRY(mixed_id) { mixedProducts<2, int, double>(); mixedProducts<3, int, double>(); mixedProducts<4, double, int>(); }
ENTRY(mixed_fd) { mixedProducts<2, float, double>(); mixedProducts<3, double, float>(); mixedProducts<4, float, double>(); }
ENTRY(mixed_if) { mixedProducts<2, int, float>(); mixedProducts<3, float, int>(); }
ENTRY(length_int) { lengthOf<2, int>(); }
ENTRY(length_int8) { lengthOf<3, int8_t>(); lengthOf<4, int8_t>(); }
ENTRY(length_small) { lengthOf<2, uint8_t>(); lengthOf<3, uint8_t>(); }
ENTRY(length_float) { lengthOf<2, float>(); lengthOf<3, float>(); lengthOf<4, float>(); }
ENTRY(products_5) { products<5>(); }
ENTRY(products_8) { products<8>(); }
ENTRY(products_9) { products<9>(); }
ENTRY(products_17) { products<17>(); }
ENTRY(lengths_9) { lengths<9>(); }
ENTRY(normal_7) { normal<7>(); }
ENTRY(lengths_1) { lengths<1>(); }
ENTRY(lengths_4) { lengths<4>(); }
ENTRY(lengths_6) { lengths<6>(); }
ENTRY(normal_1) { normal<1>(); }
ENTRY(normal_5) { normal<5>(); }
#if SX_THOROUGH
ENTRY(angles_4) { angles<4>(); }
#endif

ENTRY(angles_normed_4) { anglesNormed<4>(); anglesNormed<5>(); }
ENTRY(products_1) { products<1>(); }
ENTRY(products_2) { products<2>(); }
ENTRY(products_3) { products<3>(); }
ENTRY(products_4) { products<4>(); }
ENTRY(products_6) { products<6>(); }
ENTRY(lengths_2) { lengths<2>(); }
ENTRY(lengths_3) { lengths<3>(); }
ENTRY(lengths_5) { lengths<5>(); }
ENTRY(normal_2) { normal<2>(); }
ENTRY(normal_3) { normal<3>(); }
ENTRY(normal_4) { normal<4>(); }
ENTRY(angles_2) { angles<2>(); }
ENTRY(angles_3) { angles<3>(); }
ENTRY(angles_normed) { anglesNormed<2>(); anglesNormed<3>(); }
ENTRY(angle_clamp) { angleClamp<2>(); angleClamp<3>(); }
ENTRY(angle_self) {
	In<3, double> a("a");
	sx::assume(dotRef<3>(a.e, a.e) > 0);
	sx::same(std::cos(nytl::angle(a.v, a.v)), 1., "the angle between equal vectors is 0");
}
ENTRY(cross_3) {
	In<3, double> a("a"), b("b");
	auto c = nytl::cross(a.v, b.v);
	for(size_t i = 0; i < 3; ++i) sx::same(c[i], a.e[(i + 1) % 3] * b.e[(i + 2) % 3] - a.e[(i + 2) % 3] * b.e[(i + 1) % 3], "the cross product");
	sx::same(nytl::dot(c, a.v), 0., "the cross product is orthogonal to both vectors");
	sx::same(nytl::dot(c, b.v), 0., "the cross product is orthogonal to both vectors");
	auto d = nytl::cross(b.v, a.v);
	for(size_t i = 0; i < 3; ++i) sx::same(d[i], -c[i], "the cross product is anticommutative");
	double v = nytl::dot(a.v, b.v);
	sx::same(nytl::dot(c, c), nytl::dot(a.v, a.v) * nytl::dot(b.v, b.v) - v * v, "the length of the cross product is the area");
	a.kept(); b.kept();
}
ENTRY(cross_2) {
	In<2, double> a("a"), b("b");
	sx::same(nytl::cross(a.v, b.v), a.e[0] * b.e[1] - a.e[1] * b.e[0], "the two dimensional cross product");
}
ENTRY(normals) {
	In<2, double> a("a");
	auto rl = nytl::rho::lnormal(a.v), rr = nytl::rho::rnormal(a.v), ll = nytl::lho::lnormal(a.v), lr = nytl::lho::rnormal(a.v);
	sx::same(rl[0], -a.e[1], "left normals"); sx::same(rl[1], a.e[0], "left normals");
	sx::same(ll[0], a.e[1], "left normals"); sx::same(ll[1], -a.e[0], "left normals");
	sx::same(rr[0], a.e[1], "right normals"); sx::same(rr[1], -a.e[0], "right normals");
	sx::same(lr[0], -a.e[1], "right normals"); sx::same(lr[1], a.e[0], "right normals");
}
#else
namespace {
template<size_t D, typename T> void productsInt() {
	In<D, T> a("a"), b("b");
	T s = 0, p = 1, d = 0;
	for(size_t i = 0; i < D; ++i) { s += a.e[i]; p *= a.e[i]; d += a.e[i] * b.e[i]; }
	sx::same((T)nytl::sum(a.v), s, "sum adds all components");
	sx::same((T)nytl::multiply(a.v), p, "multiply multiplies all components");
	sx::same((T)nytl::dot(a.v, b.v), d, "dot is the sum of products");
	if constexpr(D == 3) {
		auto c = nytl::cross(a.v, b.v);
		for(size_t i = 0; i < 3; ++i) sx::same((T)c[i], T(a.e[(i + 1) % 3] * b.e[(i + 2) % 3] - a.e[(i + 2) % 3] * b.e[(i + 1) % 3]), "the cross product");
	}
	auto m = nytl::mirror(a.v, b.v);
	for(size_t i = 0; i < D; ++i) sx::same((T)m[i], T(2 * a.e[i] - b.e[i]), "mirror reflects the point at the mirror");
}
}
namespace {
template<size_t D, typename A, typename B> void smallProducts() { // of types smaller than int
	In<D, A> a("a"); In<D, B> b("b");
	using E = decltype(a.e[0] * b.e[0]);
	E s = 0;
	for(size_t i = 0; i < D; ++i) s += a.e[i] * b.e[i];
	CHECK((sameType<decltype(nytl::dot(a.v, b.v)), E> && sameType<decltype(nytl::dot(b.v, a.v)), E>), "results have the type of the component expression");
	CHECK(nytl::dot(a.v, b.v) == s && nytl::dot(b.v, a.v) == s, "dot is the sum of products");
	if constexpr(D == 3) {
		auto c = nytl::cross(a.v, b.v);
		MIX(c, a.e[(i + 1) % 3] * b.e[(i + 2) % 3] - a.e[(i + 2) % 3] * b.e[(i + 1) % 3], "the cross product")
	}
	if constexpr(D == 2) {
		auto c = nytl::cross(a.v, b.v);
		CHECK((sameType<decltype(c), E>), "results have the type of the component expression");
		CHECK(c == a.e[0] * b.e[1] - a.e[1] * b.e[0], "the two dimensional cross product");
	}
}
template<size_t D, typename T> void farDistance() { // points far from the origin
	constexpr double os[] = {0., 1e4, -1e7, 1e9, 1e12};
	T o = (T) os[sx::choice(std::is_same_v<T, double> ? 5 : 2, "o")];
	T d = (T) (sx::choice(2, "d") ? 0.5 : 4.);
	unsigned at = sx::choice(D, "at");
	Vec<D, T> a {}, b {};
	for(size_t i = 0; i < D; ++i) { a[i] = o + T(int(i)); b[i] = a[i]; }
	b[at] += d;
	CHECK(nytl::distance(a, b) == d && nytl::distance(b, a) == d && nytl::distance(a, a) == 0, "the distance does not depend on the distance to the origin");
	auto m = nytl::mirror(a, b);
	for(size_t i = 0; i < D; ++i) CHECK(m[i] == (i == at ? a[i] - d : a[i]), "mirror reflects the point at the mirror");
}
}
ENTRY(small_bytes) { smallProducts<2, int8_t, int8_t>(); smallProducts<2, uint8_t, uint8_t>(); }
ENTRY(small_bytes_3) { smallProducts<3, int8_t, int8_t>(); smallProducts<3, uint8_t, uint8_t>(); }
ENTRY(small_shorts) { smallProducts<2, short, int8_t>(); smallProducts<4, int8_t, int8_t>(); }
ENTRY(far_distance_2) { farDistance<2, double>(); }
ENTRY(far_distance_3) { farDistance<3, float>(); }
ENTRY(far_distance_5) { farDistance<5, double>(); }
// Rounding: parallel vectors, whose product is sometimes slightly larger than the product of their lengths
namespace {
template<typename T> void parallel(double eps) {
	static const double by[] = {1., 3., 0.1, 1e6, -1., -0.7, -3e5};
	T x = (T)((int)sx::choice(7, "x") / T(10)), y = (T)((1 + (int)sx::choice(6, "y")) / T(10)), z = (T)((int)sx::choice(2, "z") / T(3));
	T k = (T)by[sx::choice(7, "k")];
	Vec<2, T> a2 {x, y}, b2 {x * k, y * k};
	Vec<3, T> a3 {x, y, z}, b3 {x * k, y * k, z * k};
	double want = k < 0 ? 3.14159265358979323846 : 0;
	auto ok = [&](double v) { return v >= 0 && std::fabs(v - want) < eps; };
	CHECK(ok(nytl::angle(a2, b2)) && ok(nytl::angle(a3, b3)) && ok(nytl::angle(b3, a3)), "the angle between parallel vectors is 0 or pi");
	Vec<3, T> p3 {-y, x, T(0)};
	CHECK(std::fabs(double(nytl::angle(a3, p3)) - 1.5707963267948966) < eps, "the angle between orthogonal vectors");
	auto n = nytl::normalized(a3), m = nytl::normalized(b3);
	CHECK(ok(nytl::angleNormed(n, m)), "the angle between parallel vectors is 0 or pi");
	CHECK(std::fabs(double(nytl::length(n)) - 1) < eps && std::fabs(double(nytl::length(m)) - 1) < eps, "a normalized vector has length 1");
}
}
ENTRY(parallel_double) { parallel<double>(1e-7); }
ENTRY(parallel_float) { parallel<float>(2e-3); }
ENTRY(products_2i) { productsInt<2, int>(); }
ENTRY(products_3i) { productsInt<3, int>(); }
ENTRY(products_3u) { productsInt<3, unsigned>(); }
ENTRY(products_7u) { productsInt<7, unsigned>(); }
ENTRY(products_9u) { productsInt<9, unsigned>(); }
ENTRY(products_17u) { productsInt<17, unsigned>(); }
ENTRY(products_33u) { productsInt<33, unsigned>(); }
ENTRY(products_4u) { productsInt<4, uint64_t>(); }
ENTRY(product_types) {
	In<3, int> a("a"); In<3, double> b("b");
	Vec<3, uint8_t> c {200, 100, 50};
	CHECK((sameType<decltype(nytl::dot(a.v, b.v)), double> && sameType<decltype(nytl::cross(a.v, b.v)), Vec<3, double>> && sameType<decltype(nytl::length(a.v)), double> && sameType<decltype(nytl::sum(b.v)), double>), "results have the type of the component expression");
	CHECK(nytl::sum(c) == 350 && nytl::dot(c, c) == 52500 && nytl::multiply(c) == 1000000, "sums of small types do not overflow");
	Vec<2, int> p {3, 4};
	CHECK(nytl::length(p) == 5 && nytl::distance(p, Vec<2, int>{0, 8}) == 5, "lengths of integer vectors");
}
#endif
#endif

#if SX_PART == 26
namespace cw = nytl::vec::cw;
namespace {
template<size_t D, typename T> void minmax() {
	In<D, T> a("a"), b("b");
	T s = num<T>("s");
	unsigned op = sx::choice(4, "op");
	auto r = op == 0 ? cw::max(a.v, b.v) : op == 1 ? cw::min(a.v, b.v) : op == 2 ? cw::max(a.v, s) : cw::min(a.v, s);
	for(size_t i = 0; i < D; ++i) {
		T o = op < 2 ? b.e[i] : s, hi = a.e[i] < o ? o : a.e[i], lo = a.e[i] < o ? a.e[i] : o;
		if(op == 0) sx::same(r[i], hi, "component-wise maximum");
		else if(op == 1) sx::same(r[i], lo, "component-wise minimum");
		else if(op == 2) sx::same(r[i], hi, "maximum with a scalar");
		else sx::same(r[i], lo, "minimum with a scalar");
	}
	a.kept(); b.kept();
}
template<size_t D, typename T> void clamps() {
	In<D, T> a("a"), l("low"), h("high");
	T sl = num<T>("sl"), sh = num<T>("sh");
	sx::assume(sl <= sh);
	for(size_t i = 0; i < D; ++i) sx::assume(l.e[i] <= h.e[i]);
	unsigned op = sx::choice(4, "op");
	auto x = a.v;
	if(op == 0) x = cw::clamp(a.v, l.v, h.v);
	else if(op == 1) cw::ip::clamp(x, l.v, h.v);
	else if(op == 2) x = cw::clamp(a.v, sl, sh);
	else cw::ip::clamp(x, sl, sh);
	for(size_t i = 0; i < D; ++i) {
		T lo = op < 2 ? l.e[i] : sl, hi = op < 2 ? h.e[i] : sh;
		T r = a.e[i] < lo ? lo : a.e[i] > hi ? hi : a.e[i];
		if(op < 2) sx::same(x[i], r, "component-wise clamping");
		else sx::same(x[i], r, "clamping to a scalar range");
	}
	a.kept(); l.kept(); h.kept();
}
template<size_t D, typename T> void products() {
	In<D, T> a("a"), b("b");
	T s = num<T>("s");
	auto p = cw::multiply(a.v, b.v);
	auto x = a.v;
	using namespace cw::operators;
	auto q = a.v * b.v;
	auto& rx = (x *= b.v);
	CHECK(&rx == &x, "compound assignment returns its object");
	auto as = a.v + s; auto sa = s + a.v; auto ms = a.v - s; auto sm = s - a.v;
	auto sq = a.v; sq *= sq;
	for(size_t i = 0; i < D; ++i) {
		sx::same((T)p[i], T(a.e[i] * b.e[i]), "component-wise product");
		sx::same((T)q[i], T(a.e[i] * b.e[i]), "component-wise product operator");
		sx::same((T)x[i], T(a.e[i] * b.e[i]), "component-wise product in place");
		sx::same((T)sq[i], T(a.e[i] * a.e[i]), "component-wise product with itself");
		sx::same((T)as[i], T(a.e[i] + s), "adding a scalar to every component");
		sx::same((T)sa[i], T(a.e[i] + s), "adding a scalar to every component");
		sx::same((T)ms[i], T(a.e[i] - s), "subtracting a scalar from every component");
		sx::same((T)sm[i], T(s - a.e[i]), "subtracting every component from a scalar");
	}
	a.kept(); b.kept();
}
}
#ifdef SX_REAL
namespace {
template<size_t D> void quotients() {
	In<D, double> a("a"), b("b");
	for(size_t i = 0; i < D; ++i) sx::assume(b.e[i] != 0);
	auto p = cw::divide(a.v, b.v);
	auto x = a.v;
	using namespace cw::operators;
	auto q = a.v / b.v;
	x /= b.v;
	for(size_t i = 0; i < D; ++i) {
		sx::same(p[i] * b.e[i], a.e[i], "component-wise quotient");
		sx::same(q[i] * b.e[i], a.e[i], "component-wise quotient operator");
		sx::same(x[i] * b.e[i], a.e[i], "component-wise quotient in place");
	}
	a.kept(); b.kept();
}
}
ENTRY(products_9) { products<9, double>(); }
ENTRY(quotients_9) { quotients<9>(); }
ENTRY(minmax_7) { minmax<7, double>(); }
ENTRY(minmax_1) { minmax<1, double>(); }
ENTRY(minmax_4) { minmax<4, double>(); }
ENTRY(minmax_5) { minmax<5, double>(); }
ENTRY(clamps_1) { clamps<1, double>(); }
ENTRY(clamps_3) { clamps<3, double>(); }
ENTRY(clamps_4) { clamps<4, double>(); }
ENTRY(products_5) { products<5, double>(); }
ENTRY(products_2f) { products<2, float>(); }
ENTRY(quotients_1) { quotients<1>(); }
ENTRY(quotients_5) { quotients<5>(); }
namespace {
template<size_t D, typename A, typename B> void mixed() {
	In<D, A> a("a"); In<D, B> b("b");
	A f = num<A>("f"); B g = num<B>("g");
	MIX(cw::multiply(a.v, b.v), a.e[i] * b.e[i], "mixed component-wise product")
	using namespace cw::operators;
	MIX(a.v * b.v, a.e[i] * b.e[i], "mixed component-wise product") MIX(b.v * a.v, a.e[i] * b.e[i], "mixed component-wise product")
	MIX(a.v + g, a.e[i] + g, "adding a scalar to every component") MIX(g + a.v, g + a.e[i], "adding a scalar to every component")
	MIX(b.v + f, b.e[i] + f, "adding a scalar to every component") MIX(f + b.v, f + b.e[i], "adding a scalar to every component")
	MIX(a.v - g, a.e[i] - g, "subtracting a scalar from every component") MIX(g - a.v, g - a.e[i], "subtracting every component from a scalar")
	MIX(b.v - f, b.e[i] - f, "subtracting a scalar from every component") MIX(f - b.v, f - b.e[i], "subtracting every component from a scalar")
	if constexpr(std::is_floating_point_v<A>) { auto x = a.v; x *= b.v; MIX(x, A(a.e[i] * b.e[i]), "component-wise product in place") }
	for(size_t i = 0; i < D; ++i) { sx::assume(a.e[i] != 0); sx::assume(b.e[i] != 0); }
	MIX(cw::divide(a.v, b.v), a.e[i] / b.e[i], "mixed component-wise quotient")
	MIX(a.v / b.v, a.e[i] / b.e[i], "mixed component-wise quotient") MIX(b.v / a.v, b.e[i] / a.e[i], "mixed component-wise quotient")
	if constexpr(std::is_floating_point_v<A>) { auto x = a.v; x /= b.v; MIX(x, A(a.e[i] / b.e[i]), "component-wise quotient in place") }
}
}
ENTRY(mixed_id) { mixed<2, int, double>(); mixed<3, double, int>(); mixed<4, int, double>(); }
ENTRY(mixed_fd) { mixed<2, float, double>(); mixed<3, double, float>(); mixed<4, float, double>(); }
ENTRY(mixed_if) { mixed<2, int, float>(); mixed<3, float, int>(); }
ENTRY(minmax_2) { minmax<2, double>(); }
ENTRY(minmax_3) { minmax<3, double>(); }
ENTRY(clamps_2) { clamps<2, double>(); }
ENTRY(products_2) { products<2, double>(); }
ENTRY(products_3) { products<3, double>(); }
ENTRY(products_4) { products<4, double>(); }
ENTRY(quotients_2) { quotients<2>(); }
ENTRY(quotients_3) { quotients<3>(); }
ENTRY(quotients_4) { quotients<4>(); }
#else
namespace {
template<size_t D, typename A, typename B> void small() { // types smaller than int
	In<D, A> a("a"); In<D, B> b("b");
	A f = num<A>("f"); B g = num<B>("g");
	MIX(cw::multiply(a.v, b.v), a.e[i] * b.e[i], "mixed component-wise product")
	using namespace cw::operators;
	MIX(a.v * b.v, a.e[i] * b.e[i], "mixed component-wise product")
	MIX(a.v + g, a.e[i] + g, "adding a scalar to every component") MIX(f + b.v, f + b.e[i], "adding a scalar to every component")
	MIX(a.v - g, a.e[i] - g, "subtracting a scalar from every component") MIX(f - b.v, f - b.e[i], "subtracting every component from a scalar")
	for(size_t i = 0; i < D; ++i) { sx::assume(a.e[i] != 0); sx::assume(b.e[i] != 0); }
	MIX(cw::divide(a.v, b.v), a.e[i] / b.e[i], "mixed component-wise quotient")
	MIX(b.v / a.v, b.e[i] / a.e[i], "mixed component-wise quotient")
}
template<size_t D, typename T> void fractions() { // integer vectors changed in place by fractions
	constexpr double fs[] = {1.5, 0.25, -0.5, -2.75, 3., 0.75};
	Vec<D, T> v {};
	Vec<D, double> w {};
	int k = (int) sx::choice(5, "v") * 3 + 4;
	for(size_t i = 0; i < D; ++i) { v[i] = T(k + int(i)); w[i] = fs[(sx::choice(6, "w") + i) % 6]; }
	using namespace cw::operators;
	auto x = v; x *= w;
	auto y = v; y /= w;
	for(size_t i = 0; i < D; ++i) {
		CHECK(x[i] == T(double(v[i]) * w[i]), "component-wise product in place is rounded afterwards");
		CHECK(y[i] == T(double(v[i]) / w[i]), "component-wise quotient in place is rounded afterwards");
	}
}
template<size_t D> void clampsWide() { // values that double cannot represent
	Vec<D, int64_t> a {}, l {}, h {};
	int64_t sl = sx::val<int64_t>("sl"), sh = sx::val<int64_t>("sh");
	sx::assume(sl <= sh);
	for(size_t i = 0; i < D; ++i) { a[i] = sx::val<int64_t>("a"); l[i] = sx::val<int64_t>("l"); h[i] = sx::val<int64_t>("h"); sx::assume(l[i] <= h[i]); }
	unsigned op = sx::choice(4, "op");
	auto x = a;
	if(op == 0) x = cw::clamp(a, l, h);
	else if(op == 1) cw::ip::clamp(x, l, h);
	else if(op == 2) x = cw::clamp(a, sl, sh);
	else cw::ip::clamp(x, sl, sh);
	for(size_t i = 0; i < D; ++i) {
		int64_t lo = op < 2 ? l[i] : sl, hi = op < 2 ? h[i] : sh;
		CHECK(x[i] == (a[i] < lo ? lo : a[i] > hi ? hi : a[i]), "component-wise clamping");
	}
	auto mx = cw::max(a, l), mn = cw::min(a, l), ms = cw::max(a, sl), ns = cw::min(a, sl);
	for(size_t i = 0; i < D; ++i) {
		CHECK(mx[i] == (a[i] < l[i] ? l[i] : a[i]) && mn[i] == (a[i] < l[i] ? a[i] : l[i]), "component-wise maximum and minimum");
		CHECK(ms[i] == (a[i] < sl ? sl : a[i]) && ns[i] == (a[i] < sl ? a[i] : sl), "maximum and minimum with a scalar");
	}
}
}
ENTRY(small_bytes) { small<2, int8_t, int8_t>(); }
ENTRY(small_ubytes) { small<2, uint8_t, uint8_t>(); }
ENTRY(small_shorts) { small<2, uint8_t, int8_t>(); small<3, uint8_t, short>(); }
ENTRY(fractions_2) { fractions<2, int>(); }
ENTRY(fractions_3) { fractions<3, int64_t>(); }
ENTRY(fractions_4) { fractions<4, short>(); }
ENTRY(clamps_wide_1) { clampsWide<1>(); }
ENTRY(clamps_wide_2) { clampsWide<2>(); }
ENTRY(minmax_5i) { minmax<5, int>(); }
ENTRY(minmax_4l) { minmax<4, int64_t>(); }
ENTRY(clamps_1i) { clamps<1, int>(); }
ENTRY(clamps_4i) { clamps<4, int>(); }
ENTRY(clamps_5u) { clamps<5, unsigned>(); }
ENTRY(products_5i) { products<5, int>(); }
ENTRY(minmax_2i) { minmax<2, int>(); }
ENTRY(minmax_3i) { minmax<3, int>(); }
ENTRY(minmax_4u) { minmax<4, unsigned>(); }
ENTRY(clamps_2i) { clamps<2, int>(); }
ENTRY(clamps_3i) { clamps<3, int>(); }
ENTRY(products_2i) { products<2, int>(); }
ENTRY(products_3u) { products<3, unsigned>(); }
ENTRY(products_4u) { products<4, uint64_t>(); }
namespace {
template<size_t D> void minmaxLong() { // one or two components arbitrary
	Vec<D, int> a {}, b {}, l {}, h {};
	for(size_t i = 0; i < D; ++i) { a[i] = (int)(i * 7 % 5); b[i] = (int)(i * 3 % 5); l[i] = (int)(i % 3); h[i] = l[i] + 1; }
	size_t k = sx::choice(D, "at");
	a[k] = sx::i32("a"); b[k] = sx::i32("b"); l[k] = sx::i32("l"); h[k] = sx::i32("h");
	sx::assume(l[k] <= h[k]);
	auto mx = cw::max(a, b), mn = cw::min(a, b), c = cw::clamp(a, l, h), d = a;
	cw::ip::clamp(d, l, h);
	for(size_t i = 0; i < D; ++i) {
		CHECK(mx[i] == (a[i] < b[i] ? b[i] : a[i]), "component-wise maximum");
		CHECK(mn[i] == (a[i] < b[i] ? a[i] : b[i]), "component-wise minimum");
		int r = a[i] < l[i] ? l[i] : a[i] > h[i] ? h[i] : a[i];
		CHECK(c[i] == r && d[i] == r, "component-wise clamping");
	}
}
// the standard function on every component, in place and as copy
#define FUNCS(X) X(abs) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sqrt) X(log) X(exp) X(exp2) X(floor) X(ceil)
template<size_t D, typename T> void functions() {
	In<D, T> a("a");
#define ONE(F) { auto x = a.v; cw::ip::F(x); auto y = cw::F(a.v); for(size_t i = 0; i < D; ++i) { sx::same(x[i], (T)std::F(a.e[i]), "cw::ip::" #F " applies the function to every component"); sx::same(y[i], (T)std::F(a.e[i]), "cw::" #F " applies the function to every component"); } }
	FUNCS(ONE)
	a.kept();
}
template<size_t D, typename T> void powers() {
	In<D, T> a("a"), b("b");
	T e = num<T>("e");
	auto p = cw::pow(a.v, b.v), q = cw::pow(a.v, e);
	auto x = a.v, y = a.v;
	cw::ip::pow(x, b.v);
	cw::ip::pow(y, e);
	for(size_t i = 0; i < D; ++i) {
		sx::same(p[i], (T)std::pow(a.e[i], b.e[i]), "component-wise power");
		sx::same(x[i], (T)std::pow(a.e[i], b.e[i]), "component-wise power in place");
		sx::same(q[i], (T)std::pow(a.e[i], e), "power with a scalar exponent");
		sx::same(y[i], (T)std::pow(a.e[i], e), "power with a scalar exponent in place");
	}
	a.kept(); b.kept();
}
// exponents of another type than the components
template<size_t D, typename T, typename E> void mixedPowers() {
	In<D, T> a("a"); In<D, E> b("b");
	E e = num<E>("e");
	T v[D], w[D];
	for(size_t i = 0; i < D; ++i) {
		auto x = std::pow(a.e[i], b.e[i]), y = std::pow(a.e[i], e);
		if(std::is_integral<T>::value) sx::assume(x > -1e9 && x < 1e9 && y > -1e9 && y < 1e9);
		v[i] = (T)x; w[i] = (T)y;
	}
	auto p = cw::pow(a.v, b.v), q = cw::pow(a.v, e);
	auto x = a.v, y = a.v;
	cw::ip::pow(x, b.v);
	cw::ip::pow(y, e);
	for(size_t i = 0; i < D; ++i) {
		sx::same(p[i], v[i], "component-wise power");
		sx::same(x[i], v[i], "component-wise power in place");
		sx::same(q[i], w[i], "power with a scalar exponent");
		sx::same(y[i], w[i], "power with a scalar exponent in place");
	}
	a.kept(); b.kept();
}
// scalars and vectors that are (components of) the changed vector itself
template<size_t D, typename T> void aliasing() {
	In<D, T> a("a");
	for(size_t k = 0; k < D; ++k) {
		auto x = a.v; cw::ip::pow(x, x[k]);
		for(size_t i = 0; i < D; ++i) sx::same(x[i], (T)std::pow(a.e[i], a.e[k]), "power with an own component as exponent");
		x = a.v; x = cw::pow(x, x[k]);
		for(size_t i = 0; i < D; ++i) sx::same(x[i], (T)std::pow(a.e[i], a.e[k]), "power with an own component as exponent");
	}
	auto x = a.v; cw::ip::pow(x, x);
	for(size_t i = 0; i < D; ++i) sx::same(x[i], (T)std::pow(a.e[i], a.e[i]), "power with itself");
}
template<size_t D, typename T> void aliasingRange() {
	In<D, T> a("a");
	T s = num<T>("s");
	using namespace cw::operators;
	for(size_t k = 0; k < D; ++k) {
		auto x = a.v;
		if(a.e[k] <= s) cw::ip::clamp(x, x[k], s);
		else cw::ip::clamp(x, s, x[k]);
		for(size_t i = 0; i < D; ++i) {
			T lo = a.e[k] <= s ? a.e[k] : s, hi = a.e[k] <= s ? s : a.e[k];
			sx::same(x[i], a.e[i] < lo ? lo : a.e[i] > hi ? hi : a.e[i], "clamping to an own component");
		}
		x = a.v; x = cw::max(x, x[k]); auto y = a.v; y = cw::min(y, y[k]);
		auto p = a.v; p = p + p[k]; auto q = a.v; q = q[k] - q;
		for(size_t i = 0; i < D; ++i) {
			sx::same(x[i], a.e[i] < a.e[k] ? a.e[k] : a.e[i], "maximum with an own component");
			sx::same(y[i], a.e[k] < a.e[i] ? a.e[k] : a.e[i], "minimum with an own component");
			sx::same(p[i], T(a.e[i] + a.e[k]), "adding an own component");
			sx::same(q[i], T(a.e[k] - a.e[i]), "subtracting from an own component");
		}
	}
	auto x = a.v; cw::ip::clamp(x, x, x); x = cw::max(x, x); x = cw::min(x, x);
	for(size_t i = 0; i < D; ++i) sx::same(x[i], a.e[i], "a vector is its own range, maximum and minimum");
}
}
ENTRY(products_17u) { products<17, unsigned>(); }
ENTRY(products_7i) { products<7, int>(); }
ENTRY(functions_9) { functions<9, double>(); }
ENTRY(powers_9) { powers<9, double>(); }
ENTRY(minmax_9b) { minmaxLong<9>(); }
ENTRY(minmax_17b) { minmaxLong<17>(); }
ENTRY(aliasing_pow) { aliasing<2, double>(); aliasing<3, float>(); }
ENTRY(aliasing_range) { aliasingRange<2, int>(); }
ENTRY(aliasing_range3) { aliasingRange<3, unsigned>(); }
ENTRY(powers_mixed_id) { mixedPowers<2, int, double>(); }
ENTRY(powers_mixed_fd) { mixedPowers<2, float, double>(); }
ENTRY(powers_mixed_di) { mixedPowers<2, double, int>(); }
ENTRY(powers_mixed_ii) { mixedPowers<2, int, int>(); }
ENTRY(functions_1) { functions<1, double>(); }
ENTRY(functions_4) { functions<4, double>(); }
ENTRY(functions_5) { functions<5, double>(); }
ENTRY(powers_1) { powers<1, double>(); }
ENTRY(powers_5) { powers<5, double>(); }
ENTRY(functions_2) { functions<2, double>(); }
ENTRY(functions_3) { functions<3, double>(); }
ENTRY(functions_4f) { functions<4, float>(); }
ENTRY(powers_2) { powers<2, double>(); }
ENTRY(powers_3) { powers<3, double>(); }
ENTRY(powers_4) { powers<4, double>(); }
ENTRY(quotients_int) {
	In<3, int> a("a"), b("b");
	for(size_t i = 0; i < 3; ++i) sx::assume(b.e[i] != 0);
	auto p = cw::divide(a.v, b.v);
	for(size_t i = 0; i < 3; ++i) CHECK(p[i] == a.e[i] / b.e[i], "component-wise integer quotient");
}
ENTRY(cw_types) {
	In<2, int> a("a"); In<2, double> b("b");
	auto p = cw::multiply(a.v, b.v); auto q = cw::divide(b.v, a.v);
	CHECK((sameType<decltype(p), Vec<2, double>> && sameType<decltype(q), Vec<2, double>>), "the value type is that of the component expression");
	for(size_t i = 0; i < 2; ++i) { sx::same((double)p[i], a.e[i] * b.e[i], "mixed component-wise product"); sx::same((double)q[i], b.e[i] / a.e[i], "mixed component-wise quotient"); }
	using namespace cw::operators;
	auto s = a.v + b.e[0]; auto t = b.e[0] - a.v;
	CHECK((sameType<decltype(s), Vec<2, double>> && sameType<decltype(t), Vec<2, double>>), "the value type is that of the component expression");
	for(size_t i = 0; i < 2; ++i) { sx::same((double)s[i], a.e[i] + b.e[0], "adding a real number to an integer vector"); sx::same((double)t[i], b.e[0] - a.e[i], "subtracting an integer vector from a real number"); }
}
#endif
#endif

#if SX_PART == 27
namespace {
template<size_t D, typename T> void access() {
	Vec<D, T> v {};
	for(size_t i = 0; i < D; ++i) CHECK(v[i] == T(0), "value initialised vectors are zero");
	T e[D];
	for(size_t i = 0; i < D; ++i) v[i] = e[i] = sx::val<T>("e");
	const auto& c = v;
	CHECK((v.size() == D && Vec<D, T>::size() == D && size_t(v.end() - v.begin()) == D && size_t(c.end() - c.begin()) == D), "the size of a vector");
	CHECK(sizeof(v) == D * sizeof(T) && (const void*)v.data() == (const void*)&v && (const void*)c.data() == (const void*)&v, "components are stored contiguously");
	size_t i = sx::u8("i");
	sx::assume(i < D);
	i = __sx_concretize(i);
	CHECK(c[i] == e[i] && v[i] == e[i], "v[i] is the i-th component");
	CHECK(&v[i] == v.data() + i && &c[i] == c.data() + i && &*(v.begin() + i) == v.data() + i && &*(c.begin() + i) == c.data() + i, "all kinds of access designate the same component");
	CHECK(&v.front() == &v[0] && &v.back() == &v[D - 1] && &c.front() == &c[0] && &c.back() == &c[D - 1], "front and back");
	if constexpr(D == 2 || D == 3) CHECK(&v.x == &v[0] && &v.y == &v[1], "x, y, z are the components");
	if constexpr(D == 3) CHECK(&v.z == &v[2], "x, y, z are the components");
	T n = sx::val<T>("n");
	v[i] = n;
	for(size_t k = 0; k < D; ++k) CHECK(v[k] == (k == i ? n : e[k]), "writing a component changes only that one");
	size_t k = 0;
	for(auto& x : v) { CHECK(&x == &v[k], "iteration visits the components in order"); ++k; }
	CHECK(k == D, "iteration visits the components in order");
}
template<size_t D> void outside() {
	Vec<D, int> v {};
	const auto& c = v;
	size_t i = sx::u64("i");
	bool thrown = false;
	try { if(sx::flag("const")) (void)c[i]; else v[i] = 1; } catch(const std::out_of_range&) { thrown = true; }
	CHECK(thrown == (i >= D), "positions outside throw out_of_range");
}
void same(double a, double b, const char* id) { sx::same(a, b, id); }
template<typename U> std::enable_if_t<std::is_integral_v<U>> same(U a, U b, const char* id) { __sx_assert(a == b, id); }
template<size_t D, size_t E, typename T, typename U> void convert() {
	Vec<D, T> v {};
	for(size_t i = 0; i < D; ++i) v[i] = sx::val<T>("e");
	auto w = static_cast<Vec<E, U>>(v);
	for(size_t i = 0; i < E; ++i) same((U)w[i], i < D ? (U)v[i] : U(0), "conversion keeps the common components and fills up with zeros");
}
template<size_t D, typename U> void convertSmall() { // float to integer
	Vec<D, double> v {};
	for(size_t i = 0; i < D; ++i) { v[i] = sx::f64("e"); sx::assume(v[i] > -1000 && v[i] < 1000); }
	auto w = static_cast<Vec<D, U>>(v);
	for(size_t i = 0; i < D; ++i) CHECK(w[i] == (U)v[i], "conversion to integers truncates");
}
template<size_t D, size_t A> void simplex() {
	nytl::Simplex<D, int, A> s {};
	CHECK((s.pointCount == A + 1 && s.spaceDim == D && s.simplexDim == A && s.points_.size() == A + 1), "a simplex has one point more than dimensions");
	int e[A + 1][D];
	for(size_t i = 0; i <= A; ++i) for(size_t k = 0; k < D; ++k) { CHECK(s.points()[i][k] == 0, "value initialised simplices are zero"); s.points()[i][k] = e[i][k] = sx::i32("e"); }
	const auto& c = s;
	for(size_t i = 0; i <= A; ++i) for(size_t k = 0; k < D; ++k) CHECK(c.points()[i][k] == e[i][k] && &c.points()[i] == &s.points()[i] && &s.points()[i] == &s.points_[i], "points of a simplex");
	auto up = static_cast<nytl::Simplex<D + 1, int64_t, A>>(s);
	for(size_t i = 0; i <= A; ++i) for(size_t k = 0; k <= D; ++k) CHECK(up.points()[i][k] == (k < D ? e[i][k] : 0), "conversion of a simplex converts its points");
	auto down = static_cast<nytl::Simplex<A, int, A>>(s);
	for(size_t i = 0; i <= A; ++i) for(size_t k = 0; k < A; ++k) CHECK(down.points()[i][k] == e[i][k], "conversion of a simplex converts its points");
}
}
ENTRY(access_1) { access<1, int>(); }
ENTRY(access_2) { access<2, int>(); }
ENTRY(access_3) { access<3, int>(); }
ENTRY(access_3b) { access<3, uint8_t>(); }
ENTRY(access_2l) { access<2, uint64_t>(); }
ENTRY(access_4) { access<4, int>(); }
ENTRY(access_5) { access<5, int64_t>(); }
ENTRY(access_17) { access<17, int>(); }
ENTRY(access_33) { access<33, uint8_t>(); }
ENTRY(convert_long) { convert<16, 17, int, int>(); convert<17, 16, int, int>(); convert<18, 18, int, int>(); convert<20, 20, int, int64_t>(); convert<33, 33, uint8_t, int>(); convert<65, 64, uint8_t, uint8_t>(); convert<9, 10, int, int>(); convert<12, 40, int, int>(); }
ENTRY(outside_2) { outside<2>(); }
ENTRY(outside_3) { outside<3>(); }
ENTRY(convert_up) { convert<2, 3, int, int>(); convert<2, 4, int, int>(); convert<3, 5, int, int>(); convert<1, 2, int, int>(); convert<4, 6, int, int64_t>(); }
ENTRY(convert_big) { convert<5, 6, int, int64_t>(); convert<6, 7, int, int>(); convert<6, 5, uint8_t, int>(); convert<7, 8, int, int>(); convert<8, 6, int, int>(); convert<3, 8, int, int>(); convert<1, 8, int, int>(); convert<8, 1, int, int>(); }
ENTRY(convert_equal) { convert<1, 1, int, int>(); convert<2, 2, int, int>(); convert<3, 3, int, int>(); convert<4, 4, int, int>(); convert<5, 5, int, int64_t>(); convert<6, 6, int, int64_t>(); convert<1, 3, int, int>(); convert<3, 1, int, int>(); convert<1, 5, int, int>(); convert<5, 2, int, int>(); convert<5, 3, int, int>(); convert<3, 4, int, int>(); convert<4, 5, int, int>(); convert<4, 1, int, int>(); }
ENTRY(access_6) { access<6, int>(); }
ENTRY(access_8) { access<8, uint8_t>(); }
ENTRY(convert_down) { convert<3, 2, int, int>(); convert<4, 2, int, int>(); convert<4, 3, int, int>(); convert<5, 4, int, int>(); convert<2, 1, int, int>(); }
ENTRY(convert_type) { convert<2, 2, int, int64_t>(); convert<3, 3, int, uint8_t>(); convert<4, 4, unsigned, uint64_t>(); convert<3, 3, int, double>(); convert<2, 3, float, double>(); }
ENTRY(convert_truncate) { convertSmall<2, int>(); }
ENTRY(simplex_2_1) { simplex<2, 1>(); }
ENTRY(simplex_2_2) { simplex<2, 2>(); }
ENTRY(simplex_3_2) { simplex<3, 2>(); }
ENTRY(simplex_3_3) { simplex<3, 3>(); }
ENTRY(deduction) {
	int a = sx::i32("a"), b = sx::i32("b"), c = sx::i32("c"), d = sx::i32("d");
	nytl::Vec v {a, b, c, d};
	nytl::Vec w {a, b};
	nytl::Vec x {a, b, c};
	CHECK((sameType<decltype(v), Vec<4, int>> && sameType<decltype(w), Vec<2, int>> && sameType<decltype(x), Vec<3, int>>), "deduced vector types");
	CHECK(v[0] == a && v[1] == b && v[2] == c && v[3] == d && w[0] == a && w[1] == b && x[0] == a && x[1] == b && x[2] == c, "components are given in order");
}
#endif
