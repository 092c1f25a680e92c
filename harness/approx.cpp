// C22 approximate comparison of scalars, C23 of complex numbers, vectors and matrices.
#include "sx.hpp"
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <complex>

using nytl::approx;
#if SX_PART == 22
#ifdef SX_REAL
namespace {
double ab(double x) { return x < 0 ? -x : x; }
bool ref(double a, double b, double e) { double x = ab(a), y = ab(b); return ab(a - b) < e * (1 + (x < y ? y : x)); }
}
ENTRY(approx_meaning) {
	double a = sx::f64("a"), b = sx::f64("b"), e = sx::f64("epsilon");
	sx::assume(e >= 0);
	bool eq = ref(a, b, e);
	CHECK((a == approx(b, e)) == eq, "approx compares up to epsilon times one plus the larger magnitude");
	CHECK((approx(b, e) == a) == eq, "approx on the left side compares the same way");
	CHECK((a != approx(b, e)) == !eq && (approx(b, e) != a) == !eq, "!= is the negation of ==");
	CHECK((b == approx(a, e)) == eq, "approximate equality is symmetric");
}
ENTRY(approx_default) {
	double a = sx::f64("a"), b = sx::f64("b");
	CHECK((a == approx(b)) == ref(a, b, nytl::defaultApproxEpsilon), "approx uses the default epsilon");
	CHECK(nytl::defaultApproxEpsilon > 0 && nytl::defaultApproxEpsilon < 1e-6, "the default epsilon is small");
}
ENTRY(approx_float) {
	float a = sx::f32("a"), b = sx::f32("b");
	double e = sx::f64("epsilon");
	sx::assume(e >= 0);
	CHECK((a == approx(b, e)) == ref(a, b, e), "approx compares up to epsilon times one plus the larger magnitude");
	CHECK((approx(b, e) == a) == ref(a, b, e), "approx on the left side compares the same way");
}
ENTRY(approx_monotone) {
	double a = sx::f64("a"), b = sx::f64("b"), e = sx::f64("epsilon"), f = sx::f64("larger");
	sx::assume(e >= 0 && f >= e && a == approx(b, e));
	CHECK(a == approx(b, f), "a larger epsilon accepts more");
}
#else
template<typename T> void laws() { // bit by bit; NaN and infinities included
	T a = sx::val<T>("a"), b = sx::val<T>("b");
	if(a != a || b != b) {
		CHECK(!(a == approx(b)) && !(approx(b) == a), "NaN is not approximately equal to anything");
		CHECK(a != approx(b) && approx(b) != a, "NaN is different from anything");
	} else if(a - a == 0 && b - b == 0 && a == b) CHECK(a == approx(b), "equal values are approximately equal");
}
ENTRY(approx_laws_double) { laws<double>(); }
ENTRY(approx_laws_float) { laws<float>(); }
template<typename T> void precise() { // the comparison is done in double, whatever T is
	constexpr double es[] = {1e-300, 1e-100, 1e-50, 1e-46, 1e-40, 1e-20, 1e-8, 0.3};
	constexpr T as[] = {T(0), T(1), T(-3), T(1e-30), T(-1e20), T(1e38), T(16777215)};
	double e = es[sx::choice(8, "e")];
	T a = as[sx::choice(7, "a")];
	CHECK(a == approx(a, e) && approx(a, e) == a && !(a != approx(a, e)), "equal values are approximately equal, however small epsilon is");
	T b = a * T(1.0000002);
	bool eq = std::abs((double) T(a - b)) < e * (1 + (double) T(std::abs(a) < std::abs(b) ? std::abs(b) : std::abs(a)));
	double bound = e * (1 + std::abs((double) a)), d = std::abs((double) a - (double) b);
	if(d < bound / 2 || d > bound * 2) CHECK((a == approx(b, e)) == eq && (b == approx(a, e)) == eq, "epsilon is not rounded");
}
ENTRY(approx_precise_double) { precise<double>(); }
ENTRY(approx_precise_float) { precise<float>(); }
ENTRY(approx_zero_epsilon) {
	double a = sx::f64("a"), b = sx::f64("b");
	CHECK(!(a == approx(b, 0.)), "nothing differs by less than nothing");
}
#endif
#else
namespace {
bool all(const double* a, const double* b, unsigned n, double e) {
	bool r = true;
	for(unsigned i = 0; i < n; ++i) r &= a[i] == approx(b[i], e);
	return r;
}
template<typename A, typename B> void sides(const A& a, const B& b, double e, bool eq) {
	CHECK((a == approx(b, e)) == eq, "approximately equal exactly if all components are");
	CHECK((approx(b, e) == a) == eq, "approx may stand on either side");
	CHECK((a != approx(b, e)) == !eq && (approx(b, e) != a) == !eq, "!= is the negation of ==");
}
template<size_t D> void vec() {
	double x[D], y[D], e = sx::f64("epsilon");
	nytl::Vec<D, double> a, b;
	for(size_t i = 0; i < D; ++i) { a[i] = x[i] = sx::f64("a"); b[i] = y[i] = sx::f64("b"); }
	sides(a, b, e, all(x, y, D, e));
}
template<size_t R, size_t C> void mat() {
	double x[R * C], y[R * C], e = sx::f64("epsilon");
	nytl::Mat<R, C, double> a, b;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) { a[r][c] = x[r * C + c] = sx::f64("a"); b[r][c] = y[r * C + c] = sx::f64("b"); }
	sides(a, b, e, all(x, y, R * C, e));
}
// many components, one or two of them arbitrary
template<size_t D> void vecLong() {
	double e = 0.125, x[D], y[D];
	nytl::Vec<D, double> a, b;
	for(size_t i = 0; i < D; ++i) { x[i] = (double)i; y[i] = x[i] + 0.0625; }
	size_t k = sx::choice(D, "at");
	x[k] = sx::f64("a"); y[k] = sx::f64("b");
	for(size_t i = 0; i < D; ++i) { a[i] = x[i]; b[i] = y[i]; }
	sides(a, b, e, all(x, y, D, e));
}
template<size_t R, size_t C> void matLong() {
	double e = 0.125, x[R * C], y[R * C];
	nytl::Mat<R, C, double> a, b;
	for(size_t i = 0; i < R * C; ++i) { x[i] = (double)i; y[i] = x[i] + 0.0625; }
	size_t k = sx::choice(R * C, "at");
	x[k] = sx::f64("a"); y[k] = sx::f64("b");
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) { a[r][c] = x[r * C + c]; b[r][c] = y[r * C + c]; }
	sides(a, b, e, all(x, y, R * C, e));
}
}
#ifdef SX_REAL
ENTRY(approx_vec_long) { vecLong<5>(); }
ENTRY(approx_vec_long9) { vecLong<9>(); }
ENTRY(approx_vec_long17) { vecLong<17>(); }
ENTRY(approx_mat_44) { matLong<4, 4>(); }
ENTRY(approx_mat_35) { matLong<3, 5>(); }
ENTRY(approx_mat_91) { matLong<9, 1>(); }
ENTRY(approx_mat_27) { matLong<2, 7>(); }
#endif
ENTRY(approx_complex) {
	double e = sx::f64("epsilon"), x[2] = {sx::f64("ar"), sx::f64("ai")}, y[2] = {sx::f64("br"), sx::f64("bi")};
	sides(std::complex<double>(x[0], x[1]), std::complex<double>(y[0], y[1]), e, all(x, y, 2, e));
}
#ifndef SX_REAL // bit by bit; NaN and infinities included
ENTRY(approx_vec_bits) { vec<2>(); }
ENTRY(approx_vecf_bits) {
	nytl::Vec3f a, b; float x[3], y[3];
	bool r = true;
	int k = (int)sx::choice(3, "at");
	static const float set[] = {0, -0.f, 1, 1.0000001f, 1.00001f, 1.001f, -1, 1e-30f, 3e38f, -3e38f, __builtin_inff(), -__builtin_inff(), __builtin_nanf("")};
	float u = set[sx::choice(13, "a")], v = set[sx::choice(13, "b")];
	for(int i = 0; i < 3; ++i) { a[i] = x[i] = i == k ? u : 1; b[i] = y[i] = i == k ? v : 1; r &= x[i] == approx(y[i]); }
	CHECK((a == approx(b)) == r && (approx(b) == a) == r && (a != approx(b)) != r, "approximately equal exactly if all components are");
}
ENTRY(approx_mat_bits) { matLong<4, 4>(); }
ENTRY(approx_vec5_bits) { vecLong<5>(); }
#else
ENTRY(approx_vec2) { vec<2>(); }
ENTRY(approx_vec3) { vec<3>(); }
ENTRY(approx_vec4) { vec<4>(); }
ENTRY(approx_mat22) { mat<2, 2>(); }
ENTRY(approx_mat12) { mat<1, 2>(); }
ENTRY(approx_mat31) { mat<3, 1>(); }
ENTRY(approx_mixed) { // float against double
	nytl::Vec3d a; nytl::Vec3f b;
	bool r = true;
	for(int i = 0; i < 3; ++i) { a[i] = sx::f64("a"); b[i] = sx::f32("b"); r &= a[i] == approx((double)b[i], 0.25); }
	CHECK((a == approx(b, 0.25)) == r && (approx(b, 0.25) == a) == r, "vectors of different value types compare by components");
}
ENTRY(approx_default_vec) {
	nytl::Vec2d a, b;
	nytl::Mat2d m, n;
	for(int i = 0; i < 2; ++i) { m[0][i] = a[i] = sx::f64("a"); n[0][i] = b[i] = sx::f64("b"); m[1][i] = n[1][i] = 1; }
	bool r = true;
	for(int i = 0; i < 2; ++i) r &= a[i] == approx(b[i]);
	CHECK((a == approx(b)) == r, "vectors use the same default epsilon");
	CHECK((m == approx(n)) == r, "matrices use the same default epsilon");
	std::complex<double> c(a[0], a[1]), d(b[0], b[1]);
	CHECK((c == approx(d)) == r, "complex numbers use the same default epsilon");
}
ENTRY(approx_size) {
	nytl::Vec2d a {sx::f64("a0"), sx::f64("a1")};
	nytl::Vec3d b {a[0], a[1], sx::f64("b")};
	CHECK(!(a == approx(b)) && !(b == approx(a)), "vectors of different size are not equal");
}
#endif
#endif
