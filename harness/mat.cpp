// C28 matrix arithmetic, C29 structure, C30 access and conversion, C31 elimination, C32 LU, C33 determinant and inverse.
#include "sx.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/vecOps.hpp>
#include <cmath>
#include <stdexcept>
#include <type_traits>

namespace {
template<size_t R, size_t C, typename T> using Mat = nytl::Mat<R, C, T>;
template<size_t D, typename T> using Vec = nytl::Vec<D, T>;
template<typename T> T num(const char* n) { // signed integers small enough for all products here
	T v = sx::val<T>(n);
	if constexpr(std::is_integral_v<T> && std::is_signed_v<T>) sx::assume(v > -1000 && v < 1000);
	return v;
}
template<size_t R, size_t C, typename T> struct In { // a matrix and a plain copy of its elements
	Mat<R, C, T> m; T e[R][C];
	In() = default;
	explicit In(const char* n) { for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) m[r][c] = e[r][c] = num<T>(n); }
	void kept() const { for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) sx::same(m[r][c], e[r][c], "operands are not changed"); }
};
// Larger matrices: products of a permuted lower and an upper echelon matrix of small constants, with some of the
// entries symbolic. So every elimination step meets zero pivots, exchanges and (in)dependent rows for some of them.
struct Rnd { unsigned s; explicit Rnd(unsigned k) : s(k * 2654435761u + 12345) {} unsigned operator()(unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 13) % n; } };
template<size_t R, size_t C> In<R, C, double> family(unsigned count, unsigned symbols) {
	Rnd rnd((unsigned)sx::choice(count, "member") + 17 * R + C);
	constexpr size_t M = R < C ? R : C;
	double l[R][M] = {}, u[M][C] = {};
	const int lo[] = {0, 1, -1, 2, 0}, up[] = {0, 1, -1, 3, 2}, di[] = {1, 2, -1, 0, 1};
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < M; ++c) l[r][c] = c == r ? 1 : c < r ? lo[rnd(5)] : 0;
	for(size_t r = 0; r < M; ++r) for(size_t c = 0; c < C; ++c) u[r][c] = c == r ? di[rnd(5)] : c > r ? up[rnd(5)] : 0;
	for(unsigned k = 0; k < symbols; ++k) {
		size_t r = rnd(M), c = r + rnd((unsigned)(C - r));
		if(k % 2 && R > 1) { r = 1 + rnd(R - 1); c = rnd((unsigned)(r < M ? r : M)); l[r][c] = sx::f64("s"); }
		else u[r][c] = sx::f64("s");
	}
	size_t perm[R];
	for(size_t r = 0; r < R; ++r) perm[r] = r;
	for(size_t r = R - 1; r > 0; --r) { size_t o = rnd((unsigned)r + 1), t = perm[r]; perm[r] = perm[o]; perm[o] = t; }
	In<R, C, double> ret;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		double v = 0;
		for(size_t i = 0; i < M; ++i) v = v + l[perm[r]][i] * u[i][c];
		ret.m[r][c] = ret.e[r][c] = v;
	}
	return ret;
}
template<typename T, typename M, typename F> void each(const M& m, F ref, const char* id) {
	for(size_t r = 0; r < m.rows(); ++r) for(size_t c = 0; c < m.cols(); ++c) sx::same((T)m[r][c], (T)ref(r, c), id);
}
[[maybe_unused]] size_t index(size_t n, const char* name) { size_t i = sx::u8(name); sx::assume(i < n); return __sx_concretize(i); }
} // namespace

#if SX_PART == 28
namespace {
template<size_t R, size_t C, typename T> void sums() {
	In<R, C, T> a("a"), b("b");
	T f = num<T>("f");
	auto plus = [&](size_t r, size_t c) { return T(a.e[r][c] + b.e[r][c]); };
	auto minus = [&](size_t r, size_t c) { return T(a.e[r][c] - b.e[r][c]); };
	auto scaled = [&](size_t r, size_t c) { return T(f * a.e[r][c]); };
	each<T>(a.m + b.m, plus, "a + b adds elements");
	each<T>(a.m - b.m, minus, "a - b subtracts elements");
	each<T>(-a.m, [&](size_t r, size_t c) { return T(-a.e[r][c]); }, "-a negates elements");
	each<T>(f * a.m, scaled, "f * a scales elements");
	a.kept(); b.kept();
	auto x = a.m; auto& rx = (x += b.m);
	each<T>(x, plus, "a += b adds elements"); CHECK(&rx == &x, "compound assignment returns its object");
	x = a.m; auto& ry = (x -= b.m);
	each<T>(x, minus, "a -= b subtracts elements"); CHECK(&ry == &x, "compound assignment returns its object");
	x = a.m; auto& rz = (x *= f);
	each<T>(x, scaled, "a *= f scales elements"); CHECK(&rz == &x, "compound assignment returns its object");
	b.kept();
	// operands that overlap the result
	x = a.m; x += x; each<T>(x, [&](size_t r, size_t c) { return T(a.e[r][c] + a.e[r][c]); }, "a += a");
	x = a.m; x -= x; each<T>(x, [&](size_t, size_t) { return T(0); }, "a -= a");
	for(size_t i = 0; i < R; ++i) for(size_t k = 0; k < C; ++k) {
		x = a.m; x *= x[i][k];
		each<T>(x, [&](size_t r, size_t c) { return T(a.e[r][c] * a.e[i][k]); }, "a *= a[i][k] uses the factor as it was");
	}
}
template<size_t R, size_t M, size_t C, typename T> void product() {
	In<R, M, T> a("a"); In<M, C, T> b("b");
	each<T>(a.m * b.m, [&](size_t r, size_t c) { T s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * b.e[i][c]; return s; }, "a * b is the matrix product");
	Vec<M, T> v; T e[M];
	for(size_t i = 0; i < M; ++i) v[i] = e[i] = num<T>("v");
	auto w = a.m * v;
	static_assert(decltype(w)::size() == R);
	for(size_t r = 0; r < R; ++r) {
		T s = 0;
		for(size_t i = 0; i < M; ++i) s += a.e[r][i] * e[i];
		sx::same((T)w[r], s, "a * v is the product with a column vector");
	}
	a.kept(); b.kept();
}
template<size_t D, typename T> void square() {
	In<D, D, T> a("a"), b("b");
	auto ref = [&](const T (&x)[D][D], const T (&y)[D][D]) { return [&](size_t r, size_t c) { T s = 0; for(size_t i = 0; i < D; ++i) s += x[r][i] * y[i][c]; return s; }; };
	auto x = a.m; auto& rx = (x *= b.m);
	each<T>(x, ref(a.e, b.e), "a *= b is the matrix product"); CHECK(&rx == &x, "compound assignment returns its object");
	b.kept();
	x = a.m; x *= x;
	each<T>(x, ref(a.e, a.e), "a *= a uses the operand as it was");
	x = a.m; x = x * x;
	each<T>(x, ref(a.e, a.e), "a = a * a");
	x = b.m; x = a.m * x;
	each<T>(x, ref(a.e, b.e), "b = a * b");
}
template<size_t R, size_t C, typename T> void equality() {
	In<R, C, T> a("a"), b("b");
	bool eq = true;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) eq = eq && a.e[r][c] == b.e[r][c];
	CHECK((a.m == b.m) == eq, "matrices are equal exactly if all elements are");
	CHECK((a.m != b.m) == !eq, "!= is the negation of ==");
	CHECK(a.m == a.m && !(a.m != a.m), "matrices equal themselves");
}
}
#ifndef SX_REAL
namespace {
// whatever the values are: large, NaN or infinite
template<size_t R, size_t C, typename A, typename B> void equalityAll() {
	nytl::Mat<R, C, A> m; nytl::Mat<R, C, B> n;
	A a[R][C]; B b[R][C];
	bool eq = true;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		m[r][c] = a[r][c] = sx::val<A>("a"); n[r][c] = b[r][c] = sx::val<B>("b");
		eq = eq & (a[r][c] == b[r][c]);
	}
	CHECK((m == n) == eq && (n == m) == eq, "matrices are equal exactly if all elements are");
	CHECK((m != n) == !eq && (n != m) == !eq, "!= is the negation of ==");
}
template<size_t R, size_t C, typename T> void sumsAll() { // values near the limits of the type
	nytl::Mat<R, C, T> m, n;
	T a[R][C], b[R][C];
	constexpr T lim = std::numeric_limits<T>::max() / 2;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		m[r][c] = a[r][c] = sx::val<T>("a"); n[r][c] = b[r][c] = sx::val<T>("b");
		sx::assume(a[r][c] <= lim && b[r][c] <= lim && a[r][c] >= -lim && b[r][c] >= -lim);
	}
	auto s = m + n, d = m - n;
	auto x = m, y = m;
	x += n; y -= n;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		CHECK(s[r][c] == a[r][c] + b[r][c] && x[r][c] == s[r][c], "a + b adds elements");
		CHECK(d[r][c] == a[r][c] - b[r][c] && y[r][c] == d[r][c], "a - b subtracts elements");
	}
}
}
ENTRY(equality_doubles) { equalityAll<2, 2, double, double>(); equalityAll<1, 3, double, double>(); }
ENTRY(equality_floats) { equalityAll<2, 1, float, float>(); equalityAll<2, 2, float, double>(); }
ENTRY(equality_ints) { equalityAll<2, 2, int, int>(); equalityAll<2, 3, int64_t, int64_t>(); equalityAll<2, 2, int, int64_t>(); equalityAll<1, 2, int, unsigned>(); }
ENTRY(equality_types) { equalityAll<2, 1, int, double>(); equalityAll<1, 2, int64_t, double>(); }
ENTRY(sums_all) { sumsAll<1, 1, int>(); sumsAll<2, 2, int>(); sumsAll<3, 2, int>(); sumsAll<4, 4, int>(); sumsAll<2, 3, int64_t>(); }
#endif
namespace {
template<typename A> void eqv(A a, A b, const char* id) {
	if constexpr(std::is_same_v<A, float>) __sx_assert_eq_f32(a, b, id);
	else if constexpr(std::is_floating_point_v<A>) __sx_assert_eq_f64(a, b, id);
	else CHECK(a == b, id);
}
template<typename E, typename M, typename F> void typed(const M& m, size_t R, size_t C, F ref, const char* id) {
	CHECK((std::is_same_v<std::decay_t<decltype(m[0][0])>, E>), "the value type is that of the element expression");
	CHECK(m.rows() == R && m.cols() == C, "the dimensions of results");
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) eqv<E>((E)m[r][c], (E)ref(r, c), id);
}
template<size_t R, size_t M, size_t C, typename A, typename B> void mixed() { // mixed value types are combined in their common type
	using P = decltype(A() * B()); using S = decltype(A() + B());
	In<R, M, A> a("a"); In<M, C, B> b("b"); In<R, M, B> o("o");
	A f = num<A>("f"); B g = num<B>("g");
	typed<P>(a.m * b.m, R, C, [&](size_t r, size_t c) { P s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * b.e[i][c]; return s; }, "products of different value types");
	typed<S>(a.m + o.m, R, M, [&](size_t r, size_t c) { return a.e[r][c] + o.e[r][c]; }, "sums of different value types");
	typed<S>(o.m + a.m, R, M, [&](size_t r, size_t c) { return a.e[r][c] + o.e[r][c]; }, "sums of different value types");
	typed<S>(a.m - o.m, R, M, [&](size_t r, size_t c) { return a.e[r][c] - o.e[r][c]; }, "differences of different value types");
	typed<S>(o.m - a.m, R, M, [&](size_t r, size_t c) { return o.e[r][c] - a.e[r][c]; }, "differences of different value types");
	typed<P>(f * b.m, M, C, [&](size_t r, size_t c) { return f * b.e[r][c]; }, "scaling by another value type");
	typed<P>(g * a.m, R, M, [&](size_t r, size_t c) { return g * a.e[r][c]; }, "scaling by another value type");
	Vec<M, B> v; Vec<C, A> w;
	for(size_t i = 0; i < M; ++i) v[i] = num<B>("v");
	for(size_t i = 0; i < C; ++i) w[i] = num<A>("w");
	auto av = a.m * v; auto bw = b.m * w;
	CHECK((std::is_same_v<decltype(av), Vec<R, P>> && std::is_same_v<decltype(bw), Vec<M, P>>), "the value type is that of the element expression");
	for(size_t r = 0; r < R; ++r) { P s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * v[i]; eqv<P>(av[r], s, "products with vectors of another value type"); }
	for(size_t r = 0; r < M; ++r) { P s = 0; for(size_t i = 0; i < C; ++i) s += b.e[r][i] * w[i]; eqv<P>(bw[r], s, "products with vectors of another value type"); }
	if constexpr(std::is_floating_point_v<A> || !std::is_floating_point_v<B>) {
		auto x = a.m; x += o.m; typed<A>(x, R, M, [&](size_t r, size_t c) { return A(a.e[r][c] + o.e[r][c]); }, "a += b of another value type");
		x = a.m; x -= o.m; typed<A>(x, R, M, [&](size_t r, size_t c) { return A(a.e[r][c] - o.e[r][c]); }, "a -= b of another value type");
		x = a.m; x *= g; typed<A>(x, R, M, [&](size_t r, size_t c) { return A(a.e[r][c] * g); }, "a *= f of another value type");
		if constexpr(R == M) {
			x = a.m; x *= o.m;
			typed<A>(x, R, M, [&](size_t r, size_t c) { A s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * o.e[i][c]; return s; }, "a *= b of another value type");
		}
	}
	a.kept(); b.kept(); o.kept();
}
}
#ifdef SX_REAL
#define T double
ENTRY(mixed_id) { mixed<2, 2, 2, int, double>(); mixed<3, 3, 3, double, int>(); mixed<2, 3, 4, double, int>(); }
ENTRY(mixed_fd) { mixed<2, 2, 3, float, double>(); mixed<3, 3, 2, double, float>(); mixed<4, 4, 4, double, float>(); }
ENTRY(mixed_if) { mixed<2, 2, 2, int, float>(); mixed<3, 2, 2, float, int>(); }
ENTRY(sums_2x2f) { sums<2, 2, float>(); }
ENTRY(product_4x4f) { product<4, 4, 4, float>(); }
#else
#define T unsigned
ENTRY(mixed_integers) { mixed<2, 2, 2, int, int64_t>(); mixed<2, 3, 2, uint8_t, int64_t>(); mixed<3, 3, 3, uint64_t, unsigned>(); mixed<2, 2, 1, uint8_t, int8_t>(); }
namespace {
template<size_t R, size_t C, typename A> void fractions() { // integer matrices changed in place by fractions
	constexpr double fs[] = {1.5, 0.25, -0.5, -2.75, 3., 0.75};
	Mat<R, C, A> a {};
	Mat<R, C, double> b {};
	Mat<C, C, double> o {};
	unsigned k = sx::choice(6, "f");
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) { a[r][c] = A(7 + 3 * r + c); b[r][c] = fs[(k + r + c) % 6]; }
	auto x = a; x += b;
	auto y = a; y -= b;
	auto z = a; z *= fs[k];
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		CHECK(x[r][c] == A(double(a[r][c]) + b[r][c]) && y[r][c] == A(double(a[r][c]) - b[r][c]), "adding fractions in place is rounded afterwards");
		CHECK(z[r][c] == A(double(a[r][c]) * fs[k]), "scaling by fractions in place is rounded afterwards");
	}
	if constexpr(R == C) { // each element a single product: no intermediate rounding
		for(size_t c = 0; c < C; ++c) o[c][c] = fs[(k + c) % 6];
		auto w = a; w *= o;
		for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) CHECK(w[r][c] == A(double(a[r][c]) * o[c][c]), "products with fractions in place are rounded afterwards");
	}
}
}
ENTRY(fractions_2) { fractions<2, 2, int>(); }
ENTRY(fractions_3) { fractions<3, 3, int64_t>(); }
ENTRY(fractions_23) { fractions<2, 3, short>(); }
ENTRY(mixed_small) { mixed<2, 2, 2, int8_t, int8_t>(); mixed<2, 3, 1, uint8_t, uint8_t>(); mixed<2, 2, 2, short, short>(); mixed<1, 2, 2, unsigned short, short>(); }
ENTRY(sums_2x2_signed) { sums<2, 2, int>(); }
ENTRY(product_2x2_signed) { product<2, 2, 2, int>(); }
#endif
ENTRY(sums_long) { sums<1, 9, T>(); sums<9, 1, T>(); }
ENTRY(sums_6x7) { sums<6, 7, T>(); }
ENTRY(sums_8x8) { sums<8, 8, T>(); }
ENTRY(product_1x9) { product<1, 9, 1, T>(); product<2, 17, 1, T>(); }
ENTRY(product_9x1) { product<9, 1, 9, T>(); }
ENTRY(product_7x8) { product<7, 8, 9, T>(); }
ENTRY(square_8) { square<8, T>(); }
ENTRY(sums_5x5) { sums<5, 5, T>(); }
ENTRY(sums_4x2) { sums<4, 2, T>(); }
ENTRY(product_5x5) { product<5, 5, 5, T>(); }
ENTRY(product_2x4) { product<2, 4, 2, T>(); }
ENTRY(product_4x6) { product<4, 6, 5, T>(); }
ENTRY(square_5) { square<5, T>(); }
ENTRY(equality_1x1) { equality<1, 1, T>(); }
ENTRY(equality_4x4) { equality<4, 4, T>(); }
ENTRY(sums_1x1) { sums<1, 1, T>(); }
ENTRY(sums_2x2) { sums<2, 2, T>(); }
ENTRY(sums_2x3) { sums<2, 3, T>(); }
ENTRY(sums_3x2) { sums<3, 2, T>(); }
ENTRY(sums_3x3) { sums<3, 3, T>(); }
ENTRY(sums_4x4) { sums<4, 4, T>(); }
ENTRY(sums_1x5) { sums<1, 5, T>(); }
ENTRY(product_2x2) { product<2, 2, 2, T>(); }
ENTRY(product_2x3) { product<2, 3, 4, T>(); }
ENTRY(product_3x2) { product<3, 2, 1, T>(); }
ENTRY(product_1x3) { product<1, 3, 1, T>(); }
ENTRY(product_3x1) { product<3, 1, 3, T>(); }
ENTRY(product_3x3) { product<3, 3, 3, T>(); }
ENTRY(product_4x4) { product<4, 4, 4, T>(); }
ENTRY(square_1) { square<1, T>(); }
ENTRY(square_2) { square<2, T>(); }
ENTRY(square_3) { square<3, T>(); }
ENTRY(square_4) { square<4, T>(); }
ENTRY(equality_1x2) { equality<1, 2, T>(); }
ENTRY(equality_2x2) { equality<2, 2, T>(); }
ENTRY(equality_2x3) { equality<2, 3, T>(); }
ENTRY(equality_3x3) { equality<3, 3, T>(); }
#undef T
#endif

#if SX_PART == 29
namespace {
template<size_t R, size_t C, typename T> void columns() {
	In<R, C, T> a("a");
	size_t n = index(C, "n"), i = index(C, "i");
	auto c = nytl::col(a.m, n);
	static_assert(decltype(c)::size() == R);
	for(size_t r = 0; r < R; ++r) sx::same((T)c[r], a.e[r][n], "col returns the n-th column");
	a.kept();
	Vec<R, T> v; T e[R];
	for(size_t r = 0; r < R; ++r) v[r] = e[r] = num<T>("v");
	auto m = a.m;
	nytl::col(m, n, v);
	each<T>(m, [&](size_t r, size_t k) { return k == n ? e[r] : a.e[r][k]; }, "col sets the n-th column and nothing else");
	if constexpr(R == C) { // a row of the matrix itself, as it was
		m = a.m;
		nytl::col(m, n, m[i]);
		each<T>(m, [&](size_t r, size_t k) { return k == n ? a.e[i][r] : a.e[r][k]; }, "col sets the n-th column to a row of the matrix");
	}
	m = a.m;
	nytl::swapCol(m, n, i);
	each<T>(m, [&](size_t r, size_t k) { return a.e[r][k == n ? i : k == i ? n : k]; }, "swapCol exchanges two columns");
}
template<size_t R, size_t C, typename T> void rows() {
	In<R, C, T> a("a");
	size_t n = index(R, "n"), i = index(R, "i");
	auto m = a.m;
	nytl::swapRow(m, n, i);
	each<T>(m, [&](size_t r, size_t k) { return a.e[r == n ? i : r == i ? n : r][k]; }, "swapRow exchanges two rows");
	nytl::one(m);
	each<T>(m, [&](size_t, size_t) { return T(1); }, "one sets every element to 1");
	auto t = nytl::transpose(a.m);
	static_assert(decltype(t)::rows() == C && decltype(t)::cols() == R);
	each<T>(t, [&](size_t r, size_t c) { return a.e[c][r]; }, "transpose exchanges rows and columns");
	auto tt = nytl::transpose(t);
	each<T>(tt, [&](size_t r, size_t c) { return a.e[r][c]; }, "transposing twice gives the matrix back");
	a.kept();
}
template<size_t D, typename T> void squares() {
	In<D, D, T> a("a");
	T s = 0, p = 1;
	for(size_t i = 0; i < D; ++i) { s += a.e[i][i]; p *= a.e[i][i]; }
	sx::same((T)nytl::trace(a.m), s, "trace is the sum of the diagonal");
	sx::same((T)nytl::multiplyDiagonal(a.m), p, "multiplyDiagonal is the product of the diagonal");
	a.kept();
	auto m = a.m;
	nytl::identity(m);
	auto ref = [&](size_t r, size_t c) { return T(r == c); };
	each<T>(m, ref, "identity sets the identity matrix");
	each<T>(nytl::identity<D, T>(), ref, "identity returns the identity matrix");
	m = nytl::identity<D, T>() * a.m;
	each<T>(m, [&](size_t r, size_t c) { return a.e[r][c]; }, "the identity is neutral");
}
template<size_t D, typename T> void symmetry() {
	In<D, D, T> a("a");
	bool sym = true;
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sym = sym && a.e[r][c] == a.e[c][r];
	CHECK(nytl::symmetric(a.m) == sym, "symmetric compares all pairs of opposite elements");
	CHECK(nytl::symmetric(a.m + nytl::transpose(a.m)), "sums with the transposed matrix are symmetric");
}
}
namespace {
template<typename A> void eqv(A a, A b, const char* id) {
	if constexpr(std::is_same_v<A, float>) __sx_assert_eq_f32(a, b, id);
	else if constexpr(std::is_floating_point_v<A>) __sx_assert_eq_f64(a, b, id);
	else CHECK(a == b, id);
}
template<typename E, typename M, typename F> void typed(const M& m, size_t R, size_t C, F ref, const char* id) {
	CHECK((std::is_same_v<std::decay_t<decltype(m[0][0])>, E>), "the value type is that of the element expression");
	CHECK(m.rows() == R && m.cols() == C, "the dimensions of results");
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) eqv<E>((E)m[r][c], (E)ref(r, c), id);
}
template<size_t R, size_t M, size_t C, typename A, typename B> void mixed() { // mixed value types are combined in their common type
	using P = decltype(A() * B()); using S = decltype(A() + B());
	In<R, M, A> a("a"); In<M, C, B> b("b"); In<R, M, B> o("o");
	A f = num<A>("f"); B g = num<B>("g");
	typed<P>(a.m * b.m, R, C, [&](size_t r, size_t c) { P s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * b.e[i][c]; return s; }, "products of different value types");
	typed<S>(a.m + o.m, R, M, [&](size_t r, size_t c) { return a.e[r][c] + o.e[r][c]; }, "sums of different value types");
	typed<S>(o.m + a.m, R, M, [&](size_t r, size_t c) { return a.e[r][c] + o.e[r][c]; }, "sums of different value types");
	typed<S>(a.m - o.m, R, M, [&](size_t r, size_t c) { return a.e[r][c] - o.e[r][c]; }, "differences of different value types");
	typed<S>(o.m - a.m, R, M, [&](size_t r, size_t c) { return o.e[r][c] - a.e[r][c]; }, "differences of different value types");
	typed<P>(f * b.m, M, C, [&](size_t r, size_t c) { return f * b.e[r][c]; }, "scaling by another value type");
	typed<P>(g * a.m, R, M, [&](size_t r, size_t c) { return g * a.e[r][c]; }, "scaling by another value type");
	Vec<M, B> v; Vec<C, A> w;
	for(size_t i = 0; i < M; ++i) v[i] = num<B>("v");
	for(size_t i = 0; i < C; ++i) w[i] = num<A>("w");
	auto av = a.m * v; auto bw = b.m * w;
	CHECK((std::is_same_v<decltype(av), Vec<R, P>> && std::is_same_v<decltype(bw), Vec<M, P>>), "the value type is that of the element expression");
	for(size_t r = 0; r < R; ++r) { P s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * v[i]; eqv<P>(av[r], s, "products with vectors of another value type"); }
	for(size_t r = 0; r < M; ++r) { P s = 0; for(size_t i = 0; i < C; ++i) s += b.e[r][i] * w[i]; eqv<P>(bw[r], s, "products with vectors of another value type"); }
	if constexpr(std::is_floating_point_v<A> || !std::is_floating_point_v<B>) {
		auto x = a.m; x += o.m; typed<A>(x, R, M, [&](size_t r, size_t c) { return A(a.e[r][c] + o.e[r][c]); }, "a += b of another value type");
		x = a.m; x -= o.m; typed<A>(x, R, M, [&](size_t r, size_t c) { return A(a.e[r][c] - o.e[r][c]); }, "a -= b of another value type");
		x = a.m; x *= g; typed<A>(x, R, M, [&](size_t r, size_t c) { return A(a.e[r][c] * g); }, "a *= f of another value type");
		if constexpr(R == M) {
			x = a.m; x *= o.m;
			typed<A>(x, R, M, [&](size_t r, size_t c) { A s = 0; for(size_t i = 0; i < M; ++i) s += a.e[r][i] * o.e[i][c]; return s; }, "a *= b of another value type");
		}
	}
	a.kept(); b.kept(); o.kept();
}
}
#ifdef SX_REAL
#define T double
ENTRY(mixed_id) { mixed<2, 2, 2, int, double>(); mixed<3, 3, 3, double, int>(); mixed<2, 3, 4, double, int>(); }
ENTRY(mixed_fd) { mixed<2, 2, 3, float, double>(); mixed<3, 3, 2, double, float>(); mixed<4, 4, 4, double, float>(); }
ENTRY(mixed_if) { mixed<2, 2, 2, int, float>(); mixed<3, 2, 2, float, int>(); }
#else
#define T unsigned
ENTRY(mixed_integers) { mixed<2, 2, 2, int, int64_t>(); mixed<2, 3, 2, uint8_t, int64_t>(); mixed<3, 3, 3, uint64_t, unsigned>(); mixed<2, 2, 1, uint8_t, int8_t>(); }
namespace {
template<size_t R, size_t C, typename A> void fractions() { // integer matrices changed in place by fractions
	constexpr double fs[] = {1.5, 0.25, -0.5, -2.75, 3., 0.75};
	Mat<R, C, A> a {};
	Mat<R, C, double> b {};
	Mat<C, C, double> o {};
	unsigned k = sx::choice(6, "f");
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) { a[r][c] = A(7 + 3 * r + c); b[r][c] = fs[(k + r + c) % 6]; }
	auto x = a; x += b;
	auto y = a; y -= b;
	auto z = a; z *= fs[k];
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		CHECK(x[r][c] == A(double(a[r][c]) + b[r][c]) && y[r][c] == A(double(a[r][c]) - b[r][c]), "adding fractions in place is rounded afterwards");
		CHECK(z[r][c] == A(double(a[r][c]) * fs[k]), "scaling by fractions in place is rounded afterwards");
	}
	if constexpr(R == C) { // each element a single product: no intermediate rounding
		for(size_t c = 0; c < C; ++c) o[c][c] = fs[(k + c) % 6];
		auto w = a; w *= o;
		for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) CHECK(w[r][c] == A(double(a[r][c]) * o[c][c]), "products with fractions in place are rounded afterwards");
	}
}
}
ENTRY(fractions_2) { fractions<2, 2, int>(); }
ENTRY(fractions_3) { fractions<3, 3, int64_t>(); }
ENTRY(fractions_23) { fractions<2, 3, short>(); }
ENTRY(mixed_small) { mixed<2, 2, 2, int8_t, int8_t>(); mixed<2, 3, 1, uint8_t, uint8_t>(); mixed<2, 2, 2, short, short>(); mixed<1, 2, 2, unsigned short, short>(); }
ENTRY(columns_bytes) { columns<2, 3, uint8_t>(); }
ENTRY(rows_bytes) { rows<3, 2, uint8_t>(); }
#endif
ENTRY(columns_1x3) { columns<1, 3, T>(); }
ENTRY(columns_2x2) { columns<2, 2, T>(); }
ENTRY(columns_2x3) { columns<2, 3, T>(); }
ENTRY(columns_3x2) { columns<3, 2, T>(); }
ENTRY(columns_4x4) { columns<4, 4, T>(); }
ENTRY(rows_1x3) { rows<1, 3, T>(); }
ENTRY(rows_2x2) { rows<2, 2, T>(); }
ENTRY(rows_2x3) { rows<2, 3, T>(); }
ENTRY(rows_3x2) { rows<3, 2, T>(); }
ENTRY(rows_4x4) { rows<4, 4, T>(); }
ENTRY(squares_1) { squares<1, T>(); }
ENTRY(squares_2) { squares<2, T>(); }
ENTRY(squares_3) { squares<3, T>(); }
ENTRY(squares_4) { squares<4, T>(); }
ENTRY(symmetry_1) { symmetry<1, T>(); }
ENTRY(symmetry_2) { symmetry<2, T>(); }
ENTRY(symmetry_3) { symmetry<3, T>(); }
ENTRY(symmetry_4) { symmetry<4, T>(); }
ENTRY(symmetry_6) { symmetry<6, T>(); }
ENTRY(columns_large) { columns<1, 6, T>(); columns<6, 1, T>(); columns<5, 5, T>(); }
ENTRY(columns_9x3) { columns<9, 3, T>(); }
ENTRY(columns_3x9) { columns<3, 9, T>(); }
ENTRY(columns_8x8) { columns<8, 8, T>(); }
ENTRY(rows_large) { rows<1, 6, T>(); rows<6, 1, T>(); rows<5, 5, T>(); }
ENTRY(rows_9x3) { rows<9, 3, T>(); }
ENTRY(rows_3x9) { rows<3, 9, T>(); }
ENTRY(rows_8x8) { rows<8, 8, T>(); }
ENTRY(rows_17x2) { rows<17, 2, T>(); rows<2, 17, T>(); }
ENTRY(squares_5) { squares<5, T>(); }
ENTRY(squares_6) { squares<6, T>(); }
ENTRY(squares_7) { squares<7, T>(); }
ENTRY(squares_8) { squares<8, T>(); }
ENTRY(squares_9) { squares<9, T>(); }
#endif

#if SX_PART == 30
namespace {
template<size_t R, size_t C, typename T> void access() {
	In<R, C, T> a("a");
	const auto& c = a.m;
	CHECK((Mat<R, C, T>::rows() == R && Mat<R, C, T>::cols() == C), "the dimensions of a matrix");
	CHECK(sizeof(a.m) == R * C * sizeof(T) && (const void*)&a.m[0][0] == (const void*)&a.m, "elements are stored contiguously");
	size_t r = index(R, "r"), k = index(C, "k");
	CHECK(c[r][k] == a.e[r][k] && c.at(r, k) == a.e[r][k] && c.at(r)[k] == a.e[r][k], "m[r][c] is the element in row r and column c");
	CHECK(&a.m[r][k] == (const T*)&a.m + r * C + k, "elements are stored row by row");
	CHECK(&a.m.at(r, k) == &a.m[r][k] && &c.at(r, k) == &c[r][k] && &a.m.at(r) == &a.m[r] && &c.at(r) == &c[r] && &c[r] == &a.m[r], "all kinds of access designate the same element");
	T n = sx::val<T>("n");
	if(sx::flag("at")) a.m.at(r, k) = n; else a.m[r][k] = n;
	for(size_t i = 0; i < R; ++i) for(size_t j = 0; j < C; ++j) CHECK(a.m[i][j] == (i == r && j == k ? n : a.e[i][j]), "writing an element changes only that one");
}
template<size_t R, size_t C> void outside() {
	Mat<R, C, int> m {};
	const auto& c = m;
	size_t r = sx::u64("r"), k = sx::u64("k");
	bool thrown = false;
	unsigned how = sx::choice(4, "how");
	try {
		if(how == 0) m.at(r, k) = 1;
		else if(how == 1) (void)c.at(r, k);
		else if(how == 2) (void)m.at(r);
		else (void)c.at(r);
	} catch(const std::out_of_range&) { thrown = true; }
	if(how < 2) CHECK(thrown == (r >= R || k >= C), "positions outside throw out_of_range");
	else CHECK(thrown == (r >= R), "rows outside throw out_of_range");
	int sum = 0;
	for(size_t i = 0; i < R; ++i) for(size_t j = 0; j < C; ++j) sum += m[i][j];
	CHECK(sum == (how == 0 && !thrown), "a rejected access changes nothing");
}
template<size_t R, size_t C, size_t R2, size_t C2, typename T, typename U> void convert() {
	Mat<R, C, T> m;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) m[r][c] = sx::val<T>("e");
	auto w = static_cast<Mat<R2, C2, U>>(m);
	for(size_t r = 0; r < R2; ++r) for(size_t c = 0; c < C2; ++c) {
		U ref = r < R && c < C ? (U)m[r][c] : U(0);
		if constexpr(std::is_integral_v<U>) CHECK(w[r][c] == ref, "conversion keeps the common elements and fills up with zeros");
		else sx::same(w[r][c], ref, "conversion keeps the common elements and fills up with zeros");
	}
}
}
ENTRY(access_1x1) { access<1, 1, int>(); }
ENTRY(access_2x2) { access<2, 2, int>(); }
ENTRY(access_2x3) { access<2, 3, uint8_t>(); }
ENTRY(access_3x2) { access<3, 2, int64_t>(); }
ENTRY(access_3x3) { access<3, 3, int>(); }
ENTRY(access_2x4) { access<2, 4, int>(); }
ENTRY(access_4x4) { access<4, 4, int>(); }
ENTRY(access_6x4) { access<6, 4, int>(); }
ENTRY(access_3x7) { access<3, 7, uint8_t>(); }
ENTRY(access_9x9) { access<9, 9, int>(); }
ENTRY(access_17x2) { access<17, 2, int>(); }
ENTRY(access_1x17) { access<1, 17, uint8_t>(); }
ENTRY(convert_long) { convert<5, 5, 9, 9, int, int>(); convert<9, 9, 5, 5, int, int>(); convert<8, 8, 8, 8, int, int64_t>(); convert<6, 7, 7, 6, int, int>(); convert<17, 1, 18, 1, int, int>(); convert<1, 18, 1, 17, int, int>(); convert<5, 2, 4, 3, int, int>(); }
ENTRY(outside_6x5) { outside<6, 5>(); }
ENTRY(outside_5x6) { outside<5, 6>(); }
ENTRY(outside_1x9) { outside<1, 9>(); }
ENTRY(outside_9x1) { outside<9, 1>(); }
ENTRY(outside_1x1) { outside<1, 1>(); }
ENTRY(outside_2x2) { outside<2, 2>(); }
ENTRY(outside_2x3) { outside<2, 3>(); }
ENTRY(outside_3x2) { outside<3, 2>(); }
ENTRY(outside_2x4) { outside<2, 4>(); }
ENTRY(outside_4x4) { outside<4, 4>(); }
ENTRY(convert_up) { convert<2, 2, 3, 3, int, int>(); convert<2, 2, 4, 4, int, int>(); convert<3, 3, 4, 4, int, int>(); convert<2, 3, 3, 4, int, int>(); convert<1, 2, 2, 5, int, int64_t>(); }
ENTRY(convert_down) { convert<4, 4, 3, 3, int, int>(); convert<4, 4, 2, 2, int, int>(); convert<3, 3, 2, 2, int, int>(); convert<3, 4, 2, 1, int, int64_t>(); }
ENTRY(convert_mixed) { convert<2, 4, 4, 2, int, int>(); convert<3, 2, 2, 3, int, int>(); convert<2, 2, 1, 3, unsigned, uint64_t>(); }
ENTRY(convert_type) { convert<2, 2, 2, 2, int, int64_t>(); convert<2, 2, 2, 2, int, uint8_t>(); convert<2, 2, 3, 3, int, double>(); convert<2, 2, 2, 2, float, double>(); }
#endif

#if SX_PART == 31
namespace {
template<size_t R, size_t C> void inEchelon(const Mat<R, C, double>& m, const double (&org)[R][C], bool reduced) {
	size_t lead[R] = {}, rank = 0, next = 0;
	bool zero = false;
	for(size_t r = 0; r < R; ++r) {
		size_t c = 0;
		while(c < C && m[r][c] == 0) ++c;
		if(c == C) { zero = true; continue; }
		CHECK(!zero, "zero rows are at the bottom");
		CHECK(c >= next, "every row starts right of the row above");
		sx::same(m[r][c], 1., "leading elements are 1");
		for(size_t i = r + 1; i < R; ++i) sx::same(m[i][c], 0., "elements below a leading element are 0");
		if(reduced) for(size_t i = 0; i < r; ++i) sx::same(m[i][c], 0., "elements above a leading element are 0");
		next = c + 1;
		lead[rank++] = c;
	}
	// every row of the given matrix is a combination of the new rows
	for(size_t i = 0; i < R; ++i) {
		double rest[C];
		for(size_t c = 0; c < C; ++c) rest[c] = org[i][c];
		for(size_t k = 0; k < rank; ++k) {
			double f = rest[lead[k]];
			for(size_t c = 0; c < C; ++c) rest[c] = rest[c] - f * m[k][c];
		}
		for(size_t c = 0; c < C; ++c) sx::same(rest[c], 0., "no row is lost");
	}
}
template<size_t R, size_t C> void echelon(bool reduced, In<R, C, double> a = In<R, C, double>("a")) {
	auto copy = reduced ? nytl::reducedRowEcholonCopy(a.m) : nytl::rowEcholonCopy(a.m);
	a.kept();
	auto m = a.m;
	if(reduced) nytl::reducedRowEcholon(m); else nytl::rowEcholon(m);
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) sx::same(copy[r][c], m[r][c], "the copying form does the same on a copy");
	inEchelon(m, a.e, reduced);
}
// a solution of the system stays one: the last column is A x for arbitrary x
template<size_t R, size_t C> void solution(bool reduced) {
	Mat<R, C + 1, double> m; double org[R][C + 1];
	double x[C];
	for(size_t c = 0; c < C; ++c) x[c] = sx::f64("x");
	for(size_t r = 0; r < R; ++r) {
		double s = 0;
		for(size_t c = 0; c < C; ++c) { m[r][c] = sx::f64("a"); s = s + m[r][c] * x[c]; }
		m[r][C] = s;
		for(size_t c = 0; c <= C; ++c) org[r][c] = m[r][c];
	}
	if(reduced) nytl::reducedRowEcholon(m); else nytl::rowEcholon(m);
	for(size_t r = 0; r < R; ++r) {
		double s = 0;
		for(size_t c = 0; c < C; ++c) s = s + m[r][c] * x[c];
		sx::same(m[r][C], s, "solutions of the system are kept");
	}
}
template<size_t R, size_t C> void pivots() {
	In<R, C, double> a("a");
	size_t row = index(R, "row"), col = index(C, "col");
	bool after = sx::choice(2, "after");
	auto m = a.m;
	double v = nytl::pivot(m, row, col, after);
	sx::same(v, m[row][col], "pivot returns the new element");
	for(size_t r = after ? row : 0; r < R; ++r) CHECK(std::abs(m[row][col]) >= std::abs(m[r][col]), "the pivot is maximal");
	// the rows are exchanged, if at all, with one other
	size_t other = row;
	bool found = false;
	for(size_t r = 0; r < R && !found; ++r) {
		bool same = true;
		for(size_t i = 0; i < R && same; ++i) for(size_t c = 0; c < C && same; ++c) same = m[i][c] == a.e[i == row ? r : i == r ? row : i][c];
		if(same && (!after || r >= row)) { found = true; other = r; }
	}
	CHECK(found, "pivoting exchanges the row with one of the rows considered");
	(void)other;
}
}
#ifndef SX_REAL
// Rounding and range: multiplying with a power of two is exact, so it does not change the echelon forms.
namespace {
template<size_t R, size_t C> void scaled() {
	auto a = family<R, C>(SX_THOROUGH ? 40 : 10, 0);
	static const double by[] = {-1, 0x1p-600, 0x1p-540, 0x1p-300, 0x1p-60, 0x1p60, 0x1p300, 0x1p520, 0x1p900, -0x1p-530};
	double k = by[sx::choice(sizeof(by) / sizeof(by[0]), "scale")];
	In<R, C, double> b;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) b.m[r][c] = b.e[r][c] = k * a.e[r][c];
	auto x = nytl::rowEcholonCopy(a.m), y = nytl::rowEcholonCopy(b.m);
	auto u = nytl::reducedRowEcholonCopy(a.m), v = nytl::reducedRowEcholonCopy(b.m);
	a.kept(); b.kept();
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		CHECK(x[r][c] == y[r][c], "multiples have the same echelon form");
		CHECK(u[r][c] == v[r][c], "multiples have the same reduced echelon form");
	}
	for(size_t c = 0; c < C; ++c) {
		auto p = a.m, q = b.m;
		CHECK(k * nytl::pivot(p, 0, c, sx::choice(2, "after")) == nytl::pivot(q, 0, c), "pivot returns the new element");
		for(size_t r = 0; r < R; ++r) for(size_t i = 0; i < C; ++i) CHECK(k * p[r][i] == q[r][i], "the same rows are exchanged in multiples");
	}
}
// rows that only differ in scale, every finite value: only normalized
void diagonal() {
	double p = sx::f64("p"), q = sx::f64("q");
	sx::assume(p - p == 0); sx::assume(q - q == 0); sx::assume(p != 0); sx::assume(q != 0);
	bool swapped = sx::flag("swapped");
	Mat<2, 3, double> m {};
	m[swapped][0] = p; m[!swapped][1] = q;
	auto n = m;
	nytl::rowEcholon(m); nytl::reducedRowEcholon(n);
	for(size_t r = 0; r < 2; ++r) for(size_t c = 0; c < 3; ++c) CHECK(m[r][c] == (r == c) && n[r][c] == (r == c), "the echelon form of a diagonal matrix is the identity");
}
}
ENTRY(scaled_2x2) { scaled<2, 2>(); }
ENTRY(scaled_2x3) { scaled<2, 3>(); }
ENTRY(scaled_3x3) { scaled<3, 3>(); }
ENTRY(scaled_4x3) { scaled<4, 3>(); }
ENTRY(scaled_4x5) { scaled<4, 5>(); }
ENTRY(diagonal) { diagonal(); }
#else
ENTRY(echelon_1x1) { echelon<1, 1>(false); }
ENTRY(echelon_1x3) { echelon<1, 3>(false); }
ENTRY(echelon_2x1) { echelon<2, 1>(false); }
ENTRY(echelon_2x2) { echelon<2, 2>(false); }
ENTRY(echelon_2x3) { echelon<2, 3>(false); }
ENTRY(echelon_3x2) { echelon<3, 2>(false); }
ENTRY(reduced_1x1) { echelon<1, 1>(true); }
ENTRY(reduced_1x3) { echelon<1, 3>(true); }
ENTRY(reduced_2x1) { echelon<2, 1>(true); }
ENTRY(reduced_2x2) { echelon<2, 2>(true); }
ENTRY(reduced_2x3) { echelon<2, 3>(true); }
ENTRY(reduced_3x2) { echelon<3, 2>(true); }
ENTRY(solution_1x2) { solution<1, 2>(false); }
ENTRY(solution_2x2) { solution<2, 2>(false); }
ENTRY(solution_3x2) { solution<3, 2>(false); }
ENTRY(solution_reduced_1x2) { solution<1, 2>(true); }
ENTRY(solution_reduced_2x2) { solution<2, 2>(true); }
ENTRY(solution_reduced_3x2) { solution<3, 2>(true); }
ENTRY(family_3x3) { echelon<3, 3>(false, family<3, 3>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_3x4) { echelon<3, 4>(false, family<3, 4>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_4x3) { echelon<4, 3>(false, family<4, 3>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_4x6) { echelon<4, 6>(false, family<4, 6>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_reduced_3x3) { echelon<3, 3>(true, family<3, 3>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_reduced_3x4) { echelon<3, 4>(true, family<3, 4>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_reduced_5x4) { echelon<5, 4>(true, family<5, 4>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(family_reduced_4x6) { echelon<4, 6>(true, family<4, 6>(SX_THOROUGH ? 60 : 16, 2)); }
ENTRY(pivots_2x2) { pivots<2, 2>(); }
ENTRY(pivots_3x1) { pivots<3, 1>(); }
#if SX_THOROUGH
ENTRY(echelon_3x3) { echelon<3, 3>(false); }
ENTRY(reduced_3x3) { echelon<3, 3>(true); }
ENTRY(echelon_2x4) { echelon<2, 4>(false); }
ENTRY(reduced_2x4) { echelon<2, 4>(true); }
ENTRY(solution_2x3) { solution<2, 3>(false); }
ENTRY(solution_reduced_2x3) { solution<2, 3>(true); }
ENTRY(pivots_3x2) { pivots<3, 2>(); }
ENTRY(pivots_4x1) { pivots<4, 1>(); }
#endif
#endif
#endif

#if SX_PART == 32
namespace {
template<size_t D> void decompose(In<D, D, double> a = In<D, D, double>("a")) {
	auto lu = nytl::luDecomp(a.m);
	a.kept();
	const auto& l = lu.lower; const auto& u = lu.upper; const auto& p = lu.perm;
	for(size_t r = 0; r < D; ++r) {
		sx::same(l[r][r], 1., "the diagonal of the lower matrix is 1");
		for(size_t c = r + 1; c < D; ++c) sx::same(l[r][c], 0., "the lower matrix is lower triangular");
		for(size_t c = 0; c < r; ++c) sx::same(u[r][c], 0., "the upper matrix is upper triangular");
	}
	size_t at[D], inv = 0;
	for(size_t r = 0; r < D; ++r) {
		size_t ones = 0, colOnes = 0;
		at[r] = 0;
		for(size_t c = 0; c < D; ++c) { if(p[r][c]) { ++ones; at[r] = c; } if(p[c][r]) ++colOnes; }
		CHECK(ones == 1 && colOnes == 1, "the permutation matrix has one 1 per row and column");
	}
	for(size_t r = 0; r < D; ++r) for(size_t q = r + 1; q < D; ++q) if(at[r] > at[q]) ++inv;
	CHECK(lu.sign == (inv % 2 ? -1 : 1), "the sign is the sign of the permutation");
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) {
		double s = 0;
		for(size_t i = 0; i < D; ++i) s = s + l[r][i] * u[i][c];
		sx::same(s, a.e[at[r]][c], "the product of lower and upper is the permuted matrix");
	}
	auto pa = p * a.m, lum = l * u;
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sx::same(lum[r][c], pa[r][c], "perm * matrix == lower * upper");
}
}
#ifndef SX_REAL
// Rounding and range: multiplying with a power of two is exact, so it does not change the decomposition,
// however small or large the elements become.
namespace {
template<size_t D> void scaled() {
	auto a = family<D, D>(SX_THOROUGH ? 40 : 12, 0);
	static const double by[] = {0x1p-1000, 0x1p-600, 0x1p-540, 0x1p-300, 0x1p-60, 0x1p60, 0x1p300, 0x1p520, 0x1p900, -0x1p-530};
	double k = by[sx::choice(sizeof(by) / sizeof(by[0]), "scale")];
	In<D, D, double> b;
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) b.m[r][c] = b.e[r][c] = k * a.e[r][c];
	auto x = nytl::luDecomp(a.m), y = nytl::luDecomp(b.m);
	CHECK(x.sign == y.sign, "the decomposition of a multiple has the same sign");
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) {
		CHECK(x.perm[r][c] == y.perm[r][c], "the decomposition of a multiple has the same permutation");
		CHECK(x.lower[r][c] == y.lower[r][c], "the decomposition of a multiple has the same lower matrix");
		CHECK(k * x.upper[r][c] == y.upper[r][c], "the decomposition of a multiple has the multiple as upper matrix");
	}
}
}
ENTRY(scaled_2) { scaled<2>(); }
ENTRY(scaled_3) { scaled<3>(); }
ENTRY(scaled_4) { scaled<4>(); }
ENTRY(triangular) { // every finite value: nothing has to be computed, only a row exchanged
	double p = sx::f64("p"), q = sx::f64("q"), r = sx::f64("r");
	sx::assume(p - p == 0); sx::assume(q - q == 0); sx::assume(r - r == 0);
	sx::assume(p != 0);
	bool swapped = sx::flag("swapped");
	Mat<2, 2, double> m {};
	m[swapped][0] = p; m[swapped][1] = q; m[!swapped][1] = r;
	auto lu = nytl::luDecomp(m);
	CHECK(lu.sign == (swapped ? -1 : 1), "the sign is the sign of the permutation");
	CHECK(lu.upper[0][0] == p && lu.upper[0][1] == q && lu.upper[1][0] == 0 && lu.upper[1][1] == r, "the upper matrix of a triangular matrix");
	CHECK(lu.lower[0][0] == 1 && lu.lower[0][1] == 0 && lu.lower[1][0] == 0 && lu.lower[1][1] == 1, "the lower matrix of a triangular matrix");
	CHECK((lu.perm[0][0] != 0) == !swapped && (lu.perm[1][0] != 0) == swapped, "the permutation of a triangular matrix");
}
#else
ENTRY(decompose_1) { decompose<1>(); }
ENTRY(decompose_2) { decompose<2>(); }
ENTRY(decompose_3) { decompose<3>(); }
ENTRY(decompose_4) { decompose<4>(); }
ENTRY(family_4) { decompose<4>(family<4, 4>(SX_THOROUGH ? 100 : 20, 3)); }
ENTRY(family_5) { decompose<5>(family<5, 5>(SX_THOROUGH ? 100 : 20, 3)); }
ENTRY(family_6) { decompose<6>(family<6, 6>(SX_THOROUGH ? 100 : 20, 2)); }
ENTRY(family_8) { decompose<8>(family<8, 8>(SX_THOROUGH ? 100 : 20, 2)); }
#if SX_THOROUGH
ENTRY(decompose_5) { decompose<5>(); }
#endif
#endif
#endif

#if SX_PART == 33
namespace {
double det(const double (&e)[1][1]) { return e[0][0]; }
template<size_t D> double det(const double (&e)[D][D]) { // expansion along the first column
	double s = 0;
	for(size_t i = 0; i < D; ++i) {
		double m[D - 1][D - 1];
		for(size_t r = 0, k = 0; r < D; ++r) if(r != i) { for(size_t c = 1; c < D; ++c) m[k][c - 1] = e[r][c]; ++k; }
		double t = e[i][0] * det(m);
		s = i % 2 ? s - t : s + t;
	}
	return s;
}
template<size_t D> void determinants(In<D, D, double> a = In<D, D, double>("a")) {
	double ref = det(a.e), d = nytl::determinant(a.m);
	sx::same(d, ref, "the determinant");
	sx::same(nytl::determinant(nytl::luDecomp(a.m)), ref, "the determinant from a decomposition");
	CHECK(nytl::invertible(a.m) == (ref != 0), "matrices are invertible if their determinant is not 0");
	a.kept();
}
template<size_t D> void inverses(In<D, D, double> a = In<D, D, double>("a")) {
	sx::assume(det(a.e) != 0);
	auto inv = nytl::inverse(a.m);
	auto check = [&](const Mat<D, D, double>& i) {
		for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) {
			double s = 0, t = 0;
			for(size_t k = 0; k < D; ++k) { s = s + a.e[r][k] * i[k][c]; t = t + i[r][k] * a.e[k][c]; }
			sx::same(s, double(r == c), "a * inverse(a) is the identity");
			sx::same(t, double(r == c), "inverse(a) * a is the identity");
		}
	};
	check(inv);
	check(nytl::inverse(nytl::luDecomp(a.m)));
	a.kept();
}
template<size_t D> void solve(In<D, D, double> a = In<D, D, double>("a")) {
	Vec<D, double> b; double e[D];
	for(size_t i = 0; i < D; ++i) b[i] = e[i] = sx::f64("b");
	sx::assume(det(a.e) != 0);
	auto lu = nytl::luDecomp(a.m);
	auto x = nytl::luEvaluate(lu, b);
	for(size_t r = 0; r < D; ++r) {
		double s = 0;
		for(size_t c = 0; c < D; ++c) s = s + a.e[r][c] * x[c];
		sx::same(s, e[r], "luEvaluate of a decomposition solves the system of the matrix");
		sx::same(b[r], e[r], "the right side is kept");
	}
}
template<size_t D> void triangular() { // any lower and upper matrix
	Mat<D, D, double> l {}, u {};
	Vec<D, double> b;
	for(size_t r = 0; r < D; ++r) {
		b[r] = sx::f64("b");
		for(size_t c = 0; c <= r; ++c) l[r][c] = sx::f64("l");
		for(size_t c = r; c < D; ++c) u[r][c] = sx::f64("u");
		sx::assume(l[r][r] != 0);
		sx::assume(u[r][r] != 0);
	}
	auto x = nytl::luEvaluate(l, u, b);
	auto y = l * (u * x);
	for(size_t r = 0; r < D; ++r) sx::same(y[r], b[r], "luEvaluate solves lower * upper * x == b");
}
}
#ifndef SX_REAL
// integer matrices: the determinant is an integer, although the decomposition is computed with rounding
namespace {
void intDet(const int (&e)[2][2]) {
	Mat<2, 2, int> m {e[0][0], e[0][1], e[1][0], e[1][1]};
	int ref = e[0][0] * e[1][1] - e[0][1] * e[1][0];
	CHECK((nytl::determinant(m) == ref) & (nytl::invertible(m) == (ref != 0)), "the determinant of an integer matrix is exact, it is invertible if that is not 0");
}
int within(int lim) { int v = sx::i8("e"); sx::assume(v >= -lim && v <= lim); return v; }
}
// Rounding and range: nothing here has to be rounded, so the results are those values
namespace {
double awkward(const char* n) { // values with full mantissas, small and large
	static const double v[] = {0.1, -1.0 / 3, 16777217.0, 0x1.fffffffffffffp-1, -0x1.0000000000001p-200, 0x1.23456789abcdfp+180, 9007199254740993.0 * 2 + 2};
	return v[sx::choice(sizeof(v) / sizeof(v[0]), n)];
}
bool near(double a, double b, double scale = 0) { // up to a few roundings of a double
	auto abs = [](double x) { return x < 0 ? -x : x; };
	return abs(a - b) <= 1e-12 * (abs(a) + abs(b) + scale);
}
template<size_t D, typename T> void shear() { // the identity with one other element outside of the diagonal, maybe with two rows exchanged
	size_t r = sx::choice(D, "r"), c = sx::choice(D - 1, "c");
	if(c >= r) ++c;
	double ax = awkward("x");
	if(sizeof(T) == 4 && (ax > 1e30 || (ax < 1e-30 && ax > -1e-30))) return;
	T x = (T)ax;
	Mat<D, D, T> m {};
	for(size_t i = 0; i < D; ++i) m[i][i] = T(1);
	m[r][c] = x;
	auto lu = nytl::luDecomp(m);
	CHECK(near(nytl::determinant(m), 1) && near(nytl::determinant(lu), 1) && nytl::invertible(m), "the determinant of a shear is 1");
	Mat<D, D, double> inv = sx::flag("lu") ? Mat<D, D, double>(nytl::inverse(lu)) : Mat<D, D, double>(nytl::inverse(m));
	Vec<D, double> b;
	for(size_t i = 0; i < D; ++i) b[i] = (double)i;
	b[c] = 0.7;
	auto v = nytl::luEvaluate(lu, b);
	double big = 1 + (x < 0 ? -(double)x : (double)x);
	CHECK(near(v[r], b[r] - (double)x * b[c], big), "the solution for a shear");
	for(size_t i = 0; i < D; ++i) {
		if(i != r) CHECK(near(v[i], b[i], 1), "the solution for a shear");
		for(size_t j = 0; j < D; ++j) CHECK(near(inv[i][j], i == j ? 1.0 : i == r && j == c ? -(double)x : 0.0, i == r && j == c ? 0 : 1), "the inverse of a shear has the negated element");
	}
}
template<size_t D> void diagonals() { // scaled axes: one arbitrary factor, powers of two elsewhere, arbitrary right side
	Mat<D, D, double> m {};
	size_t k = sx::choice(D, "k"), q = sx::choice(2, "rotated") ? 1 : 0; // rotated: row i has its element in column i + 1
	double x = awkward("x"), p[D];
	for(size_t i = 0; i < D; ++i) { p[i] = i % 3 == 0 ? 0x1p-300 : i % 3 == 1 ? -0x1p200 : 0x1p90; if(i == k) p[i] = 1; }
	for(size_t i = 0; i < D; ++i) m[i][(i + q) % D] = i == k ? x : p[i];
	double prod = x;
	for(size_t i = 0; i < D; ++i) if(i != k) prod = prod * p[i];
	if(D <= 3 && !q && k == 0) CHECK(near(nytl::determinant(m), prod), "the determinant is the product of the factors");
	Vec<D, double> b;
	for(size_t i = 0; i < D; ++i) b[i] = i == k ? 1.0 : (double)(2 * i + 1);
	size_t o = (k + 1) % D;
	b[o] = awkward("b");
	auto lu = nytl::luDecomp(m);
	auto s = nytl::luEvaluate(lu, b);
	for(size_t i = 0; i < D; ++i) if(i != k) CHECK(near(s[(i + q) % D], b[i] / p[i]), "the solution divides by the factors");
	CHECK(near(s[(k + q) % D], 1 / x), "the solution divides by the factors");
}
template<size_t D> void scaledSystems() { // multiplying with a power of two is exact
	auto a = family<D, D>(SX_THOROUGH ? 40 : 12, 0);
	static const double by[] = {0x1p-200, 0x1p-60, 0x1p-30, 0x1p30, 0x1p60, 0x1p200, -0x1p-70};
	double k = by[sx::choice(sizeof(by) / sizeof(by[0]), "scale")], kd = 1;
	Mat<D, D, double> m;
	for(size_t r = 0; r < D; ++r) { kd *= k; for(size_t c = 0; c < D; ++c) m[r][c] = k * a.e[r][c]; }
	double x = nytl::determinant(a.m), y = nytl::determinant(m);
	CHECK(y == kd * x, "the determinant of a multiple");
	CHECK(nytl::invertible(m) == (x != 0) && nytl::invertible(a.m) == (x != 0), "a multiple is invertible if the matrix is");
	if(x == 0) return;
	auto i = nytl::inverse(a.m), j = nytl::inverse(m);
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) CHECK(i[r][c] == k * j[r][c], "the inverse of a multiple");
	Vec<D, double> b;
	for(size_t r = 0; r < D; ++r) b[r] = 1 + r * 0.125;
	auto v = nytl::luEvaluate(nytl::luDecomp(a.m), b), w = nytl::luEvaluate(nytl::luDecomp(m), b);
	for(size_t r = 0; r < D; ++r) CHECK(v[r] == k * w[r], "the solution for a multiple");
}
}
ENTRY(shear_2) { shear<2, double>(); }
ENTRY(shear_3) { shear<3, double>(); }
ENTRY(shear_5) { shear<5, double>(); }
ENTRY(shear_3f) { shear<3, float>(); }
ENTRY(shear_9) { shear<9, double>(); }
ENTRY(diagonals_2) { diagonals<2>(); }
ENTRY(diagonals_3) { diagonals<3>(); }
ENTRY(diagonals_6) { diagonals<6>(); }
ENTRY(scaled_2) { scaledSystems<2>(); }
ENTRY(scaled_3) { scaledSystems<3>(); }
ENTRY(scaled_4) { scaledSystems<4>(); }
ENTRY(int_det_pivot) { int e[2][2] = {{-7, within(7)}, {within(7), within(7)}}; intDet(e); }
#if SX_THOROUGH
ENTRY(int_det) { int e[2][2]; for(auto& r : e) for(auto& x : r) x = within(3); intDet(e); }
ENTRY(int_det_pivot6) { int e[2][2] = {{6, within(7)}, {within(7), within(7)}}; intDet(e); }
ENTRY(int_det_pivot_below) { int e[2][2] = {{within(4), within(7)}, {5, within(7)}}; intDet(e); }
#endif
#else
namespace {
// exactly, with integer elements and right sides
template<size_t D> void integers() {
	Mat<D, D, int> a; double e[D][D];
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) e[r][c] = a[r][c] = num<int>("a");
	double ref = det(e);
	sx::same(nytl::determinant(nytl::luDecomp(a)), ref, "the determinant from a decomposition");
	sx::assume(ref != 0);
	Vec<D, int> b;
	for(size_t i = 0; i < D; ++i) b[i] = num<int>("b");
	auto lu = nytl::luDecomp(a);
	auto x = nytl::luEvaluate(lu, b);
	auto inv = nytl::inverse(a);
	for(size_t r = 0; r < D; ++r) {
		double s = 0;
		for(size_t c = 0; c < D; ++c) s = s + e[r][c] * x[c];
		sx::same(s, double(b[r]), "luEvaluate of a decomposition solves the system of the matrix");
		for(size_t c = 0; c < D; ++c) {
			double t = 0;
			for(size_t k = 0; k < D; ++k) t = t + e[r][k] * inv[k][c];
			sx::same(t, double(r == c), "a * inverse(a) is the identity");
		}
	}
}
template<size_t D> void intTriangular() {
	Mat<D, D, int> l {}, u {};
	Vec<D, int> b;
	for(size_t r = 0; r < D; ++r) {
		b[r] = num<int>("b");
		for(size_t c = 0; c <= r; ++c) l[r][c] = num<int>("l");
		for(size_t c = r; c < D; ++c) u[r][c] = num<int>("u");
		sx::assume(l[r][r] != 0);
		sx::assume(u[r][r] != 0);
	}
	auto x = nytl::luEvaluate(l, u, b);
	for(size_t r = 0; r < D; ++r) {
		double s = 0;
		for(size_t k = 0; k < D; ++k) for(size_t c = 0; c < D; ++c) s = s + double(l[r][k]) * double(u[k][c]) * x[c];
		sx::same(s, double(b[r]), "luEvaluate solves lower * upper * x == b");
	}
}
}
ENTRY(integers_1) { integers<1>(); }
ENTRY(integers_2) { integers<2>(); }
ENTRY(int_triangular_1) { intTriangular<1>(); }
ENTRY(int_triangular_2) { intTriangular<2>(); }
ENTRY(determinants_1) { determinants<1>(); }
ENTRY(determinants_2) { determinants<2>(); }
ENTRY(determinants_3) { determinants<3>(); }
ENTRY(inverses_1) { inverses<1>(); }
ENTRY(inverses_2) { inverses<2>(); }
ENTRY(inverses_3) { inverses<3>(); }
ENTRY(solve_1) { solve<1>(); }
ENTRY(solve_2) { solve<2>(); }
ENTRY(solve_3) { solve<3>(); }
ENTRY(triangular_1) { triangular<1>(); }
ENTRY(triangular_2) { triangular<2>(); }
ENTRY(triangular_3) { triangular<3>(); }
ENTRY(determinants_4) { determinants<4>(); }
ENTRY(family_det_5) { determinants<5>(family<5, 5>(SX_THOROUGH ? 60 : 12, 2)); }
ENTRY(family_inverse_4) { inverses<4>(family<4, 4>(SX_THOROUGH ? 60 : 12, 2)); }
ENTRY(family_inverse_5) { inverses<5>(family<5, 5>(SX_THOROUGH ? 60 : 12, 1)); }
ENTRY(family_solve_4) { solve<4>(family<4, 4>(SX_THOROUGH ? 60 : 12, 2)); }
ENTRY(family_solve_5) { solve<5>(family<5, 5>(SX_THOROUGH ? 60 : 12, 1)); }
#if SX_THOROUGH
ENTRY(triangular_4) { triangular<4>(); }
ENTRY(solve_4) { solve<4>(); }
ENTRY(inverses_4) { inverses<4>(); }
#endif
#endif
#endif
