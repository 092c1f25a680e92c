// C38 quaternion algebra, C39 matrices, axes and angles, C40 interpolation, C41 rotation sequences. Exact reals.
#include "sx.hpp"
#include <array>
#include <nytl/quaternion.hpp>
#include <cmath>

namespace {
using nytl::Quaternion;
using V = nytl::Vec3d;
Quaternion arb(const char* n) { Quaternion q; q.x = sx::f64(n); q.y = sx::f64(n); q.z = sx::f64(n); q.w = sx::f64(n); return q; }
Quaternion unit(const char* n) {
	Quaternion q = arb(n);
	__sx_assume_eq_f64(q.w * q.w, 1. - q.x * q.x - q.y * q.y - q.z * q.z);
	return q;
}
V vec(const char* n) { V v; v[0] = sx::f64(n); v[1] = sx::f64(n); v[2] = sx::f64(n); return v; }
[[maybe_unused]] void same(const Quaternion& a, const Quaternion& b, const char* id) { sx::same(a.x, b.x, id); sx::same(a.y, b.y, id); sx::same(a.z, b.z, id); sx::same(a.w, b.w, id); }
[[maybe_unused]] void same(const V& a, const V& b, const char* id) { for(int i = 0; i < 3; ++i) sx::same(a[i], b[i], id); }
// reference definitions, written without the library
Quaternion prod(const Quaternion& a, const Quaternion& b) {
	return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
		a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z};
}
double sq(const Quaternion& a) { return a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w; }
[[maybe_unused]] V rotated(const Quaternion& q, const V& v) { // q v q*
	Quaternion r = prod(prod(q, {v[0], v[1], v[2], 0.}), {-q.x, -q.y, -q.z, q.w});
	return {r.x, r.y, r.z};
}
struct M { double e[3][3]; };
[[maybe_unused]] M rotation(const Quaternion& q) { // columns are the rotated axes
	M m;
	for(int c = 0; c < 3; ++c) {
		V v {}; v[c] = 1.;
		V r = rotated(q, v);
		for(int i = 0; i < 3; ++i) m.e[i][c] = r[i];
	}
	return m;
}
M about(int axis, double angle) { // rotation about a coordinate axis
	double c = std::cos(angle), s = std::sin(angle);
	M m {};
	int i = (axis + 1) % 3, k = (axis + 2) % 3;
	m.e[axis][axis] = 1.; m.e[i][i] = c; m.e[k][k] = c; m.e[k][i] = s; m.e[i][k] = -s;
	return m;
}
M mul(const M& a, const M& b) {
	M m {};
	for(int i = 0; i < 3; ++i) for(int k = 0; k < 3; ++k) { double s = 0; for(int j = 0; j < 3; ++j) s = s + a.e[i][j] * b.e[j][k]; m.e[i][k] = s; }
	return m;
}
} // namespace

#if SX_PART == 38
ENTRY(equality) {
	auto a = arb("a"), b = arb("b");
	bool e = (a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.w == b.w);
	CHECK((a == b) == e, "quaternions are equal exactly if all components are");
	CHECK((a != b) == !e, "!= is the negation of ==");
}
#ifdef SX_REAL
ENTRY(product) {
	auto a = arb("a"), b = arb("b"), ao = a, bo = b;
	same(a * b, prod(ao, bo), "the product is the Hamilton product");
	same(a, ao, "operands are kept"); same(b, bo, "operands are kept");
	auto x = a; auto& r = (x *= b);
	same(x, prod(ao, bo), "the product in place"); CHECK(&r == &x, "compound assignment returns its object");
	x = a; x *= x;
	same(x, prod(ao, ao), "a *= a");
	x = b; x = a * x;
	same(x, prod(ao, bo), "b = a * b");
	Quaternion one;
	same(one * a, ao, "a new quaternion is the identity"); same(a * one, ao, "a new quaternion is the identity");
}
ENTRY(associative) {
	auto a = arb("a"), b = arb("b"), c = arb("c");
	same((a * b) * c, a * (b * c), "products are associative");
}
ENTRY(linear) {
	auto a = arb("a"), b = arb("b"), ao = a, bo = b;
	double f = sx::f64("f");
	same(a + b, {ao.x + bo.x, ao.y + bo.y, ao.z + bo.z, ao.w + bo.w}, "sum of quaternions");
	same(a - b, {ao.x - bo.x, ao.y - bo.y, ao.z - bo.z, ao.w - bo.w}, "difference of quaternions");
	same(f * a, {f * ao.x, f * ao.y, f * ao.z, f * ao.w}, "scaled quaternion");
	same(nytl::conjugated(a), {-ao.x, -ao.y, -ao.z, ao.w}, "the conjugate");
	same(a, ao, "operands are kept"); same(b, bo, "operands are kept");
}
ENTRY(norms) {
	auto a = arb("a"), b = arb("b");
	double na = nytl::norm(a), nb = nytl::norm(b), nab = nytl::norm(a * b);
	sx::same(na * na, sq(a), "the squared norm is the sum of squares");
	CHECK(na >= 0, "norms are not negative");
	sx::same(nab * nab, na * na * nb * nb, "the norm of a product is the product of the norms");
	auto p = a * nytl::conjugated(a);
	same(p, {0., 0., 0., sq(a)}, "a times its conjugate is the squared norm");
}
ENTRY(normalizing) {
	auto a = arb("a");
	auto n = nytl::normalized(a);
	if(sq(a) == 0) same(n, {0., 0., 0., 1.}, "the zero quaternion is normalised to the identity");
	else {
		double l = nytl::norm(a);
		sx::same(sq(n), 1., "normalised quaternions have norm 1");
		same(l * n, a, "normalising keeps the direction");
	}
}
ENTRY(normalizing_scaled) { // the result does not depend on the length, however small or large
	double s = sx::f64("s");
	sx::assume(s > 0);
	auto n = nytl::normalized(Quaternion{2. * s, -3. * s, 6. * s, 0.}), m = nytl::normalized(Quaternion{0., 0., -3. * s, 4. * s});
	same(7. * n, {2., -3., 6., 0.}, "normalising keeps the direction");
	same(5. * m, {0., 0., -3., 4.}, "normalising keeps the direction");
}
ENTRY(rotate) {
	auto q = arb("q"); auto v = vec("v"), vo = v;
	auto r = nytl::apply(q, v);
	same(r, rotated(q, v), "apply is q v conjugated(q)");
	same(v, vo, "operands are kept");
	double d = 0, l = 0;
	for(int i = 0; i < 3; ++i) { d = d + r[i] * r[i]; l = l + v[i] * v[i]; }
	sx::same(d, l * sq(q) * sq(q), "rotations keep lengths");
	nytl::Vec3f f; f[0] = sx::f32("f"); f[1] = sx::f32("f"); f[2] = sx::f32("f");
	auto rf = nytl::apply(q, f);
	auto ref = rotated(q, {f[0], f[1], f[2]});
	for(int i = 0; i < 3; ++i) sx::same(double(rf[i]), ref[i], "apply works for float vectors");
}
ENTRY(chain) {
	auto a = arb("a"), b = arb("b"); auto v = vec("v");
	same(nytl::apply(a * b, v), nytl::apply(a, nytl::apply(b, v)), "a product rotates by the second factor first");
	auto u = unit("u");
	same(nytl::apply(nytl::conjugated(u), nytl::apply(u, v)), v, "the conjugate is the inverse rotation");
	same(nytl::apply(-1. * u, v), nytl::apply(u, v), "q and -q are the same rotation");
}
ENTRY(angles_kept) {
	auto q = unit("q"); auto v = vec("v"), w = vec("w");
	auto rv = nytl::apply(q, v), rw = nytl::apply(q, w);
	sx::same(nytl::dot(rv, rw), v[0] * w[0] + v[1] * w[1] + v[2] * w[2], "rotations keep products");
	same(nytl::cross(rv, rw), nytl::apply(q, nytl::cross(v, w)), "rotations keep the orientation");
}
#endif
#endif

#if SX_PART == 39
namespace {
template<size_t N, typename T> void matrix() {
	auto q = unit("q");
	auto m = nytl::toMat<N, T>(q);
	auto ref = rotation(q);
	for(size_t r = 0; r < N; ++r) for(size_t c = 0; c < N; ++c)
		sx::same(m[r][c], T(r < 3 && c < 3 ? ref.e[r][c] : double(r == c)), "toMat is the rotation matrix, extended by the identity");
}
}
ENTRY(matrix_3) { matrix<3, double>(); }
ENTRY(matrix_4) { matrix<4, double>(); }
ENTRY(matrix_5) { matrix<5, double>(); }
ENTRY(matrix_4f) { matrix<4, float>(); }
ENTRY(matrix_default) {
	auto q = unit("q");
	auto m = nytl::toMat<3>(q);
	auto ref = rotation(q);
	for(int r = 0; r < 3; ++r) for(int c = 0; c < 3; ++c) sx::same(m[r][c], float(ref.e[r][c]), "toMat is the rotation matrix, extended by the identity");
}
ENTRY(matrix_apply) {
	auto q = unit("q"); auto v = vec("v");
	auto a = nytl::toMat<3, double>(q) * v;
	auto b = nytl::apply(q, v);
	for(int i = 0; i < 3; ++i) sx::same(a[i], b[i], "the matrix rotates like the quaternion");
}
ENTRY(axis_angle) {
	auto n = vec("n"); // unit axis
	__sx_assume_eq_f64(n[0] * n[0], 1. - n[1] * n[1] - n[2] * n[2]);
	double h = sx::f64("h"), t = 2 * h;
	auto q = Quaternion::axisAngle(n[0], n[1], n[2], t);
	sx::same(sq(q), 1., "the quaternion of a unit axis is a unit quaternion");
	auto v = vec("v");
	double c = std::cos(t), s = std::sin(t), d = n[0] * v[0] + n[1] * v[1] + n[2] * v[2];
	V cr {n[1] * v[2] - n[2] * v[1], n[2] * v[0] - n[0] * v[2], n[0] * v[1] - n[1] * v[0]};
	auto r = nytl::apply(q, v);
	for(int i = 0; i < 3; ++i) sx::same(r[i], v[i] * c + cr[i] * s + n[i] * d * (1 - c), "axisAngle rotates around the axis by the angle");
	same(nytl::apply(q, n), n, "the axis is not moved");
}
ENTRY(axis_angle_vec) {
	nytl::Vec3f n; n[0] = sx::f32("n"); n[1] = sx::f32("n"); n[2] = sx::f32("n");
	double t = sx::f64("t");
	auto q = Quaternion::axisAngle(n, t), p = Quaternion::axisAngle(n[0], n[1], n[2], t);
	same(q, p, "the axis may be given as vector");
	sx::same(q.w, std::cos(t / 2), "the real part is the cosine of the half angle");
	sx::same(q.x, n[0] * std::sin(t / 2), "the imaginary part is the axis scaled with the sine of the half angle");
	sx::same(q.y, n[1] * std::sin(t / 2), "the imaginary part is the axis scaled with the sine of the half angle");
	sx::same(q.z, n[2] * std::sin(t / 2), "the imaginary part is the axis scaled with the sine of the half angle");
}
ENTRY(sequence) {
	double y = sx::f64("yaw"), p = sx::f64("pitch"), r = sx::f64("roll");
	auto q = Quaternion::yxz(y, p, r);
	same(q, Quaternion::axisAngle(0, 1, 0, y) * Quaternion::axisAngle(1, 0, 0, p) * Quaternion::axisAngle(0, 0, 1, r), "yxz is the product of the three rotations");
	sx::same(sq(q), 1., "yxz gives unit quaternions");
}
ENTRY(sequence_matrix) {
	double y = sx::f64("yaw"), p = sx::f64("pitch"), r = sx::f64("roll");
	auto m = nytl::toMat<3, double>(Quaternion::yxz(y, p, r));
	auto ref = mul(mul(about(1, y), about(0, p)), about(2, r));
	for(int i = 0; i < 3; ++i) for(int k = 0; k < 3; ++k) sx::same(m[i][k], ref.e[i][k], "yxz rotates by roll, pitch and yaw about the coordinate axes");
}
namespace {
template<typename P> void fromMatrix() { // every rotation matrix is the matrix of a unit quaternion
	auto q = unit("q");
	auto ref = rotation(q);
	nytl::Mat3<P> m {};
	for(int r = 0; r < 3; ++r) for(int c = 0; c < 3; ++c) m[r][c] = P(ref.e[r][c]);
	auto p = Quaternion::fromMat(m);
	sx::same(P(sq(p)), P(1), "fromMat gives unit quaternions");
	auto back = rotation(p);
	for(int r = 0; r < 3; ++r) for(int c = 0; c < 3; ++c) sx::same(P(back.e[r][c]), P(ref.e[r][c]), "fromMat gives the rotation of the matrix");
}
}
ENTRY(from_matrix) { fromMatrix<double>(); }
ENTRY(from_matrix_float) { fromMatrix<float>(); }
#endif

#if SX_PART == 40
ENTRY(products) {
	auto a = arb("a"), b = arb("b");
	double d = nytl::dot(a, b);
	sx::same(d, a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, "dot is the sum of products");
	sx::same(nytl::dot(b, a), d, "dot is symmetric");
	sx::same(nytl::dot(a, a), sq(a), "dot with itself is the squared norm");
}
namespace {
double ref(const Quaternion& a, const Quaternion& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
void bounded(double d) { sx::assume(d <= 1); sx::assume(d >= -1); } // Cauchy-Schwarz
bool near(double d) { bool neg = sx::choice(2, "opposite"); bounded(d); if(neg) sx::assume(d < -0.9999); else sx::assume(d > 0.9999); return neg; }
void apart(double d) { sx::assume(d < 0.999); sx::assume(d > -0.999); sx::assume(1. - d * d > 0); }
}
ENTRY(ends) {
	auto a = unit("a"), b = unit("b");
	double d = ref(a, b);
	apart(d);
	same(nytl::slerp(a, b, 0.), a, "slerp starts at the first quaternion");
	auto e = nytl::slerp(a, b, 1.);
	if(d < 0) same(e, -1. * b, "slerp ends at the negated second quaternion if that is closer");
	else same(e, b, "slerp ends at the second quaternion");
}
ENTRY(close_ends) {
	auto a = unit("a"), b = unit("b");
	double d = ref(a, b);
	bool neg = near(d);
	same(nytl::slerp(a, b, 0.), a, "slerp starts at the first quaternion");
	auto e = nytl::slerp(a, b, 1.);
	if(neg) same(e, -1. * b, "slerp ends at the negated second quaternion if that is closer");
	else same(e, b, "slerp ends at the second quaternion");
}
ENTRY(sphere) {
	auto a = unit("a"), b = unit("b");
	double t = sx::f64("t"), d = ref(a, b);
	apart(d);
	auto r = nytl::slerp(a, b, t);
	sx::same(sq(r), 1., "slerp gives unit quaternions");
	double c = d < 0 ? -d : d;
	double th = std::acos(c);
	sx::same(ref(r, a), std::cos(th * t), "the angle to the first quaternion grows linearly");
	if(d < 0) sx::same(ref(r, b), -std::cos(th - th * t), "the angle to the second quaternion shrinks linearly");
	else sx::same(ref(r, b), std::cos(th - th * t), "the angle to the second quaternion shrinks linearly");
}
ENTRY(middle) {
	auto a = unit("a"), b = unit("b");
	double d = ref(a, b);
	apart(d);
	auto r = nytl::slerp(a, b, 0.5);
	auto s = d < 0 ? a - b : a + b; // bisector
	double k = ref(r, s);
	sx::same(k * k, sq(s), "the middle of slerp is the bisector");
	CHECK(k >= 0, "the middle of slerp is on the shorter path");
}
ENTRY(sign) {
	auto a = unit("a"), b = unit("b");
	double t = sx::f64("t"), d = ref(a, b);
	apart(d);
	sx::assume(d != 0);
	same(nytl::slerp(a, -1. * b, t), nytl::slerp(a, b, t), "the sign of the second quaternion does not matter");
}
ENTRY(close) { // nearly equal or opposite: linear
	auto a = unit("a"), b = unit("b");
	double t = sx::f64("t"), d = ref(a, b);
	bool neg = near(d);
	sx::assume(t >= 0); sx::assume(t <= 1);
	auto m = neg ? -1. * b : b;
	Quaternion l {a.x + t * (m.x - a.x), a.y + t * (m.y - a.y), a.z + t * (m.z - a.z), a.w + t * (m.w - a.w)};
	sx::assume(sq(l) > 0); // follows
	double n = nytl::norm(l);
	sx::assume(n > 0);
	auto r = nytl::slerp(a, b, t);
	sx::same(sq(r), 1., "slerp gives unit quaternions");
	same(n * r, l, "nearly equal quaternions are interpolated linearly");
}
#endif

#if SX_PART == 41
namespace {
using S = nytl::RotationSequence;
struct Seq { S s; int a, b, c; };
constexpr Seq seqs[] = {
	{S::xyx, 0, 1, 0}, {S::xzx, 0, 2, 0}, {S::yzy, 1, 2, 1}, {S::yxy, 1, 0, 1}, {S::zxz, 2, 0, 2}, {S::zyz, 2, 1, 2},
	{S::xyz, 0, 1, 2}, {S::xzy, 0, 2, 1}, {S::yxz, 1, 0, 2}, {S::yzx, 1, 2, 0}, {S::zxy, 2, 0, 1}, {S::zyx, 2, 1, 0},
};
double comp(const Quaternion& q, int i) { return i == 0 ? q.x : i == 1 ? q.y : q.z; }
void set(Quaternion& q, int i, double v) { (i == 0 ? q.x : i == 1 ? q.y : q.z) = v; }
void check(const Quaternion& q, const Seq& s, const char* id) {
	auto e = nytl::eulerAngles(q, s.s);
	auto m = mul(mul(about(s.a, e[0]), about(s.b, e[1])), about(s.c, e[2]));
	auto r = rotation(q);
	for(int i = 0; i < 3; ++i) for(int k = 0; k < 3; ++k) sx::same(m.e[i][k], r.e[i][k], id);
}
void regular(int n) {
	__sx_abs_fork(1);
	auto& s = seqs[n];
	auto q = unit("q");
	auto r = rotation(q);
	double c = s.a == s.c ? r.e[s.a][s.a] : r.e[s.a][s.c]; // cosine or sine of the middle angle
	sx::assume(c <= 0.9999995); sx::assume(c >= -0.9999995);
	sx::assume(1. - c * c > 0); // follows
	check(q, s, "the rotations by the angles give the rotation of the quaternion");
	auto e = nytl::eulerAngles(q, s.s);
	if(s.a == s.c) CHECK(std::sin(e[1]) >= 0, "the middle angle is in [0, pi]");
	else CHECK(std::cos(e[1]) >= 0, "the middle angle is in [-pi/2, pi/2]");
}
// the first and the last axis coincide: product of a rotation about the first axis and the middle rotation
void aligned(int n) {
	auto& s = seqs[n];
	double u = sx::f64("u"), v = sx::f64("v"); // a unit quaternion about the first axis
	__sx_assume_eq_f64(v * v, 1. - u * u);
	Quaternion a {0., 0., 0., v}, b {0., 0., 0., 1.};
	set(a, s.a, u);
	unsigned side = sx::choice(2, "side");
	if(s.a == s.c) { if(side) { b.w = 0.; set(b, s.b, 1.); } }
	else { // a quarter turn; the common factor sqrt(1/2) is scaled out of both
		double h = sx::f64("h");
		sx::assume(h > 0);
		__sx_assume_eq_f64(h * h, 0.5);
		b.w = h; set(b, s.b, side ? -h : h);
	}
	check(prod(a, b), s, "the angles are right if the middle rotation aligns the other axes");
}
// rounding errors make the cosine or sine of the middle angle slightly larger than 1
void beyond(int n) {
	auto& s = seqs[n];
	double f = sx::f64("f");
	sx::assume(f >= 1); sx::assume(f <= 1.0000001);
	Quaternion q {0., 0., 0., 0.};
	if(s.a == s.c) q.w = f; // the identity, slightly scaled
	else { q.w = f * 0.75; set(q, s.b, f * 0.75); } // 2 * w * b = 1.125 f^2
	auto e = nytl::eulerAngles(q, s.s);
	sx::same(std::cos(e[1]), s.a == s.c ? 1. : 0., "rounding errors do not make the middle angle undefined");
	sx::same(std::sin(e[1]), s.a == s.c ? 0. : 1., "rounding errors do not make the middle angle undefined");
}
}
#ifndef SX_REAL
// Precision: products of a rotation about the first axis and one of the cube, in double arithmetic.
namespace {
void precise(int n) {
	auto& s = seqs[n];
	static const double half[] = {1., 0.9659258262890683, 0.8660254037844387, 0.7071067811865476, 0.5, 0.25881904510252074, 0., -0.5};
	static const double halfSin[] = {0., 0.25881904510252074, 0.5, 0.7071067811865476, 0.8660254037844387, 0.9659258262890683, 1., 0.8660254037844387};
	int k = (int)sx::choice(8, "turn"), axis = (int)sx::choice(3, "axis"), t = (int)sx::choice(4, "quarter turns");
	static const double c[] = {1., 0.7071067811865476, 0., 0.7071067811865476}, d[] = {0., 0.7071067811865476, 1., -0.7071067811865476};
	Quaternion a {0., 0., 0., half[k]}, b {0., 0., 0., c[t]};
	set(a, s.a, halfSin[k]);
	set(b, axis, d[t]);
	auto q = prod(a, b);
	auto e = nytl::eulerAngles(q, s.s);
	auto m = mul(mul(about(s.a, e[0]), about(s.b, e[1])), about(s.c, e[2]));
	auto r = rotation(q);
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
		CHECK(std::fabs(m.e[i][j] - r.e[i][j]) < 4e-8, "the rotations by the angles give the rotation of the quaternion");
	constexpr double pi = 3.14159265358979323846;
	CHECK(e[1] <= pi && e[1] >= -pi / 2, "the middle angle is in its range");
}
}
#define S1(n) ENTRY(precise_##n) { precise(n); }
#else
#define S1(n) ENTRY(regular_##n) { regular(n); } ENTRY(aligned_##n) { aligned(n); } ENTRY(beyond_##n) { beyond(n); }
#endif
S1(0) S1(1) S1(2) S1(3) S1(4) S1(5) S1(6) S1(7) S1(8) S1(9) S1(10) S1(11)
#endif
