// C42 projections, C43 rotations and views, C44 composition of transforms. Exact reals.
#include "sx.hpp"
#include <array>
#include <nytl/transform.hpp>
#include <cmath>

namespace {
template<class P> P real(const char* n) { return sx::val<P>(n); }
template<class P> nytl::Vec3<P> vec(const char* n) { nytl::Vec3<P> v; for(int i = 0; i < 3; ++i) v[i] = real<P>(n); return v; }
template<class P> nytl::Vec3<P> unit(const char* n) {
	auto v = vec<P>(n);
	__sx_assume_eq_f64(double(v[2]) * v[2], 1. - double(v[0]) * v[0] - double(v[1]) * v[1]);
	return v;
}
[[maybe_unused]] double d(double x) { return x; }
template<class A, class B> double dot3(const A& a, const B& b) { double s = 0; for(int i = 0; i < 3; ++i) s = s + double(a[i]) * double(b[i]); return s; }
template<class A, class B> std::array<double, 3> cross3(const A& a, const B& b) {
	return {double(a[1]) * b[2] - double(a[2]) * b[1], double(a[2]) * b[0] - double(a[0]) * b[2], double(a[0]) * b[1] - double(a[1]) * b[0]};
}
template<size_t D, class P> nytl::SquareMat<D, P> arbMat(const char* n) {
	nytl::SquareMat<D, P> m {};
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) m[r][c] = real<P>(n);
	return m;
}
template<size_t N, class T> struct Arr { T e[N] {}; };
// rows 0..2 of m applied to (v, w), reference
template<class M, class V> std::array<double, 3> lin(const M& m, const V& v) {
	std::array<double, 3> r {};
	for(int i = 0; i < 3; ++i) { r[i] = 0; for(int k = 0; k < 3; ++k) r[i] = r[i] + double(m[i][k]) * double(v[k]); }
	return r;
}
template<class A, class B> void same3(const A& a, const B& b, const char* id) { for(int i = 0; i < 3; ++i) sx::same(double(a[i]), double(b[i]), id); }
template<size_t F, size_t D, class M> void unitRest(const M& m, const char* id) { // identity outside the first F x F block
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) if(r >= F || c >= F) sx::same(double(m[r][c]), double(r == c), id);
}
template<size_t N, class M> void orthonormal(const M& m, const char* id) { // of the rows
	for(size_t r = 0; r < N; ++r) for(size_t q = 0; q <= r; ++q) {
		double s = 0;
		for(size_t c = 0; c < N; ++c) s = s + double(m[r][c]) * double(m[q][c]);
		sx::same(s, double(r == q), id);
	}
}
} // namespace

#if SX_PART == 42
namespace {
// homogeneous image of (x, y, z), divided by w
template<class P> struct Img { double x, y, z, w; };
template<class P> Img<P> image(const nytl::Mat4<P>& m, double x, double y, double z) {
	double o[4];
	for(int i = 0; i < 4; ++i) o[i] = double(m[i][0]) * x + double(m[i][1]) * y + double(m[i][2]) * z + double(m[i][3]);
	return {o[0] / o[3], o[1] / o[3], o[2] / o[3], o[3]};
}
template<class P> struct Box { P l, r, b, t; };
template<class P> Box<P> box() {
	Box<P> x {real<P>("left"), real<P>("right"), real<P>("bottom"), real<P>("top")};
	sx::assume(x.l != x.r); sx::assume(x.b != x.t);
	return x;
}
// near and far on the same side of the origin, far behind near
template<class P> void planes(P& n, P& f) {
	n = real<P>("near"); f = real<P>("far");
	if(sx::choice(2, "right handed")) { sx::assume(n < 0); sx::assume(f < n); }
	else { sx::assume(n > 0); sx::assume(f > n); }
}
template<class P> void point(const nytl::Mat4<P>& m, P x, P y, P z, double ex, double ey, double ez, const char* id) {
	auto r = nytl::multPos(m, nytl::Vec3<P>{x, y, z});
	sx::same(double(r[0]), ex, id); sx::same(double(r[1]), ey, id); sx::same(double(r[2]), ez, id);
}
template<class P> void orthoTest() {
	auto b = box<P>();
	P n = real<P>("near"), f = real<P>("far");
	sx::assume(n != f);
	auto m = nytl::ortho<P>(b.l, b.r, b.b, b.t, n, f);
	point<P>(m, b.l, b.b, n, -1, -1, 0, "ortho maps (left, bottom, near) to (-1, -1, 0)");
	point<P>(m, b.r, b.t, f, 1, 1, 1, "ortho maps (right, top, far) to (1, 1, 1)");
	point<P>(m, b.l, b.t, f, -1, 1, 1, "ortho maps (left, top, far) to (-1, 1, 1)");
	point<P>(m, b.r, b.b, n, 1, -1, 0, "ortho maps (right, bottom, near) to (1, -1, 0)");
	// affine: any point
	P u = real<P>("u"), v = real<P>("v"), w = real<P>("w");
	P x = b.l + u * (b.r - b.l), y = b.b + v * (b.t - b.b), z = n + w * (f - n);
	auto i = image<P>(m, x, y, z);
	sx::same(i.w, 1., "ortho does not divide");
	sx::same(i.x, 2. * u - 1., "ortho maps linearly"); sx::same(i.y, 2. * v - 1., "ortho maps linearly"); sx::same(i.z, double(w), "ortho maps linearly");
}
// corners at depth z of a frustum given at the near plane
template<class P> void corners(const nytl::Mat4<P>& m, const Box<P>& b, P n, P z, double depth, const char* id) {
	P k = z / n;
	point<P>(m, b.l * k, b.b * k, z, -1, -1, depth, id);
	point<P>(m, b.r * k, b.t * k, z, 1, 1, depth, id);
	point<P>(m, b.r * k, b.b * k, z, 1, -1, depth, id);
}
template<class P> void inside(const nytl::Mat4<P>& m, P z) { // w keeps the side of the camera
	auto i = image<P>(m, 0., 0., z);
	CHECK(i.w != 0, "points in front of the camera can be projected");
}
template<class P> void frustumTest() {
	auto b = box<P>(); P n, f; planes(n, f);
	auto m = nytl::frustum<P>(b.l, b.r, b.b, b.t, n, f);
	corners<P>(m, b, n, n, 0, "frustum maps the near corners to depth 0");
	corners<P>(m, b, n, f, 1, "frustum maps the far corners to depth 1");
	inside<P>(m, n); inside<P>(m, f);
}
template<class P> void frustumRevTest() {
	auto b = box<P>(); P n, f; planes(n, f);
	auto m = nytl::frustumRev<P>(b.l, b.r, b.b, b.t, n, f);
	corners<P>(m, b, n, n, 1, "frustumRev maps the near corners to depth 1");
	corners<P>(m, b, n, f, 0, "frustumRev maps the far corners to depth 0");
	inside<P>(m, n); inside<P>(m, f);
}
template<class P> void frustumInfTest() {
	auto b = box<P>(); P n, f; planes(n, f);
	auto m = nytl::frustumRevInf<P>(b.l, b.r, b.b, b.t, n);
	corners<P>(m, b, n, n, 1, "frustumRevInf maps the near corners to depth 1");
	P z = f; // anywhere behind the near plane: depth falls towards 0 with the distance
	corners<P>(m, b, n, z, double(n) / double(z), "frustumRevInf maps depth to near / z");
	double dz = image<P>(m, 0., 0., z).z;
	CHECK(dz > 0, "depth is positive for every distance"); CHECK(dz < 1, "depth falls with the distance");
}
template<class P> void persp(const nytl::Mat4<P>& m, P fov, P aspect, P z, double depth, double front, const char* id) {
	P h = P(std::tan(fov / P(2))) * z; // half height of the visible area
	if(z < 0) h = -h;
	point<P>(m, P(0), P(0), z, 0, 0, depth, id);
	point<P>(m, h * aspect, h, z, 1, 1, depth, id);
	point<P>(m, -h * aspect, h, z, -1, 1, depth, id);
	point<P>(m, P(0), -h, z, 0, -1, depth, id);
	auto i = image<P>(m, 0., 0., z);
	CHECK(i.w * front > 0, "points in front of the camera have positive w");
}
template<class P> void fovAspect(P& fov, P& aspect) {
	P h = real<P>("fov"); fov = P(2) * h;
	aspect = real<P>("aspect");
	sx::assume(aspect > 0);
	double c = std::cos(h), t = std::sin(h);
	sx::assume(c > 0); sx::assume(t > 0); // 0 < fov < pi
}
// any order of near and far
template<class P> double anyPlanes(P& n, P& f) {
	n = real<P>("near"); f = real<P>("far");
	sx::assume(n != f);
	if(sx::choice(2, "right handed")) { sx::assume(n < 0); sx::assume(f < 0); }
	else { sx::assume(n > 0); sx::assume(f > 0); }
	return 1.;
}
template<class P> void perspectiveTest() {
	P fov, asp, n, f; fovAspect(fov, asp); anyPlanes(n, f);
	auto m = nytl::perspective<P>(fov, asp, n, f);
	persp<P>(m, fov, asp, n, 0, 1, "perspective maps the visible area at near to depth 0");
	persp<P>(m, fov, asp, f, 1, 1, "perspective maps the visible area at far to depth 1");
}
template<class P> void perspectiveRevTest() {
	P fov, asp, n, f; fovAspect(fov, asp); anyPlanes(n, f);
	auto m = nytl::perspectiveRev<P>(fov, asp, n, f);
	persp<P>(m, fov, asp, n, 1, 1, "perspectiveRev maps the visible area at near to depth 1");
	persp<P>(m, fov, asp, f, 0, 1, "perspectiveRev maps the visible area at far to depth 0");
}
template<class P> void perspectiveInfTest() {
	P fov, asp, n, f; fovAspect(fov, asp); planes(n, f);
	auto m = nytl::perspectiveRevInf<P>(fov, asp, n);
	persp<P>(m, fov, asp, n, 1, 1, "perspectiveRevInf maps the visible area at near to depth 1");
	persp<P>(m, fov, asp, f, double(n) / double(f), 1, "perspectiveRevInf maps depth to near / z");
}
template<class P> void multTest() {
	auto m = arbMat<4, P>("m"); auto v = vec<P>("v"), vo = v;
	double w = double(m[3][0]) * v[0] + double(m[3][1]) * v[1] + double(m[3][2]) * v[2] + double(m[3][3]);
	sx::assume(w != 0);
	auto r = nytl::multPos(m, v);
	auto i = image<P>(m, vo[0], vo[1], vo[2]);
	sx::same(double(r[0]), i.x, "multPos divides by w"); sx::same(double(r[1]), i.y, "multPos divides by w"); sx::same(double(r[2]), i.z, "multPos divides by w");
}
}
#define BOTH(name, fn) ENTRY(name) { fn<float>(); } ENTRY(name##_d) { fn<double>(); }
BOTH(ortho, orthoTest) BOTH(frustum, frustumTest) BOTH(frustum_rev, frustumRevTest) BOTH(frustum_inf, frustumInfTest)
BOTH(perspective, perspectiveTest) BOTH(perspective_rev, perspectiveRevTest) BOTH(perspective_inf, perspectiveInfTest) BOTH(mult_pos, multTest)
#endif

#if SX_PART == 43
namespace {
template<class P> void baseTest() {
	auto v = unit<P>("dir");
	if(v[2] < P(-0.9999)) return; // baseClose
	auto b = nytl::base(v);
	sx::same(dot3(b[0], b[0]), 1., "base gives unit vectors"); sx::same(dot3(b[1], b[1]), 1., "base gives unit vectors");
	sx::same(dot3(b[0], v), 0., "base gives orthogonal vectors"); sx::same(dot3(b[1], v), 0., "base gives orthogonal vectors");
	sx::same(dot3(b[0], b[1]), 0., "the vectors of base are orthogonal to each other");
}
template<class P> void baseClose() { // around the singularity at (0, 0, -1)
	auto v = unit<P>("dir");
	sx::assume(v[2] < P(-0.9999));
	sx::assume(v[2] >= P(-1));
	double x2 = double(v[0]) * v[0], y2 = double(v[1]) * v[1];
	sx::assume(x2 < 0.0002); sx::assume(y2 < 0.0002); // follow
	auto b = nytl::base(v);
	sx::same(dot3(b[0], b[0]), 1., "base gives unit vectors"); sx::same(dot3(b[1], b[1]), 1., "base gives unit vectors");
	sx::same(dot3(b[0], b[1]), 0., "the vectors of base are orthogonal to each other");
	double p = dot3(b[0], v), q = dot3(b[1], v);
	CHECK(p * p < 0.0002, "base gives nearly orthogonal vectors next to the singularity"); CHECK(q * q < 0.0002, "base gives nearly orthogonal vectors next to the singularity");
}
template<class P> void baseDown() { // the singularity itself
	nytl::Vec3<P> v {P(0), P(0), P(-1)};
	auto b = nytl::base(v);
	sx::same(dot3(b[0], b[0]), 1., "base gives unit vectors"); sx::same(dot3(b[1], b[1]), 1., "base gives unit vectors");
	sx::same(dot3(b[0], v), 0., "base gives orthogonal vectors"); sx::same(dot3(b[1], v), 0., "base gives orthogonal vectors");
	sx::same(dot3(b[0], b[1]), 0., "the vectors of base are orthogonal to each other");
}
template<class P> std::array<double, 3> rodrigues(const nytl::Vec3<P>& v, const nytl::Vec3<P>& n, P t) {
	double c = std::cos(t), s = std::sin(t), k = dot3(n, v);
	auto x = cross3(n, v);
	std::array<double, 3> r;
	for(int i = 0; i < 3; ++i) r[i] = c * v[i] + s * x[i] + k * (1. - c) * n[i];
	return r;
}
template<class P> void rotateVec() {
	auto n = unit<P>("axis"); auto v = vec<P>("v"); P t = real<P>("angle");
	auto vo = v; auto no = n;
	auto r = nytl::rotate(v, n, t);
	same3(r, rodrigues<P>(vo, no, t), "rotate turns the vector around the axis");
	sx::same(dot3(r, r), dot3(v, v), "rotations keep lengths");
	sx::same(dot3(r, n), dot3(v, n), "rotations keep the part along the axis");
	same3(nytl::rotate(r, n, -t), v, "the opposite rotation goes back");
	same3(nytl::rotate(n, n, t), n, "the axis is not moved");
}
template<class P> void quarter() { // orientation: x to y about z
	P h = real<P>("h");
	nytl::Vec3<P> x {P(1), P(0), P(0)}, z {P(0), P(0), P(1)};
	auto r = nytl::rotate(x, z, h);
	sx::same(double(r[0]), double(std::cos(h)), "rotations are counterclockwise"); sx::same(double(r[1]), double(std::sin(h)), "rotations are counterclockwise"); sx::same(double(r[2]), 0., "rotations are counterclockwise");
}
template<size_t D, class P> void rotateMat3() {
	auto n = unit<P>("axis"); auto v = vec<P>("v"); P t = real<P>("angle");
	auto m = nytl::rotateMat<D>(n, t);
	same3(lin(m, v), rodrigues<P>(v, n, t), "the matrix rotates around the axis by the angle");
	unitRest<3, D>(m, "rotateMat is the identity in further dimensions");
}
template<size_t D, class P> void rotateMat2() {
	P t = real<P>("angle");
	auto m = nytl::rotateMat<D, P>(t);
	double c = std::cos(t), s = std::sin(t);
	sx::same(double(m[0][0]), c, "rotateMat rotates counterclockwise in the plane"); sx::same(double(m[1][1]), c, "rotateMat rotates counterclockwise in the plane");
	sx::same(double(m[1][0]), s, "rotateMat rotates counterclockwise in the plane"); sx::same(double(m[0][1]), -s, "rotateMat rotates counterclockwise in the plane");
	unitRest<2, D>(m, "rotateMat is the identity in further dimensions");
}
template<size_t D, class P> void orient2() {
	nytl::Vec2<P> a, b;
	a[0] = real<P>("from"); a[1] = real<P>("from"); b[0] = real<P>("to"); b[1] = real<P>("to");
	double l = double(a[0]) * a[0] + double(a[1]) * a[1];
	sx::assume(l > 0);
	auto m = nytl::orientMat<D, P>(a, b);
	for(int i = 0; i < 2; ++i) sx::same(double(m[i][0]) * a[0] + double(m[i][1]) * a[1], double(b[i]), "orientMat maps the first vector to the second");
	sx::same(double(m[0][0]), double(m[1][1]), "orientMat is a rotation, scaled"); sx::same(double(m[0][1]), -double(m[1][0]), "orientMat is a rotation, scaled");
	unitRest<2, D>(m, "orientMat is the identity in further dimensions");
}
template<size_t D, class P> void orient3() {
	auto a = unit<P>("from"), b = unit<P>("to");
	double c = dot3(a, b);
	sx::assume(1. + c != 0); // not opposite
	auto m = nytl::orientMat<D, P>(a, b);
	same3(lin(m, a), b, "orientMat maps the first vector to the second");
	auto s = cross3(a, b);
	same3(lin(m, s), s, "the axis is orthogonal to both");
	unitRest<3, D>(m, "orientMat is the identity in further dimensions");
	orthonormal<3>(m, "orientMat is a rotation");
	double t = double(m[0][0]) + double(m[1][1]) + double(m[2][2]);
	sx::same(t, 1. + 2. * c, "the angle is the one between the vectors");
}
// up not parallel to z
template<class P> void view(nytl::Vec3<P>& z, nytl::Vec3<P>& up) {
	z = unit<P>("z"); up = vec<P>("up");
	auto c = cross3(up, z);
	sx::assume(dot3(c, c) > 0);
}
template<class M, class P> void axes(const M& m, const nytl::Vec3<P>& z, const nytl::Vec3<P>& up) {
	auto iz = lin(m, z);
	sx::same(iz[0], 0., "lookAt maps the direction to the z axis"); sx::same(iz[1], 0., "lookAt maps the direction to the z axis"); sx::same(iz[2], 1., "lookAt maps the direction to the z axis");
	auto iu = lin(m, up);
	sx::same(iu[0], 0., "up stays in the plane of y and z");
	CHECK(iu[1] > 0, "up points to positive y");
	orthonormal<3>(m, "lookAt is a rotation");
	same3(cross3(m[0], m[1]), m[2], "lookAt keeps the orientation");
}
template<class P> void lookPos() {
	nytl::Vec3<P> z, up; view(z, up);
	auto pos = vec<P>("pos");
	auto m = nytl::lookAt(pos, z, up);
	auto o = lin(m, pos);
	for(int i = 0; i < 3; ++i) sx::same(o[i] + double(m[i][3]), 0., "lookAt moves the position to the origin");
	for(int i = 0; i < 4; ++i) sx::same(double(m[3][i]), double(i == 3), "the last row is that of the identity");
	auto n = nytl::lookAt<3>(z, up);
	for(int r = 0; r < 3; ++r) for(int c = 0; c < 3; ++c) sx::same(double(m[r][c]), double(n[r][c]), "both forms of lookAt orient alike");
}
template<class P> void lookAxes() {
	nytl::Vec3<P> z, up; view(z, up);
	nytl::Vec3<P> pos {P(0), P(0), P(0)};
	axes<nytl::Mat4<P>, P>(nytl::lookAt(pos, z, up), z, up);
}
template<size_t D, class P> void lookDir() {
	nytl::Vec3<P> z, up; view(z, up);
	auto m = nytl::lookAt<D>(z, up);
	axes<nytl::SquareMat<D, P>, P>(m, z, up);
	unitRest<3, D>(m, "lookAt is the identity in further dimensions");
}
nytl::Quaternion unitQ() {
	nytl::Quaternion q; q.x = sx::f64("q"); q.y = sx::f64("q"); q.z = sx::f64("q"); q.w = sx::f64("q");
	__sx_assume_eq_f64(q.w * q.w, 1. - q.x * q.x - q.y * q.y - q.z * q.z);
	return q;
}
template<class P> void lookQuat() {
	auto q = unitQ(); auto pos = vec<P>("pos"), v = vec<P>("v");
	auto m = nytl::lookAt(q, pos);
	auto r = nytl::apply(q, v);
	nytl::Vec3<P> p; for(int i = 0; i < 3; ++i) p[i] = r[i] + pos[i];
	auto o = lin(m, p);
	for(int i = 0; i < 3; ++i) sx::same(o[i] + double(m[i][3]), double(v[i]), "lookAt undoes the rotation and translation");
	for(int i = 0; i < 4; ++i) sx::same(double(m[3][i]), double(i == 3), "the last row is that of the identity");
}
template<class P> void lookBoth() {
	auto q = unitQ(); auto pos = vec<P>("pos");
	auto m = nytl::lookAt(q, pos);
	auto z = nytl::apply(q, nytl::Vec3<P>{P(0), P(0), P(1)}), y = nytl::apply(q, nytl::Vec3<P>{P(0), P(1), P(0)});
	auto n = nytl::lookAt(pos, z, y);
	for(int r = 0; r < 4; ++r) for(int c = 0; c < 4; ++c) sx::same(double(m[r][c]), double(n[r][c]), "both forms of lookAt agree");
}
}
#define BOTH(name, ...) ENTRY(name) { using P = float; __VA_ARGS__; } ENTRY(name##_d) { using P = double; __VA_ARGS__; }
BOTH(base, baseTest<P>()) BOTH(base_close, baseClose<P>()) BOTH(base_down, baseDown<P>())
BOTH(rotate, rotateVec<P>()) BOTH(quarter, quarter<P>())
BOTH(rotate3_3, rotateMat3<3, P>()) BOTH(rotate3_4, rotateMat3<4, P>()) BOTH(rotate3_5, rotateMat3<5, P>())
BOTH(rotate2_2, rotateMat2<2, P>()) BOTH(rotate2_3, rotateMat2<3, P>()) BOTH(rotate2_4, rotateMat2<4, P>())
BOTH(orient2_2, orient2<2, P>()) BOTH(orient2_3, orient2<3, P>()) BOTH(orient2_4, orient2<4, P>())
BOTH(orient3_3, orient3<3, P>()) BOTH(orient3_4, orient3<4, P>())
BOTH(look_pos, lookPos<P>()) BOTH(look_axes, lookAxes<P>()) BOTH(look_dir3, lookDir<3, P>()) BOTH(look_dir4, lookDir<4, P>())
BOTH(look_quat, lookQuat<P>()) BOTH(look_both, lookBoth<P>())
#endif

#if SX_PART == 44
namespace {
template<size_t D, class M, class N> void eqMat(const M& a, const N& b, const char* id) { for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sx::same(double(a[r][c]), double(b[r][c]), id); }
template<size_t D, class A, class B> auto mul(const A& a, const B& b) {
	std::array<std::array<double, D>, D> m {};
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) { double s = 0; for(size_t k = 0; k < D; ++k) s = s + double(a[r][k]) * double(b[k][c]); m[r][c] = s; }
	return m;
}
template<size_t R, class P> nytl::Vec<R, P> arbVec(const char* n) { nytl::Vec<R, P> v {}; for(size_t i = 0; i < R; ++i) v[i] = real<P>(n); return v; }
template<size_t D, size_t R, class P> void scaleM() {
	auto s = arbVec<R, P>("s"), so = s;
	auto m = nytl::scaleMat<D, P>(s);
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sx::same(double(m[r][c]), r != c ? 0. : r < R ? double(so[r]) : 1., "scaleMat scales the first axes");
	auto a = arbMat<D, P>("m");
	auto x = a; nytl::scale(x, s);
	eqMat<D>(x, mul<D>(m, a), "scale is applied after the matrix");
	for(size_t i = 0; i < R; ++i) sx::same(double(s[i]), double(so[i]), "arguments are kept");
}
template<size_t D, size_t R, class P> void translateM() {
	auto t = arbVec<R, P>("t"), to = t;
	auto m = nytl::translateMat<D, P>(t);
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sx::same(double(m[r][c]), c == D - 1 && r < R ? double(to[r]) : double(r == c), "translateMat moves the first axes");
	auto a = arbMat<D, P>("m");
	auto x = a; nytl::translate(x, t);
	eqMat<D>(x, mul<D>(m, a), "translate is applied after the matrix");
	for(size_t i = 0; i < R; ++i) sx::same(double(t[i]), double(to[i]), "arguments are kept");
}
template<size_t D, class P> void rotateM() {
	auto a = arbMat<D, P>("m"); P t = real<P>("angle");
	auto x = a; nytl::rotate(x, t);
	auto r = nytl::rotateMat<D, P>(t);
	eqMat<D>(x, mul<D>(r, a), "rotate is applied after the matrix");
	if constexpr(D >= 3) {
		auto n = unit<P>("axis");
		auto y = a; nytl::rotate(y, n, t);
		auto q = nytl::rotateMat<D, P>(n, t);
		eqMat<D>(y, mul<D>(q, a), "rotate about an axis is applied after the matrix");
	}
}
template<size_t A, size_t D, class P> void flip() {
	auto a = arbMat<D, P>("m");
	auto ref = [&](size_t r, size_t c) { return r == A ? -double(a[r][c]) : double(a[r][c]); };
	auto x = a; nytl::flipAxis<A>(x);
	auto y = nytl::flippedAxis<A>(a);
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) { sx::same(double(x[r][c]), ref(r, c), "flipping negates exactly one row"); sx::same(double(y[r][c]), ref(r, c), "flipping negates exactly one row"); }
	if constexpr(A == 1) {
		x = a; nytl::flipY(x); y = nytl::flippedY(a);
		for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) { sx::same(double(x[r][c]), ref(r, c), "flipY negates the second row"); sx::same(double(y[r][c]), ref(r, c), "flipY negates the second row"); }
	}
	if constexpr(A == 2) {
		x = a; nytl::flipZ(x); y = nytl::flippedZ(a);
		for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) { sx::same(double(x[r][c]), ref(r, c), "flipZ negates the third row"); sx::same(double(y[r][c]), ref(r, c), "flipZ negates the third row"); }
	}
}
template<size_t D, size_t O, class P, class T> void expand() {
	auto a = arbMat<O, T>("m"); auto ao = a;
	auto x = nytl::expandIdentity<D, P>(a);
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sx::same(x[r][c], r < O && c < O ? P(a[r][c]) : P(r == c), "expandIdentity keeps the matrix and adds the identity");
	eqMat<O>(a, ao, "arguments are kept");
}
template<class P> void chain() { // scale, rotate, translate of a point
	auto s = arbVec<3, P>("s"), t = arbVec<3, P>("t"), v = arbVec<3, P>("v"); auto n = unit<P>("axis"); P a = real<P>("angle");
	auto m = nytl::identity<4, P>();
	nytl::scale(m, s); nytl::rotate(m, n, a); nytl::translate(m, t);
	auto r = nytl::multPos(m, v);
	nytl::Vec3<P> w; for(int i = 0; i < 3; ++i) w[i] = s[i] * v[i];
	auto q = nytl::rotate(w, n, a);
	for(int i = 0; i < 3; ++i) sx::same(double(r[i]), double(q[i]) + double(t[i]), "transforms are applied in the order of the calls");
}
}
#define BOTH(name, ...) ENTRY(name) { using P = float; __VA_ARGS__; } ENTRY(name##_d) { using P = double; __VA_ARGS__; }
BOTH(scale4_3, scaleM<4, 3, P>()) BOTH(scale4_4, scaleM<4, 4, P>()) BOTH(scale4_2, scaleM<4, 2, P>()) BOTH(scale3_2, scaleM<3, 2, P>()) BOTH(scale2_2, scaleM<2, 2, P>())
BOTH(translate4_3, translateM<4, 3, P>()) BOTH(translate4_2, translateM<4, 2, P>()) BOTH(translate3_2, translateM<3, 2, P>())
BOTH(rotate2, rotateM<2, P>()) BOTH(rotate3, rotateM<3, P>()) BOTH(rotate4, rotateM<4, P>())
BOTH(flip4_0, flip<0, 4, P>()) BOTH(flip4_1, flip<1, 4, P>()) BOTH(flip4_2, flip<2, 4, P>()) BOTH(flip4_3, flip<3, 4, P>()) BOTH(flip3_1, flip<1, 3, P>()) BOTH(flip2_1, flip<1, 2, P>())
BOTH(expand4_3, expand<4, 3, P, P>()) BOTH(expand4_2, expand<4, 2, P, double>()) BOTH(expand3_3, expand<3, 3, P, float>()) BOTH(expand5_1, expand<5, 1, P, P>()) BOTH(expand3_2, expand<3, 2, P, P>())
// larger matrices
BOTH(scale5_3, scaleM<5, 3, P>()) BOTH(scale6_5, scaleM<6, 5, P>()) BOTH(translate5_4, translateM<5, 4, P>()) BOTH(translate5_3, translateM<5, 3, P>())
BOTH(rotate5, rotateM<5, P>()) BOTH(flip5_1, flip<1, 5, P>()) BOTH(flip5_4, flip<4, 5, P>()) BOTH(flip6_2, flip<2, 6, P>()) BOTH(expand6_4, expand<6, 4, P, P>())
BOTH(chain, chain<P>())
#endif
