// C34 predicates on rects, C35 intersection, C36 difference, C37 size, center, equality and conversion.
#include "sx.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <algorithm>
#include <limits>
#include <type_traits>

namespace {
template<size_t D, typename T> using Rect = nytl::Rect<D, T>;
template<size_t D, typename T> using Vec = nytl::Vec<D, T>;
template<typename T> T coord(const char* n) { // far enough from the limits that ends can be computed
	T v = sx::val<T>(n);
	if constexpr(std::is_same_v<T, int>) { sx::assume(v >= -(1 << 29)); sx::assume(v <= (1 << 29)); }
	if constexpr(std::is_same_v<T, int64_t>) { sx::assume(v >= -(int64_t(1) << 61)); sx::assume(v <= (int64_t(1) << 61)); }
	if constexpr(std::is_same_v<T, unsigned>) sx::assume(v <= (1u << 31) - 1);
	return v;
}
template<size_t D, typename T> Rect<D, T> rect(bool positive = false) {
	Rect<D, T> r {};
	for(size_t i = 0; i < D; ++i) {
		r.position[i] = coord<T>("pos");
		r.size[i] = coord<T>("size");
		if(positive) sx::assume(r.size[i] > 0); else sx::assume(r.size[i] >= 0);
	}
	return r;
}
template<size_t D, typename T> Vec<D, T> point() { Vec<D, T> p {}; for(size_t i = 0; i < D; ++i) p[i] = coord<T>("p"); return p; }
template<size_t D, typename T> bool closed(const Rect<D, T>& r, const Vec<D, T>& p) {
	bool in = true;
	for(size_t i = 0; i < D; ++i) in = in & (r.position[i] <= p[i]) & (p[i] <= r.position[i] + r.size[i]);
	return in;
}
template<size_t D, typename T> bool open(const Rect<D, T>& r, const Vec<D, T>& p) {
	bool in = true;
	for(size_t i = 0; i < D; ++i) in = in & (r.position[i] < p[i]) & (p[i] < r.position[i] + r.size[i]);
	return in;
}
template<size_t D, typename T> bool halfOpen(const Rect<D, T>& r, const Vec<D, T>& p) {
	bool in = true;
	for(size_t i = 0; i < D; ++i) in = in & (r.position[i] <= p[i]) & (p[i] < r.position[i] + r.size[i]);
	return in;
}
template<size_t D, typename T> bool equal(const Rect<D, T>& a, const Rect<D, T>& b) {
	bool e = true;
	for(size_t i = 0; i < D; ++i) e = e & (a.position[i] == b.position[i]) & (a.size[i] == b.size[i]);
	return e;
}
template<size_t D, typename T> bool overlap(const Rect<D, T>& a, const Rect<D, T>& b) { // with interior
	bool o = true;
	for(size_t i = 0; i < D; ++i) o = o & (a.position[i] < b.position[i] + b.size[i]) & (b.position[i] < a.position[i] + a.size[i]);
	return o;
}
} // namespace

#ifdef SX_REAL
#define EACH(X) X(1, double) X(2, double) X(3, double)
#else
#define EACH(X) X(1, int) X(2, int) X(3, int) X(2, unsigned) X(3, int64_t)
#endif

#if SX_PART == 34
namespace {
template<size_t D, typename T> void points() {
	auto r = rect<D, T>(); auto p = point<D, T>();
	bool c = nytl::contains(r, p), cr = nytl::containsReal(r, p);
	CHECK(c == closed(r, p), "contains holds for the points of the rect with its outline");
	CHECK(cr == open(r, p), "containsReal holds for the points of the rect without its outline");
}
template<size_t D, typename T> void pairs() {
	auto a = rect<D, T>(), b = rect<D, T>();
	bool i = nytl::intersects(a, b);
	auto p = point<D, T>();
	CHECK(!(closed(a, p) & closed(b, p)) | i, "rects with a common point intersect");
	Vec<D, T> w {};
	for(size_t k = 0; k < D; ++k) w[k] = a.position[k] < b.position[k] ? b.position[k] : a.position[k];
	CHECK(i == (closed(a, w) & closed(b, w)), "rects that intersect have a common point");
	CHECK(nytl::intersects(b, a) == i, "intersects is symmetric");
	CHECK(nytl::intersects(a, a), "rects intersect themselves");
}
template<size_t D, typename T> void pairsReal() {
	auto a = rect<D, T>(true), b = rect<D, T>(true);
	bool i = nytl::intersectsReal(a, b);
	auto p = point<D, T>();
	CHECK(!(open(a, p) & open(b, p)) | i, "rects with a common inner point really intersect");
	CHECK(i == overlap(a, b), "rects really intersect if they overlap in every dimension");
	CHECK(nytl::intersectsReal(b, a) == i, "intersectsReal is symmetric");
	CHECK(nytl::intersectsReal(a, a), "rects with area really intersect themselves");
}
}
#define X(D, T) ENTRY(points_##D##T) { points<D, T>(); } ENTRY(pairs_##D##T) { pairs<D, T>(); } ENTRY(real_##D##T) { pairsReal<D, T>(); }
EACH(X)
#ifdef SX_REAL
X(4, double)
#else
X(4, int)
#endif
// Many dimensions: the rects and the point are arbitrary in one of them and, where fixed, meet
namespace {
template<size_t D, typename T> void many() {
	Rect<D, T> a {}, b {}; Vec<D, T> p {};
	for(size_t i = 0; i < D; ++i) { a.position[i] = T(i); a.size[i] = T(i + 2); b.position[i] = T(i + 1); b.size[i] = T(3); p[i] = T(i + 1); }
	size_t k = sx::choice(D, "dimension");
	a.position[k] = coord<T>("pos"); b.position[k] = coord<T>("pos"); p[k] = coord<T>("p");
	a.size[k] = coord<T>("size"); b.size[k] = coord<T>("size");
	sx::assume(a.size[k] >= 0); sx::assume(b.size[k] >= 0);
	bool touch = (a.position[k] <= b.position[k] + b.size[k]) & (b.position[k] <= a.position[k] + a.size[k]);
	CHECK(nytl::contains(a, p) == closed(a, p), "contains holds for the points of the rect with its outline");
	CHECK(nytl::containsReal(a, p) == open(a, p), "containsReal holds for the points of the rect without its outline");
	CHECK(nytl::intersects(a, b) == touch && nytl::intersects(b, a) == touch, "rects intersect if they have a common point");
	sx::assume(a.size[k] > 0); sx::assume(b.size[k] > 0);
	bool ov = overlap(a, b);
	CHECK(nytl::intersectsReal(a, b) == ov && nytl::intersectsReal(b, a) == ov, "rects really intersect if they overlap in every dimension");
}
}
#ifdef SX_REAL
ENTRY(many_5) { many<5, double>(); }
ENTRY(many_6f) { many<6, float>(); }
ENTRY(many_9) { many<9, double>(); }
#else
ENTRY(many_5u) { many<5, unsigned>(); }
ENTRY(many_6i) { many<6, int>(); }
ENTRY(many_9l) { many<9, int64_t>(); }
ENTRY(many_17) { many<17, int>(); }
ENTRY(many_33) { many<33, int>(); }
#endif
#ifdef SX_REAL
ENTRY(witness) { // in the reals rects that overlap have a common inner point
	auto a = rect<2, double>(true), b = rect<2, double>(true);
	Vec<2, double> w {};
	for(size_t k = 0; k < 2; ++k) {
		double lo = a.position[k] < b.position[k] ? b.position[k] : a.position[k];
		double ea = a.position[k] + a.size[k], eb = b.position[k] + b.size[k];
		double hi = ea < eb ? ea : eb;
		w[k] = (lo + hi) / 2;
	}
	if(nytl::intersectsReal(a, b)) CHECK(open(a, w) & open(b, w), "rects that really intersect have a common inner point");
}
#else
ENTRY(mixed) {
	auto r = rect<2, int>(); Vec<2, int64_t> p {};
	for(size_t i = 0; i < 2; ++i) p[i] = coord<int64_t>("p");
	bool c = true, o = true;
	for(size_t i = 0; i < 2; ++i) { int64_t lo = r.position[i], hi = lo + r.size[i]; c = c & (lo <= p[i]) & (p[i] <= hi); o = o & (lo < p[i]) & (p[i] < hi); }
	CHECK(nytl::contains(r, p) == c && nytl::containsReal(r, p) == o, "points of another integer type");
	auto q = rect<2, int64_t>();
	bool i = true;
	for(size_t k = 0; k < 2; ++k) i = i & (q.position[k] <= int64_t(r.position[k]) + r.size[k]) & (r.position[k] <= q.position[k] + q.size[k]);
	CHECK(nytl::intersects(r, q) == i && nytl::intersects(q, r) == i, "rects of another integer type");
}
namespace {
template<typename T, typename P> void narrow() { // ends that the value type of the rect cannot represent
	Rect<2, T> r {};
	Rect<2, P> q {};
	Vec<2, P> p {};
	bool c = true, o = true, i = true, j = true;
	for(size_t k = 0; k < 2; ++k) {
		r.position[k] = sx::val<T>("pos"); r.size[k] = sx::val<T>("size");
		p[k] = q.position[k] = (P) sx::i16("p"); q.size[k] = (P) (sx::u16("qs") & 0x7fff);
		sx::assume(r.size[k] > 0 && q.size[k] > 0);
		int lo = r.position[k], hi = lo + r.size[k], ql = (int) q.position[k], qh = ql + (int) q.size[k], x = (int) p[k];
		c = c & (lo <= x) & (x <= hi); o = o & (lo < x) & (x < hi);
		i = i & (ql <= hi) & (lo <= qh); j = j & (ql < hi) & (lo < qh);
	}
	CHECK(nytl::contains(r, p) == c && nytl::containsReal(r, p) == o, "ends beyond the range of the value type");
	CHECK(nytl::intersects(r, q) == i && nytl::intersects(q, r) == i, "ends beyond the range of the value type");
	CHECK(nytl::intersectsReal(r, q) == j && nytl::intersectsReal(q, r) == j, "ends beyond the range of the value type");
}
}
ENTRY(narrow_bytes) { narrow<int8_t, int>(); }
ENTRY(narrow_ubytes) { narrow<uint8_t, int>(); }
ENTRY(narrow_shorts) { narrow<short, int64_t>(); }
#endif
#endif

#if SX_PART == 35
namespace {
template<size_t D, typename T> void meet() {
	auto a = rect<D, T>(), b = rect<D, T>();
	auto ao = a, bo = b;
	auto r = nytl::intersection(a, b);
	CHECK(equal(a, ao) & equal(b, bo), "the operands are kept");
	bool common = true;
	for(size_t k = 0; k < D; ++k) common = common & (a.position[k] <= b.position[k] + b.size[k]) & (b.position[k] <= a.position[k] + a.size[k]);
	for(size_t k = 0; k < D; ++k) CHECK(r.size[k] >= 0, "the intersection has no negative size");
	auto p = point<D, T>();
	CHECK(!common | (closed(r, p) == (closed(a, p) & closed(b, p))), "the intersection has exactly the common points");
	bool zero = true;
	for(size_t k = 0; k < D; ++k) zero = zero & (r.position[k] == 0) & (r.size[k] == 0);
	CHECK(common | zero, "without common points the intersection is zero");
	CHECK(equal(nytl::intersection(b, a), r), "intersection is commutative");
	CHECK(equal(nytl::intersection(a, a), a), "the intersection with itself is the rect");
}
}
namespace { // many dimensions, arbitrary in one of them
template<size_t D, typename T> void meetMany() {
	Rect<D, T> a {}, b {}; Vec<D, T> p {};
	for(size_t i = 0; i < D; ++i) { a.position[i] = T(i); a.size[i] = T(i + 2); b.position[i] = T(i + 1); b.size[i] = T(3); p[i] = T(i + 1); }
	size_t k = sx::choice(D, "dimension");
	a.position[k] = coord<T>("pos"); b.position[k] = coord<T>("pos"); p[k] = coord<T>("p");
	a.size[k] = coord<T>("size"); b.size[k] = coord<T>("size");
	sx::assume(a.size[k] >= 0); sx::assume(b.size[k] >= 0);
	bool common = (a.position[k] <= b.position[k] + b.size[k]) & (b.position[k] <= a.position[k] + a.size[k]);
	auto r = nytl::intersection(a, b);
	bool zero = true;
	for(size_t i = 0; i < D; ++i) zero = zero & (r.position[i] == 0) & (r.size[i] == 0);
	if(!common) CHECK(zero, "without common points the intersection is zero");
	else {
		for(size_t i = 0; i < D; ++i) {
			T lo = a.position[i] < b.position[i] ? b.position[i] : a.position[i];
			T ea = a.position[i] + a.size[i], eb = b.position[i] + b.size[i];
			CHECK(r.position[i] == lo && lo + r.size[i] == (ea < eb ? ea : eb), "the intersection has exactly the common points");
		}
		CHECK(closed(r, p) == (closed(a, p) & closed(b, p)), "the intersection has exactly the common points");
	}
}
}
#ifdef SX_REAL
ENTRY(many_4) { meetMany<4, double>(); }
ENTRY(many_7) { meetMany<7, double>(); }
#else
ENTRY(many_4i) { meetMany<4, int>(); }
ENTRY(many_5l) { meetMany<5, int64_t>(); }
ENTRY(many_9u) { meetMany<9, unsigned>(); }
#endif
#define X(D, T) ENTRY(meet_##D##T) { meet<D, T>(); }
#if defined(SX_REAL)
EACH(X) X(2, float)
#elif SX_THOROUGH
EACH(X)
#else
X(1, int) X(2, int) X(2, unsigned)
#endif
#endif

#if SX_PART == 36
namespace {
template<size_t D, typename T> void cut() {
	auto a = rect<D, T>(true), b = rect<D, T>(true);
	auto ao = a, bo = b;
	auto parts = nytl::difference(a, b);
	CHECK(equal(a, ao) & equal(b, bo), "the operands are kept");
	CHECK(parts.size() <= 2 * D, "there are at most two parts per dimension");
	auto p = point<D, T>();
	bool in = halfOpen(a, p) & !halfOpen(b, p), found = false, twice = false;
	for(auto& r : parts) {
		for(size_t k = 0; k < D; ++k) CHECK(r.size[k] > 0, "every part has an area");
		bool h = halfOpen(r, p);
		twice = twice | (found & h);
		found = found | h;
	}
	CHECK(!found | in, "the parts contain only points of the first rect that are not in the second");
	CHECK(found | !in, "the parts contain all points of the first rect that are not in the second");
	CHECK(!twice, "the parts do not overlap");
	if(!overlap(a, b)) CHECK(parts.size() == 1 && equal(parts[0], a), "without overlap the first rect remains");
}
template<size_t D, typename T> void self() {
	auto a = rect<D, T>(true);
	CHECK(nytl::difference(a, a).empty(), "nothing remains without itself");
}
}
// Many dimensions: in all but one or two of them the rects are fixed, in every way they can meet.
namespace {
template<size_t D, typename T> void cutMany(unsigned members, unsigned free) {
	unsigned s = (unsigned)sx::choice(members, "member") * 2654435761u + 977;
	auto rnd = [&](unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 13) % n; };
	Rect<D, T> a {}, b {};
	Vec<D, T> p {};
	static const int pos[] = {0, 0, 2, 1, 0, 3, 1}, size[] = {4, 9, 1, 3, 2, 4, 2}; // b; a is [1, 4)
	for(size_t i = 0; i < D; ++i) {
		unsigned k = rnd(7);
		a.position[i] = T(1); a.size[i] = T(3);
		b.position[i] = T(pos[k]); b.size[i] = T(size[k]);
		p[i] = T(rnd(3) + 1);
	}
	for(unsigned f = 0; f < free; ++f) {
		size_t i = rnd(D);
		a.position[i] = coord<T>("pos"); b.position[i] = coord<T>("pos"); p[i] = coord<T>("p");
		a.size[i] = coord<T>("size"); b.size[i] = coord<T>("size");
		sx::assume(a.size[i] > 0); sx::assume(b.size[i] > 0);
	}
	auto parts = nytl::difference(a, b);
	CHECK(parts.size() <= 2 * D, "there are at most two parts per dimension");
	for(auto& r : parts) for(size_t k = 0; k < D; ++k) CHECK(r.size[k] > 0, "every part has an area");
	bool ov = overlap(a, b);
	if(!ov) CHECK(parts.size() == 1 && equal(parts[0], a), "without overlap the first rect remains");
	// that point, and every one with one other coordinate
	for(size_t k = 0; k < D; ++k) for(int v = 0; v < (k ? 4 : 5); ++v) {
		auto q = p;
		if(v < 4) q[k] = T(v + 1);
		bool in = halfOpen(a, q) & !halfOpen(b, q);
		unsigned count = 0;
		for(auto& r : parts) count += halfOpen(r, q);
		CHECK((count == 0) | in, "the parts contain only points of the first rect that are not in the second");
		CHECK((count != 0) | !in, "the parts contain all points of the first rect that are not in the second");
		CHECK(count <= 1, "the parts do not overlap");
	}
}
}
#ifdef SX_REAL
ENTRY(many_4) { cutMany<4, double>(SX_THOROUGH ? 60 : 12, 2); }
ENTRY(many_5) { cutMany<5, double>(SX_THOROUGH ? 60 : 12, 2); }
ENTRY(many_8) { cutMany<8, double>(SX_THOROUGH ? 40 : 8, 1); }
ENTRY(many_3f) { cutMany<3, float>(SX_THOROUGH ? 60 : 12, 1); }
#else
ENTRY(many_4i) { cutMany<4, int>(SX_THOROUGH ? 60 : 12, 1); }
ENTRY(many_6l) { cutMany<6, int64_t>(SX_THOROUGH ? 40 : 8, 1); }
ENTRY(many_5u) { cutMany<5, unsigned>(SX_THOROUGH ? 40 : 8, 1); }
#endif
#define X(D, T) ENTRY(cut_##D##T) { cut<D, T>(); } ENTRY(self_##D##T) { self<D, T>(); }
#ifdef SX_REAL
EACH(X)
#else
X(1, int) X(2, int) X(2, unsigned) X(3, int)
#if SX_THOROUGH
X(2, int64_t) X(3, unsigned)
#endif
#endif
#endif

#if SX_PART == 37
namespace {
template<size_t D, typename T> void misc() {
	auto r = rect<D, T>();
	auto o = r;
	double prod = 1;
	for(size_t i = 0; i < D; ++i) prod = prod * r.size[i];
#ifdef SX_REAL
	sx::same(nytl::size(r), prod, "size is the product of all extents");
	auto c = nytl::center(r);
	for(size_t i = 0; i < D; ++i) sx::same(c[i] - r.position[i], r.position[i] + r.size[i] - c[i], "the center is half way between both ends");
#endif
	auto b = rect<D, T>();
	CHECK((r == b) == equal(r, b), "rects are equal exactly if positions and sizes are");
	CHECK((r != b) == !equal(r, b), "!= is the negation of ==");
	CHECK(r == o && !(r != o), "rects equal themselves");
}
template<typename T, typename U> void same(U a, T b, const char* id) {
	if constexpr(std::is_floating_point_v<U>) sx::same(double(a), double(b), id); else __sx_assert(a == (U)b, id);
}
template<size_t D, size_t E, typename T, typename U> void convert() {
	auto r = rect<D, T>();
	auto w = static_cast<Rect<E, U>>(r);
	for(size_t i = 0; i < E; ++i) {
		same(w.position[i], i < D ? (U)r.position[i] : U(0), "conversion keeps the common dimensions and fills up with zeros");
		same(w.size[i], i < D ? (U)r.size[i] : U(0), "conversion keeps the common dimensions and fills up with zeros");
	}
}
}
#define X(D, T) ENTRY(misc_##D##T) { misc<D, T>(); }
EACH(X)
#ifdef SX_REAL
namespace {
template<size_t D, typename T> void centerOf() { // all rects with representable ends
	Rect<D, T> r {};
	for(size_t i = 0; i < D; ++i) {
		r.position[i] = sx::val<T>("pos"); r.size[i] = sx::val<T>("size");
		sx::assume(r.size[i] >= 0);
		if constexpr(std::is_signed_v<T>) sx::assume(r.position[i] <= std::numeric_limits<T>::max() - r.size[i]);
		else sx::assume(r.position[i] + r.size[i] >= r.position[i]);
	}
	auto c = nytl::center(r);
	static_assert(std::is_floating_point_v<std::decay_t<decltype(c[0])>>);
	for(size_t i = 0; i < D; ++i) sx::same(double(c[i]) - r.position[i], double(r.size[i]) / 2, "the center of an integer rect is exact");
}
}
ENTRY(center_int) { centerOf<1, int>(); centerOf<2, int>(); centerOf<3, int>(); }
ENTRY(center_unsigned) { centerOf<2, unsigned>(); centerOf<4, unsigned>(); }
ENTRY(center_small) { centerOf<2, uint8_t>(); }
X(4, double) X(5, double)
#else
namespace {
// whatever the values are: large, NaN or infinite
template<size_t D, typename A, typename B> void equalityAll() {
	Rect<D, A> r {}; Rect<D, B> q {};
	bool eq = true;
	for(size_t i = 0; i < D; ++i) {
		A p = sx::val<A>("pos"), s = sx::val<A>("size"); B u = sx::val<B>("pos"), v = sx::val<B>("size");
		r.position[i] = p; r.size[i] = s; q.position[i] = u; q.size[i] = v;
		eq = eq & (p == u) & (s == v);
	}
	CHECK((r == q) == eq && (q == r) == eq, "rects are equal exactly if positions and sizes are");
	CHECK((r != q) == !eq && (q != r) == !eq, "!= is the negation of ==");
}
}
// bit by bit: integers up to their limits, which doubles represent exactly
namespace {
template<typename T> void centerBits() {
	static const int64_t at[] = {0, 1, -1, 16777217, -16777217, 33554435, 1000000007, -2147483647 - 1, 2147483646, 2147483647};
	static const int64_t sz[] = {0, 1, 2, 3, 16777217, 16777219, 33554435, 2147483645, 2147483647};
	int64_t p = at[sx::choice(10, "pos")], s = sz[sx::choice(9, "size")], q = at[sx::choice(10, "pos")];
	if(p < (int64_t)std::numeric_limits<T>::min() || q < (int64_t)std::numeric_limits<T>::min()) return;
	if(p + s > (int64_t)std::numeric_limits<T>::max() || p > (int64_t)std::numeric_limits<T>::max() || q > (int64_t)std::numeric_limits<T>::max() || s > (int64_t)std::numeric_limits<T>::max()) return;
	Rect<2, T> r {{T(p), T(q)}, {T(s), T(0)}};
	auto c = nytl::center(r);
	CHECK(double(c[0]) == double(p) + double(s) / 2 && double(c[1]) == double(q), "the center of an integer rect is exact");
}
void centerBytes() { // all of them
	Rect<1, int8_t> r {};
	r.position[0] = sx::i8("pos"); r.size[0] = sx::i8("size");
	sx::assume(r.size[0] >= 0);
	auto c = nytl::center(r);
	CHECK(double(c[0]) == double(r.position[0]) + double(r.size[0]) / 2, "the center of an integer rect is exact");
}
template<typename T> void centerHuge() { // large and small floating rects
	static const T by[] = {T(1), T(0.25), std::numeric_limits<T>::max() / 4, std::numeric_limits<T>::min() * 4, T(1e10)};
	T k = by[sx::choice(5, "scale")];
	Rect<3, T> r {{k, -k, 0}, {2 * k, k, k * T(0.5)}};
	auto c = nytl::center(r);
	CHECK(c[0] == 2 * k && c[1] == -k / 2 && c[2] == k / 4, "the center is half way between both ends");
}
}
ENTRY(center_int) { centerBits<int>(); }
ENTRY(center_unsigned) { centerBits<unsigned>(); }
ENTRY(center_int64) { centerBits<int64_t>(); }
ENTRY(center_bytes) { centerBytes(); }
ENTRY(center_doubles) { centerHuge<double>(); }
ENTRY(center_floats) { centerHuge<float>(); }
ENTRY(equality_many) { unsigned k = sx::choice(3, "dim"); if(k == 0) equalityAll<5, int, int>(); else if(k == 1) equalityAll<9, int64_t, int64_t>(); else equalityAll<12, int, int>(); }
ENTRY(convert_many) { convert<5, 6, int, int>(); convert<6, 5, int, int>(); convert<9, 17, int, int>(); convert<17, 17, int, int64_t>(); convert<18, 9, int, int>(); }
ENTRY(equality_doubles) { equalityAll<1, double, double>(); equalityAll<2, double, double>(); }
ENTRY(equality_floats) { equalityAll<2, float, float>(); equalityAll<1, float, double>(); }
ENTRY(equality_ints) { equalityAll<2, int, int>(); equalityAll<3, unsigned, unsigned>(); equalityAll<2, int, int64_t>(); }
ENTRY(size_int) {
	Rect<3, int> r {};
	unsigned e[3];
	for(size_t i = 0; i < 3; ++i) { r.size[i] = e[i] = sx::u8("size"); r.position[i] = sx::i32("pos"); }
	CHECK((unsigned)nytl::size(r) == e[0] * e[1] * e[2], "size is the product of all extents");
	Rect<4, unsigned> u {};
	for(size_t i = 0; i < 4; ++i) u.size[i] = sx::u32("size");
	CHECK(nytl::size(u) == u.size[0] * u.size[1] * u.size[2] * u.size[3], "size is the product of all extents");
}
ENTRY(convert_dim) { convert<2, 3, int, int>(); convert<3, 2, int, int>(); convert<1, 4, int, int64_t>(); convert<4, 1, unsigned, uint64_t>(); }
ENTRY(convert_type) { convert<2, 2, int, int64_t>(); convert<3, 3, int, uint8_t>(); convert<2, 2, int, double>(); }
#endif
#endif
