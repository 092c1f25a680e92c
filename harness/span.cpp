// C10 sub-views, C11 comparison, C12 construction, conversion and iteration of span.
#include "sx.hpp"
#include <nytl/span.hpp>
#include <array>
#include <memory>
#include <string>
#include <vector>

namespace {
using nytl::span;
constexpr size_t dyn = nytl::dynamic_extent;

#if SX_PART == 10
// the views are never dereferenced here, so their size is arbitrary
template<typename T, size_t E> void viewsRT(span<T, E> s, T* base, size_t n) {
	size_t off = sx::u64("off"), cnt = sx::u64("cnt");
	sx::assume(off <= n);
	sx::assume(cnt <= n - off);
	auto is = [&](span<T> v, size_t o, size_t c, const char* id) { __sx_assert(v.data() == base + o && v.size() == c && v.size_bytes() == c * sizeof(T) && v.empty() == (c == 0), id); };
	CHECK(s.data() == base && s.size() == n, "a span has the pointer and size it was made from");
	is(s.first(cnt), 0, cnt, "first(n) views the first n elements");
	is(s.last(cnt), n - cnt, cnt, "last(n) views the last n elements");
	is(s.subspan(off, cnt), off, cnt, "subspan(o, n) views n elements from o on");
	is(s.subspan(off), off, n - off, "subspan(o) views all elements from o on");
	is(s.subspan(off, dyn), off, n - off, "subspan(o, dynamic_extent) views all elements from o on");
	// nested
	size_t o2 = sx::u64("off2"), c2 = sx::u64("cnt2");
	sx::assume(o2 <= cnt); sx::assume(c2 <= cnt - o2);
	is(s.subspan(off, cnt).subspan(o2, c2), off + o2, c2, "sub-views compose");
	is(s.subspan(off, cnt).last(c2), off + cnt - c2, c2, "sub-views compose");
	is(s.last(n - off).first(cnt), off, cnt, "sub-views compose");
	is(s.first(off + cnt).last(cnt), off, cnt, "sub-views compose");
}
template<size_t E, typename T> void viewsCT(span<T, E> s, T* base, size_t n) {
	auto is = [&](auto v, size_t o, size_t c, const char* id) { __sx_assert(v.data() == base + o && v.size() == c, id); };
	auto ext = [&](auto v, size_t e, const char* id) { __sx_assert(decltype(v)::extent == e, id); };
	is(s.template first<0>(), 0, 0, "first<N> views the first N elements");
	is(s.template first<1>(), 0, 1, "first<N> views the first N elements");
	is(s.template first<4>(), 0, 4, "first<N> views the first N elements");
	is(s.template last<0>(), n, 0, "last<N> views the last N elements");
	is(s.template last<1>(), n - 1, 1, "last<N> views the last N elements");
	is(s.template last<3>(), n - 3, 3, "last<N> views the last N elements");
	is(s.template subspan<0>(), 0, n, "subspan<O> views all elements from O on");
	is(s.template subspan<2>(), 2, n - 2, "subspan<O> views all elements from O on");
	is(s.template subspan<4>(), 4, n - 4, "subspan<O> views all elements from O on");
	is(s.template subspan<1, 2>(), 1, 2, "subspan<O, N> views N elements from O on");
	is(s.template subspan<3, 1>(), 3, 1, "subspan<O, N> views N elements from O on");
	is(s.template subspan<4, 0>(), 4, 0, "subspan<O, N> views N elements from O on");
	ext(s.template first<3>(), 3, "the extent of compile-time views");
	ext(s.template last<2>(), 2, "the extent of compile-time views");
	ext(s.template subspan<1, 3>(), 3, "the extent of compile-time views");
	ext(s.template subspan<1>(), E == dyn ? dyn : E - 1, "the extent of compile-time views");
}
// access through views reads and writes exactly the viewed elements
template<typename S> void access(S s, int* arr, size_t n) {
	std::vector<int> before(arr, arr + n);
	size_t off = sx::u8("off"), cnt = sx::u8("cnt"), i = sx::u8("i");
	sx::assume(off <= n); sx::assume(cnt <= n - off); sx::assume(i < cnt);
	off = __sx_concretize(off); cnt = __sx_concretize(cnt); i = __sx_concretize(i);
	int v = sx::i32("v");
	auto sub = s.subspan(off, cnt);
	CHECK(sub[i] == before[off + i] && sub(i) == before[off + i], "reading through a view");
	CHECK(&sub[i] == arr + off + i, "element i of a view is element offset + i of the array");
	CHECK(&sub.front() == arr + off && &sub.back() == arr + off + cnt - 1, "front and back");
	sub[i] = v;
	for(size_t k = 0; k < n; ++k) CHECK(arr[k] == (k == off + i ? v : before[k]), "writing through a view changes exactly that element");
}
#endif

#if SX_PART == 11
template<typename T> std::vector<T> sym(size_t max) {
	size_t n = sx::u8("len");
	sx::assume(n <= max);
	n = __sx_concretize(n);
	std::vector<T> v;
	for(size_t i = 0; i < n; ++i) v.push_back((T)sx::val<T>("e"));
	return v;
}
template<typename T> bool refLess(const std::vector<T>& a, const std::vector<T>& b) {
	bool less = false, eq = true;
	for(size_t i = 0; i < a.size() && i < b.size(); ++i) {
		less = less | (eq & (a[i] < b[i]));
		eq = eq & (a[i] == b[i]);
	}
	return less | (eq & (a.size() < b.size()));
}
template<typename T> bool refEq(const std::vector<T>& a, const std::vector<T>& b) {
	if(a.size() != b.size()) return false;
	bool eq = true;
	for(size_t i = 0; i < a.size(); ++i) eq = eq & (a[i] == b[i]);
	return eq;
}
template<typename T, typename S> void compare(const std::vector<T>& a, const std::vector<T>& b, S x, S y) {
	bool lt = refLess(a, b), gt = refLess(b, a), eq = refEq(a, b);
	CHECK((x == y) == eq, "spans are equal exactly if they have the same elements in order");
	CHECK((x != y) == !eq, "!= is the negation of ==");
	CHECK((x < y) == lt, "< is the lexicographic order");
	CHECK((x > y) == gt, "> is the swapped <");
	CHECK((x <= y) == !gt, "<= is not >");
	CHECK((x >= y) == !lt, ">= is not <");
}
// elements that are equal although their storage differs, or differ although it is the same
struct Named { int key; int other; };
bool operator==(const Named& a, const Named& b) { return a.key == b.key; }
bool operator!=(const Named& a, const Named& b) { return a.key != b.key; }
bool operator<(const Named& a, const Named& b) { return a.key < b.key; }
template<typename T> void compareFloats(size_t max) {
	auto a = sym<T>(max), b = sym<T>(max);
	bool eq = refEq(a, b), nan = false;
	CHECK((span<T>(a) == span<T>(b)) == eq && (span<const T>(a) == span<const T>(b)) == eq, "spans are equal exactly if they have the same elements in order");
	CHECK((span<T>(a) != span<T>(b)) == !eq, "!= is the negation of ==");
	for(auto x : a) nan = nan | (x != x);
	for(auto x : b) nan = nan | (x != x);
	sx::assume(!nan);
	compare<T>(a, b, span<T>(a), span<T>(b));
}
template<typename T> void compareDyn(size_t max) {
	auto a = sym<T>(max), b = sym<T>(max);
	compare<T>(a, b, span<T>(a), span<T>(b));
	compare<T>(a, b, span<const T>(a), span<const T>(b));
}
template<typename T, size_t N> void compareFixed() {
	std::vector<T> a, b;
	T x[N], y[N];
	for(size_t i = 0; i < N; ++i) { a.push_back(x[i] = sx::val<T>("a")); b.push_back(y[i] = sx::val<T>("b")); }
	compare<T>(a, b, span<T, N>(x), span<T, N>(y));
	CHECK((span<T, N>(x) == span<T>(y)) == refEq(a, b), "spans of different extent types are compared by their elements");
	size_t n = sx::u8("n");
	sx::assume(n <= N);
	n = __sx_concretize(n);
	std::vector<T> c(b.begin(), b.begin() + n);
	CHECK((span<T, N>(x) == span<T>(y, n)) == refEq(a, c), "spans of different extent types are compared by their elements");
	CHECK((span<T>(y, n) == span<T, N>(x)) == refEq(a, c), "spans of different extent types are compared by their elements");
}
#endif

#if SX_PART == 12
size_t theK; // an arbitrary position
void pick(size_t n) {
	if(n == 0) return;
	theK = sx::u8("k");
	sx::assume(theK < n);
	theK = __sx_concretize(theK);
}
template<typename T, size_t E> void covers(span<T, E> s, std::remove_const_t<T>* base, size_t n, const std::vector<int>& vals) {
	CHECK(s.data() == base && s.size() == n && s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0), "a span covers the elements it was made from");
	size_t i = 0;
	for(auto it = s.begin(); it != s.end(); ++it, ++i) CHECK(i < n && &*it == base + i && *it == vals[i], "forward iteration visits every element in order");
	CHECK(i == n, "forward iteration visits every element in order");
	i = 0;
	for(auto& x : s) { CHECK(&x == base + i, "range-for visits every element in order"); ++i; }
	CHECK(i == n, "range-for visits every element in order");
	i = 0;
	for(auto it = s.cbegin(); it != s.cend(); ++it, ++i) CHECK(i < n && &*it == base + i, "const iteration visits every element in order");
	CHECK(i == n, "const iteration visits every element in order");
	i = n;
	for(auto it = s.rbegin(); it != s.rend(); ++it) { --i; CHECK(i < n && &*it == base + i, "reverse iteration visits every element in reverse order"); }
	CHECK(i == 0, "reverse iteration visits every element in reverse order");
	i = n;
	for(auto it = s.crbegin(); it != s.crend(); ++it) { --i; CHECK(i < n && &*it == base + i, "const reverse iteration visits every element in reverse order"); }
	CHECK(i == 0, "const reverse iteration visits every element in reverse order");
	if(n) {
		CHECK(&s.front() == base && &s.back() == base + n - 1, "front and back are the first and last element");
		size_t k = theK;
		CHECK(s[k] == vals[k] && s(k) == vals[k], "element access");
		CHECK(&s[k] == base + k, "element access");
	}
}
#endif
} // namespace

#if SX_PART == 10
ENTRY(views_dynamic) {
	size_t n = sx::u64("n");
	sx::assume(n < (uint64_t(1) << 56)); // sizes in bytes are representable
	int* base = (int*)(uintptr_t)0x100000;
	viewsRT<int, dyn>(span<int>(base, n), base, n);
	sx::assume(n >= 4);
	viewsCT<dyn>(span<int>(base, n), base, n);
}
ENTRY(views_dynamic_range) {
	size_t n = sx::u64("n");
	sx::assume(n < (uint64_t(1) << 56));
	auto base = (uint16_t*)(uintptr_t)0x100000;
	viewsRT<uint16_t, dyn>(span<uint16_t>(base, base + n), base, n);
}
ENTRY(views_fixed) {
	int arr[7] = {};
	viewsRT<int, 7>(span<int, 7>(arr), arr, 7);
	viewsCT<7>(span<int, 7>(arr), arr, 7);
	double d[4] = {};
	viewsCT<4>(span<double, 4>(d), d, 4);
	viewsRT<double, 4>(span<double, 4>(d), d, 4);
}
ENTRY(views_access) {
	constexpr size_t N = SX_THOROUGH ? 7 : 5;
	int arr[N];
	for(auto& a : arr) a = sx::i32("e");
	if(sx::flag("fixed")) access(span<int, N>(arr), arr, N);
	else access(span<int>(arr), arr, N);
}
#elif SX_PART == 11
ENTRY(cmp_int) { compareDyn<int>(SX_THOROUGH ? 5 : 3); }
ENTRY(cmp_uint8) { compareDyn<uint8_t>(SX_THOROUGH ? 5 : 3); }
ENTRY(cmp_int8) { compareDyn<int8_t>(SX_THOROUGH ? 5 : 3); }
ENTRY(cmp_uint64) { compareDyn<uint64_t>(SX_THOROUGH ? 5 : 3); }
ENTRY(cmp_double) { compareFloats<double>(2); }
ENTRY(cmp_float) { compareFloats<float>(2); }
ENTRY(cmp_user) { // the elements' own comparison counts
	size_t n = sx::choice(SX_THOROUGH ? 4 : 3, "n"), m = sx::choice(SX_THOROUGH ? 4 : 3, "m");
	std::vector<Named> a, b;
	for(size_t i = 0; i < n; ++i) a.push_back({sx::i32("key"), sx::i32("other")});
	for(size_t i = 0; i < m; ++i) b.push_back({sx::i32("key"), sx::i32("other")});
	compare<Named>(a, b, span<Named>(a), span<Named>(b));
	compare<Named>(a, b, span<const Named>(a), span<const Named>(b));
}
ENTRY(cmp_empty) { // no element is looked at
	span<int> e, f((int*)(uintptr_t)0x100000, size_t(0));
	int one[1] = {sx::i32("e")};
	CHECK(e == f && f == e && !(e != f) && !(e < f) && e <= f && e >= f && !(e > f), "empty spans are equal");
	CHECK(e != span<int>(one) && e < span<int>(one) && span<int>(one) > f && !(span<int>(one) <= e), "an empty span is less than any other");
}
ENTRY(cmp_alias) { // views of the same elements, which may be the same, overlap or not
	constexpr size_t N = SX_THOROUGH ? 5 : 4;
	int arr[N];
	for(auto& e : arr) e = sx::i32("e");
	size_t i = sx::choice(N + 1, "i"), n = sx::choice((unsigned)(N + 1 - i), "n"), j = sx::choice(N + 1, "j"), m = sx::choice((unsigned)(N + 1 - j), "m");
	std::vector<int> a(arr + i, arr + i + n), b(arr + j, arr + j + m);
	compare<int>(a, b, span<int>(arr + i, n), span<int>(arr + j, m));
	compare<int>(a, b, span<const int>(arr + i, n), span<const int>(arr + j, m));
	std::vector<int> all(arr, arr + N);
	CHECK((span<int, N>(arr) == span<int>(arr + j, m)) == refEq(all, b), "spans of different extent types are compared by their elements");
}
ENTRY(cmp_long) { // spans of many elements that differ in one place and length
	constexpr size_t N = 300;
	std::vector<int> a(N), b(N);
	for(size_t i = 0; i < N; ++i) a[i] = b[i] = (int)(i * 7 % 31);
	constexpr size_t where[] = {0, 1, 15, 16, 63, 127, 255, 256, 257, N - 1};
	size_t k = where[sx::choice(10, "k")];
	a[k] = sx::i32("x"); b[k] = sx::i32("y");
	size_t n = sx::flag("shorter a") ? 256 : N, m = sx::flag("shorter b") ? 256 : N;
	int x = a[k], y = b[k];
	bool both = k < 256;
	bool eq = n == m && (k >= n || x == y);
	bool lt = (both || (n == N && m == N)) && x != y ? x < y : n < m;
	span<int> s(a.data(), n), t(b.data(), m);
	CHECK((s == t) == eq && (s != t) == !eq, "spans are equal exactly if they have the same elements in order");
	CHECK((s < t) == lt && (t > s) == lt && (s >= t) == !lt && (t <= s) == !lt, "< is the lexicographic order");
}
ENTRY(cmp_fixed) { compareFixed<int, 3>(); compareFixed<uint8_t, 2>(); }
#elif SX_PART == 12
ENTRY(make_array) {
	int arr[4]; std::vector<int> v;
	pick(4);
	for(auto& a : arr) v.push_back(a = sx::i32("e"));
	covers(span<int, 4>(arr), arr, 4, v);
	covers(span<int>(arr), arr, 4, v);
	covers(span<const int, 4>(arr), arr, 4, v);
	covers(span<const int>(arr), arr, 4, v);
	covers(span(arr), arr, 4, v);
	covers(nytl::make_span(arr), arr, 4, v);
	CHECK(decltype(span(arr))::extent == 4 && decltype(nytl::make_span(arr))::extent == 4, "arrays give fixed extents");
}
ENTRY(make_stdarray) {
	std::array<int, 3> arr; std::vector<int> v;
	pick(3);
	for(auto& a : arr) v.push_back(a = sx::i32("e"));
	const auto& carr = arr;
	covers(span<int, 3>(arr), arr.data(), 3, v);
	covers(span<int>(arr), arr.data(), 3, v);
	covers(span<const int, 3>(carr), arr.data(), 3, v);
	covers(span<const int>(carr), arr.data(), 3, v);
	covers(span(arr), arr.data(), 3, v);
	covers(span(carr), arr.data(), 3, v);
	CHECK(decltype(span(arr))::extent == 3 && decltype(span(carr))::extent == 3, "arrays give fixed extents");
}
ENTRY(make_vector) {
	size_t n = sx::u8("n");
	sx::assume(n <= 4);
	n = __sx_concretize(n);
	std::vector<int> v;
	for(size_t i = 0; i < n; ++i) v.push_back(sx::i32("e"));
	pick(n);
	const auto& cv = v;
	auto vals = v;
	int* p = v.data();
	covers(span<int>(v), p, n, vals);
	covers(span<const int>(cv), p, n, vals);
	covers(span<const int>(v), p, n, vals);
	covers(span(v), p, n, vals);
	covers(span(cv), p, n, vals);
	covers(nytl::make_span(v), p, n, vals);
	covers(nytl::make_span(cv), p, n, vals);
	covers(span<int>(p, n), p, n, vals);
	covers(span<int>(p, p + n), p, n, vals);
	covers(nytl::make_span(p, n), p, n, vals);
	covers(nytl::make_span(p, p + n), p, n, vals);
}
// every element type and extent: only the positions matter
struct S12 { int a, b, c; };
template<typename T, typename S> void positions(S s, const T* base, size_t n) {
	auto b = (const char*)base;
	CHECK((const char*)s.data() == b && s.size() == n && s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0), "a span covers the elements it was made from");
	CHECK((const char*)s.begin() == b && (const char*)s.end() == b + n * sizeof(T), "begin and end enclose the elements");
	CHECK((const char*)s.cbegin() == b && (const char*)s.cend() == b + n * sizeof(T), "cbegin and cend enclose the elements");
	CHECK((const char*)s.rbegin().base() == b + n * sizeof(T) && (const char*)s.rend().base() == b, "rbegin and rend enclose the elements");
	CHECK((const char*)s.crbegin().base() == b + n * sizeof(T) && (const char*)s.crend().base() == b, "crbegin and crend enclose the elements");
	auto y = nytl::as_bytes(nytl::span<const T>(s));
	CHECK((const char*)y.data() == b && y.size() == n * sizeof(T), "as_bytes covers the storage of the elements");
	if(n) {
		CHECK((const char*)&s.front() == b && (const char*)&s.back() == b + (n - 1) * sizeof(T), "front and back are the first and last element");
		size_t k = sx::u64("k"); sx::assume(k < n);
		CHECK((const char*)&s[k] == b + k * sizeof(T) && (const char*)&s(k) == b + k * sizeof(T), "element access");
	}
}
template<typename T> void writeable(span<T> s, const T* base, size_t n) {
	auto w = nytl::as_writeable_bytes(s);
	CHECK((const char*)w.data() == (const char*)base && w.size() == n * sizeof(T) && w.size_bytes() == n * sizeof(T) && decltype(w)::extent == dyn, "as_writeable_bytes covers the storage of the elements");
	auto b = nytl::as_bytes(s);
	CHECK((const char*)b.data() == (const char*)base && b.size() == n * sizeof(T) && decltype(b)::extent == dyn, "as_bytes covers the storage of the elements");
}
template<typename T, size_t N> void extent() {
	T arr[N] {};
	writeable<T>(span<T>(arr), arr, N);
	writeable<T>(nytl::make_span(arr), arr, N);
	positions<T>(span<T, N>(arr), arr, N);
	positions<T>(span<const T, N>(arr), arr, N);
	positions<T>(span<T>(arr), arr, N);
	positions<T>(span<const T>(span<T, N>(arr)), arr, N);
	positions<T>(span<const T>(span<T>(arr)), arr, N);
	positions<T>(span<const T, N>(span<T, N>(arr)), arr, N);
	std::array<T, N> a {};
	const auto& ca = a;
	positions<T>(span(a), a.data(), N);
	positions<T>(span(ca), a.data(), N);
	positions<T>(nytl::make_span(arr), arr, N);
	auto y = nytl::as_bytes(span<T, N>(arr));
	CHECK((const char*)y.data() == (const char*)arr && y.size() == N * sizeof(T) && decltype(y)::extent == N * sizeof(T), "as_bytes covers the storage of the elements");
	auto w = nytl::as_writeable_bytes(span<T, N>(arr));
	CHECK((const char*)w.data() == (const char*)arr && w.size() == N * sizeof(T) && decltype(w)::extent == N * sizeof(T), "as_writeable_bytes covers the storage of the elements");
}
template<typename T> void extents() { extent<T, 1>(); extent<T, 2>(); extent<T, 3>(); extent<T, 5>(); extent<T, 8>(); extent<T, 16>(); extent<T, 33>(); }
template<typename T> void anySize() { // nothing but the arithmetic, for every size
	size_t n = sx::u64("n");
	sx::assume(n < (uint64_t(1) << 57));
	auto base = (T*)(uintptr_t)0x100000;
	positions<T>(span<T>(base, n), base, n);
	positions<T>(span<T>(base, base + n), base, n);
	positions<T>(span<const T>(span<T>(base, n)), base, n);
	positions<T>(nytl::make_span(base, n), base, n);
	writeable<T>(span<T>(base, n), base, n);
}
ENTRY(positions_byte) { extents<unsigned char>(); }
ENTRY(positions_short) { extents<short>(); }
ENTRY(positions_int) { extents<int>(); }
ENTRY(positions_double) { extents<double>(); }
ENTRY(positions_struct) { extents<S12>(); }
ENTRY(any_byte) { anySize<unsigned char>(); }
ENTRY(any_int) { anySize<int>(); }
ENTRY(any_double) { anySize<double>(); }
ENTRY(any_struct) { anySize<S12>(); }
ENTRY(make_smartptr) {
	std::unique_ptr<int> u(new int(sx::i32("e")));
	auto s = nytl::make_span(u.get(), size_t(1));
	CHECK(s.data() == u.get() && s.size() == 1 && s[0] == *u, "a span of one element");
}
ENTRY(convert) {
	size_t n = 4;
	int arr[4]; std::vector<int> v;
	pick(4);
	for(auto& a : arr) v.push_back(a = sx::i32("e"));
	span<int> d(arr, n);
	span<int, 4> f(d);
	covers(f, arr, 4, v);
	span<const int> cd = d;
	covers(cd, arr, 4, v);
	span<const int, 4> cf(f);
	covers(cf, arr, 4, v);
	span<int> back(f);
	covers(back, arr, 4, v);
	span<const int> cd2 = f;
	covers(cd2, arr, 4, v);
	span<int> e;
	CHECK(e.empty() && e.size() == 0 && e.data() == nullptr && e.begin() == e.end(), "a default span is empty");
	e = back;
	covers(e, arr, 4, v);
	auto copy = e;
	covers(copy, arr, 4, v);
	std::string str = "abc";
	span<const char> sc(str);
	CHECK(sc.data() == str.data() && sc.size() == 3, "a span over a string covers its characters");
	// bytes of a span
	auto b = nytl::as_bytes(f);
	CHECK((const void*)b.data() == (const void*)arr && b.size() == sizeof(arr) && decltype(b)::extent == sizeof(arr), "as_bytes covers the storage of the elements");
	auto bd = nytl::as_bytes(d);
	CHECK((const void*)bd.data() == (const void*)arr && bd.size() == sizeof(arr) && decltype(bd)::extent == dyn, "as_bytes covers the storage of the elements");
	auto wb = nytl::as_writeable_bytes(d);
	CHECK((void*)wb.data() == (void*)arr && wb.size() == sizeof(arr), "as_writeable_bytes covers the storage of the elements");
	auto wf = nytl::as_writeable_bytes(f);
	CHECK((void*)wf.data() == (void*)arr && wf.size() == sizeof(arr) && decltype(wf)::extent == sizeof(arr), "as_writeable_bytes covers the storage of the elements");
}
#endif
