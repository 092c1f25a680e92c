// C47: printing of vectors, matrices, rects and approx values.
#include "sx.hpp"
#include <ostream>
#include <sstream>
#include <string>
#include <array>
#include <vector>
#include <forward_list>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>

#ifdef SX_ENGINE
std::ostream& modelStream();
const char* modelText();
long modelSize();
long modelNumbers();
double modelNumber(long);
void modelReset();
#endif

namespace {
// A printable value that records what is printed, in which order and with which format.
template<typename N> struct ValT {
	N n {};
	operator double() const { return n; }
};
struct Printed { double n; long width, precision; };
std::vector<Printed>* printed;
template<typename N> std::ostream& operator<<(std::ostream& os, const ValT<N>& v)
{
	printed->push_back({(double) v.n, (long) os.width(), (long) os.precision()});
	os.width(0);
	os << "#";
	return os;
}
using Val = ValT<int>;

struct Stream {
	std::vector<Printed> log;
	std::ostringstream* real {};
	std::ostream* os {};
	int precision;
	Stream() {
		printed = &log;
#ifdef SX_ENGINE
		os = &modelStream();
#else
		real = new std::ostringstream;
		os = real;
#endif
		precision = sx::u8("precision");
		sx::assume(precision <= 40);
		os->precision(precision);
	}
	~Stream() { 
#ifndef SX_ENGINE
		delete real;
#endif
		printed = nullptr; }
	void check(const std::string& want) {
#ifdef SX_ENGINE
		const char* t = modelText();
		size_t size = (size_t) modelSize();
#else
		std::string s = real->str();
		const char* t = s.data();
		size_t size = s.size();
#endif
		CHECK(size == want.size(), "the text has the documented form (length)");
		bool ok = true;
		for(size_t i = 0; i < size; ++i) ok = ok & (t[i] == want[i]);
		CHECK(ok, "the text has the documented form");
		CHECK(os->precision() == precision, "the precision of the stream is as before");
		CHECK(os->width() == 0, "no field width is left behind");
	}
};
Val value(const char* n) { Val v; v.n = sx::i32(n); return v; }

template<typename R> void range(const R& r, size_t n, const Val* vals, bool custom)
{
	Stream s;
	const char* open = "("; const char* close = ")"; const char* sep = ", ";
	std::ostream* ret;
	if(custom) { open = "<<"; close = "!"; sep = ";"; ret = &nytl::print(*s.os, r, open, close, sep); }
	else ret = &nytl::print(*s.os, r);
	CHECK(ret == s.os, "the stream is returned");
	std::string want = open;
	for(size_t i = 0; i < n; ++i) { if(i) want += sep; want += "#"; }
	want += close;
	s.check(want);
	CHECK(s.log.size() == n, "every component is printed once");
	for(size_t i = 0; i < n; ++i) {
		CHECK(s.log[i].n == vals[i].n, "the components are printed in order");
		CHECK(s.log[i].precision == s.precision, "the components are printed with the stream's precision");
	}
}
template<size_t D> void vec()
{
	nytl::Vec<D, Val> v; Val vals[D];
	for(size_t i = 0; i < D; ++i) v[i] = vals[i] = value("v");
	range(v, D, vals, false);
	range(v, D, vals, true);
	Stream s;
	CHECK(&(*s.os << v) == s.os, "the stream is returned");
	std::string want = "(#";
	for(size_t i = 1; i < D; ++i) want += ", #";
	s.check(want + ")");
	CHECK(s.log.size() == D, "every component is printed once");
	for(size_t i = 0; i < D; ++i) CHECK(s.log[i].n == vals[i].n, "the components are printed in order");
}

template<size_t R, size_t C> std::string matText(const char* spacing, bool brk)
{
	std::string want = "{\n";
	for(size_t r = 0; r < R; ++r) {
		want += spacing; want += "(";
		for(size_t c = 0; c < C; ++c) want += c ? ", #" : "#";
		want += ")\n";
	}
	want += "}";
	if(brk) want += "\n";
	return want;
}
// how: 0 operator<<, 1 print with defaults, 2 all parameters given
template<size_t R, size_t C> void mat(unsigned how, unsigned negative = 6)
{
	nytl::Mat<R, C, Val> m; int vals[R][C];
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		m[r][c].n = vals[r][c] = sx::i32("m");
		sx::assume((vals[r][c] > (r * C + c < negative ? -10 : -1)) & (vals[r][c] < 10)); // every sign is a path
	}
	Stream s;
	unsigned width = 8; const char* spacing = "    "; bool brk = true;
	std::ostream* ret;
	if(how == 0) ret = &(*s.os << m);
	else if(how == 1) ret = &nytl::print(*s.os, m);
	else {
		width = sx::u8("width");
		sx::assume((width == 0) | ((width >= 4) & (width <= 40)));
		spacing = "\t"; brk = sx::choice(2, "break");
		ret = &nytl::print(*s.os, m, width, spacing, brk);
	}
	CHECK(ret == s.os, "the stream is returned");
	s.check(matText<R, C>(spacing, brk));
	CHECK(s.log.size() == R * C, "every value is printed once");
	for(size_t i = 0; i < R * C; ++i) {
		int v = vals[i / C][i % C];
		CHECK(s.log[i].n == v, "the values are printed row by row");
		if(width) {
			CHECK(s.log[i].width == width, "every value gets the given width");
			CHECK((s.log[i].precision >= 1) & (s.log[i].precision + 1 + (v < 0) <= (long) width), "the value fits into its width");
		} else {
			CHECK(s.log[i].width == 0, "without width, none is set");
			CHECK(s.log[i].precision == s.precision, "without width, the precision is left alone");
		}
	}
}

template<size_t D> void rect()
{
	nytl::Rect<D, Val> r; Val vals[2 * D];
	for(size_t i = 0; i < D; ++i) r.position[i] = vals[i] = value("p");
	for(size_t i = 0; i < D; ++i) r.size[i] = vals[D + i] = value("s");
	std::string part = "(#";
	for(size_t i = 1; i < D; ++i) part += ", #";
	part += ")";
	for(int op = 0; op < 2; ++op) {
		Stream s;
		auto& ret = op ? (*s.os << r) : nytl::print(*s.os, r);
		CHECK(&ret == s.os, "the stream is returned");
		s.check("{" + part + part + "}");
		CHECK(s.log.size() == 2 * D, "position and size are printed");
		for(size_t i = 0; i < 2 * D; ++i) CHECK(s.log[i].n == vals[i].n, "the position is printed first, then the size");
	}
}
} // namespace

ENTRY(print_vec1) { vec<1>(); }
ENTRY(print_vec2) { vec<2>(); }
ENTRY(print_vec3) { vec<3>(); }
ENTRY(print_vec4) { vec<4>(); }
ENTRY(print_vec5) { vec<5>(); }
ENTRY(print_range_vector)
{
	unsigned n = 1 + sx::choice(SX_THOROUGH ? 8 : 4, "n");
	std::vector<Val> v; Val vals[8];
	for(unsigned i = 0; i < n; ++i) { vals[i] = value("v"); v.push_back(vals[i]); }
	range(v, n, vals, sx::choice(2, "custom"));
}
ENTRY(print_range_list)
{
	unsigned n = 1 + sx::choice(SX_THOROUGH ? 8 : 4, "n");
	std::forward_list<Val> v; Val vals[8]; // no random access, no size
	auto end = v.before_begin();
	for(unsigned i = 0; i < n; ++i) { vals[i] = value("v"); end = v.insert_after(end, vals[i]); }
	range(v, n, vals, sx::choice(2, "custom"));
}
ENTRY(print_range_array)
{
	std::array<Val, 3> v; Val vals[3];
	for(int i = 0; i < 3; ++i) v[i] = vals[i] = value("v");
	range(v, 3, vals, sx::choice(2, "custom"));
}
ENTRY(print_mat11) { mat<1, 1>(sx::choice(3, "how")); }
ENTRY(print_mat22) { mat<2, 2>(sx::choice(3, "how")); }
ENTRY(print_mat23) { mat<2, 3>(sx::choice(3, "how")); }
// larger ones
ENTRY(print_mat26) { mat<2, 6>(sx::choice(3, "how"), 1); }
ENTRY(print_mat17) { mat<1, 7>(sx::choice(3, "how"), 1); }
ENTRY(print_mat62) { mat<6, 2>(sx::choice(3, "how"), 1); }
ENTRY(print_mat55) { mat<5, 5>(sx::choice(2, "how"), 1); }
ENTRY(print_vec9) { vec<9>(); }
ENTRY(print_range_long)
{
	std::vector<Val> v; Val vals[20];
	for(unsigned i = 0; i < 20; ++i) { vals[i] = value("v"); v.push_back(vals[i]); }
	range(v, 20, vals, sx::choice(2, "custom"));
}
ENTRY(print_mat41) { mat<4, 1>(sx::choice(3, "how")); }
#if SX_THOROUGH
ENTRY(print_mat33) { mat<3, 3>(sx::choice(3, "how")); }
ENTRY(print_mat14) { mat<1, 4>(sx::choice(3, "how")); }
ENTRY(print_mat44) { mat<4, 4>(0); }
#endif
// values outside of -10..10: the number of digits is a logarithm, decided for chosen values
ENTRY(print_mat_digits)
{
	static const double set[] = {0, 0.5, -0.5, 9.75, 10, 11, 99, 100, 999, 1000, -9.5, -10, -11, -99, -100, -1000, 1e300, -1e300};
	nytl::Mat<1, 2, ValT<double>> m;
	double a = set[sx::choice(sizeof(set) / sizeof(set[0]), "a")], b = set[sx::choice(SX_THOROUGH ? sizeof(set) / sizeof(set[0]) : 2, "b")];
	m[0][0].n = a; m[0][1].n = b;
	Stream s;
	nytl::print(*s.os, m, 12);
	s.check(matText<1, 2>("    ", true));
	CHECK(s.log.size() == 2, "every value is printed once");
	for(int i = 0; i < 2; ++i) {
		double v = i ? b : a;
		CHECK(s.log[i].n == v, "the values are printed row by row");
		CHECK(s.log[i].width == 12, "every value gets the given width");
		if(v > -1e5 && v < 1e5) CHECK((s.log[i].precision >= 1) & (s.log[i].precision + 1 + (v < 0) <= 12), "the value fits into its width");
	}
}
// any value can be printed: the format is computed without undefined conversions
ENTRY(print_mat_nonfinite)
{
	static const double set[] = {1.0, __builtin_inf(), -__builtin_inf(), __builtin_nan(""), -__builtin_nan(""), 1e308, -1e308, 5e-324};
	nytl::Mat<1, 2, ValT<double>> m;
	m[0][0].n = set[sx::choice(8, "a")]; m[0][1].n = set[sx::choice(8, "b")];
	Stream s;
	nytl::print(*s.os, m, sx::choice(2, "w") ? 8 : 0);
	s.check(matText<1, 2>("    ", true));
	CHECK(s.log.size() == 2, "every value is printed once");
}
ENTRY(print_rect1) { rect<1>(); }
ENTRY(print_rect2) { rect<2>(); }
ENTRY(print_rect3) { rect<3>(); }
// plain numbers: how the stream formats them is not in question
template<typename T, typename N> void numbers(const T& obj, const std::string& want, const N* vals, size_t n)
{
	using namespace nytl::approxOps;
	Stream s;
#ifdef SX_ENGINE
	modelReset();
#endif
	CHECK(&(*s.os << obj) == s.os, "the stream is returned");
	bool ok = true;
#ifdef SX_ENGINE
	ok = (size_t) modelSize() == want.size() && modelNumbers() == (long) n;
	if(ok) {
		const char* t = modelText();
		for(size_t i = 0; i < want.size(); ++i) ok = ok & (t[i] == want[i]);
		for(size_t i = 0; i < n; ++i) { double d = modelNumber(i), v = vals[i]; ok = ok & ((d == v) | ((d != d) & (v != v))); }
	}
#else
	std::string full; size_t k = 0;
	for(char c : want) {
		if(c != '#') { full += c; continue; }
		std::ostringstream one; one.precision(s.precision); one << vals[k++]; full += one.str();
	}
	ok = s.real->str() == full;
#endif
	CHECK(ok, "the text has the documented form, with the values in order");
	CHECK(s.os->precision() == s.precision && s.os->width() == 0, "the format of the stream is as before");
}
ENTRY(print_approx_double)
{
	double v = sx::f64("v");
	sx::assume(v == v);
	numbers(nytl::approx(v, 0.5), "Approx(#)", &v, 1);
}
ENTRY(print_approx_vec)
{
	float v[3];
	nytl::Vec<3, float> a;
	for(int i = 0; i < 3; ++i) { a[i] = v[i] = sx::f32("v"); sx::assume(v[i] == v[i]); }
	numbers(nytl::approx(a, 0.5), "Approx((#, #, #))", v, 3);
}
template<size_t D, typename T> void allNumbers() // infinities and NaN are printed like any value
{
	T v[D];
	nytl::Vec<D, T> a;
	std::string want = "(";
	for(size_t i = 0; i < D; ++i) { a[i] = v[i] = sx::val<T>("v"); want += i ? ", #" : "#"; }
	numbers(a, want + ")", v, D);
}
ENTRY(print_vec_doubles) { allNumbers<3, double>(); }
ENTRY(print_vec_floats) { allNumbers<2, float>(); }
ENTRY(print_rect_doubles)
{
	double v[4];
	for(int i = 0; i < 4; ++i) v[i] = sx::f64("v");
	numbers(nytl::Rect<2, double>{{v[0], v[1]}, {v[2], v[3]}}, "{(#, #)(#, #)}", v, 4);
}
ENTRY(print_numbers)
{
	int v[4];
	for(int i = 0; i < 4; ++i) v[i] = sx::i32("v");
	numbers(nytl::Rect<2, int>{{v[0], v[1]}, {v[2], v[3]}}, "{(#, #)(#, #)}", v, 4);
}
