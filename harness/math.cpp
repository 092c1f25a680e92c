// C19 mapUnsigned, C20 pair, C21 scalar helpers.
#include "sx.hpp"
#include <nytl/math.hpp>
#include <cmath>

#if SX_PART == 19
ENTRY(map_roundtrip) {
	int x = sx::i32("x");
	CHECK(nytl::unmapUnsigned(nytl::mapUnsigned(x)) == x, "unmapUnsigned reverses mapUnsigned");
}
ENTRY(map_roundtrip2) {
	unsigned u = sx::u32("u");
	CHECK(nytl::mapUnsigned(nytl::unmapUnsigned(u)) == u, "mapUnsigned reverses unmapUnsigned");
}
ENTRY(map_values) {
	int x = sx::i32("x");
	int64_t w = x;
	CHECK((int64_t)nytl::mapUnsigned(x) == (w < 0 ? -2 * w - 1 : 2 * w), "0, 1, 2, .. map to 0, 2, 4, .. and -1, -2, .. to 1, 3, ..");
}
ENTRY(map_injective) {
	int x = sx::i32("x"), y = sx::i32("y");
	CHECK((nytl::mapUnsigned(x) == nytl::mapUnsigned(y)) == (x == y), "different numbers are mapped to different numbers");
	unsigned u = sx::u32("u"), v = sx::u32("v");
	CHECK((nytl::unmapUnsigned(u) == nytl::unmapUnsigned(v)) == (u == v), "different numbers are unmapped to different numbers");
}
#elif SX_PART == 20
ENTRY(pair_enumeration) { // pair numbers the grid points diagonal by diagonal, so it is injective
	unsigned x = sx::u32("x"), y = sx::u32("y");
	sx::assume(x <= 65535 && y <= 65535 - x);
	CHECK(nytl::pair(0, 0) == 0, "the first pair is 0");
	CHECK(nytl::pair(x, y) < 0xffffffffu, "the numbers do not wrap");
	if(x > 0) CHECK(nytl::pair(x - 1, y + 1) == nytl::pair(x, y) + 1, "numbers increase by one along a diagonal");
	else if(y < 65535) CHECK(nytl::pair(y + 1, 0) == nytl::pair(x, y) + 1, "a diagonal continues the numbers of the previous one");
}
ENTRY(pair_separates) {
	unsigned s = sx::u32("s"), y = sx::u32("y"), t = sx::u32("t"), z = sx::u32("z");
	sx::assume(s <= 65535 && y <= s && t <= 65535 && z <= t);
	if(s == t) CHECK((nytl::pair(s - y, y) == nytl::pair(t - z, z)) == (y == z), "different pairs have different numbers");
}
ENTRY(pair_injective) { // small pairs directly
	constexpr unsigned B = SX_THOROUGH ? 1023 : 127;
	unsigned x = sx::u32("x"), y = sx::u32("y"), u = sx::u32("u"), v = sx::u32("v");
	sx::assume(x <= B && y <= B && u <= B && v <= B);
	CHECK((nytl::pair(x, y) == nytl::pair(u, v)) == (x == u && y == v), "different pairs have different numbers");
}
ENTRY(pair_signed) {
	constexpr int B = SX_THOROUGH ? 255 : 31;
	int x = sx::i32("x"), y = sx::i32("y"), u = sx::i32("u"), v = sx::i32("v");
	sx::assume(x <= B && x >= -B && y <= B && y >= -B && u <= B && u >= -B && v <= B && v >= -B);
	auto p = [](int a, int b) { return nytl::pair(nytl::mapUnsigned(a), nytl::mapUnsigned(b)); };
	CHECK((p(x, y) == p(u, v)) == (x == u && y == v), "different signed pairs have different numbers");
}
#elif defined(SX_REAL)
ENTRY(smoothstep) {
	double lo = sx::f64("min"), hi = sx::f64("max"), x = sx::f64("x");
	sx::assume(lo < hi);
	double r = nytl::smoothstep(lo, hi, x);
	CHECK(r >= 0 && r <= 1, "smoothstep stays in [0, 1]");
	if(x <= lo) sx::eq(r, 0, "smoothstep is 0 below the range");
	else if(x >= hi) sx::eq(r, 1, "smoothstep is 1 above the range");
	else {
		double t = (x - lo) / (hi - lo);
		sx::eq(r, 3 * t * t - 2 * t * t * t, "smoothstep is the hermite polynomial inside the range");
	}
}
ENTRY(smoothstep_monotone) {
	double x = sx::f64("x"), y = sx::f64("y");
	sx::assume(x <= y);
	CHECK(nytl::smoothstep(0.0, 1.0, x) <= nytl::smoothstep(0.0, 1.0, y), "smoothstep is monotonic");
}
ENTRY(mix) {
	double x = sx::f64("x"), y = sx::f64("y"), a = sx::f64("a");
	sx::eq(nytl::mix(x, y, a), x + a * (y - x), "mix is the linear interpolation");
	sx::eq(nytl::mix(x, y, 0.0), x, "mix with 0 is the first value");
	sx::eq(nytl::mix(x, y, 1.0), y, "mix with 1 is the second value");
	sx::assume(a >= 0 && a <= 1 && x <= y);
	double r = nytl::mix(x, y, a);
	CHECK(r >= x && r <= y, "mix with a factor in [0, 1] stays between the values");
}
ENTRY(angles) {
	double x = sx::f64("x");
	constexpr double pi = 3.14159265358979323846;
	double b = x < 0 ? -x : x;
	double g = nytl::degrees(nytl::radians(x)) - x, h = nytl::radians(nytl::degrees(x)) - x;
	CHECK(g <= b * 1e-14 && -g <= b * 1e-14, "degrees reverses radians"); // the constants are rounded
	CHECK(h <= b * 1e-14 && -h <= b * 1e-14, "radians reverses degrees");
	double e = nytl::radians(x) - x * pi / 180;
	CHECK(e <= b * 1e-12 && -e <= b * 1e-12, "radians scales by pi / 180");
	double f = nytl::degrees(x) - x * 180 / pi;
	CHECK(f <= b * 1e-8 && -f <= b * 1e-8, "degrees scales by 180 / pi");
	CHECK(nytl::constants::pi > 3.1415926535 && nytl::constants::pi < 3.1415926536, "the value of pi");
	CHECK(nytl::constants::e > 2.7182818284 && nytl::constants::e < 2.7182818285, "the value of e");
}
#else
ENTRY(integer_angles) { // whole degrees are converted to real radians
	int x = (int8_t)__sx_concretize(sx::u8("x"));
	constexpr double pi = 3.14159265358979323846;
	double b = x < 0 ? -x : x;
	double e = nytl::radians(x) - x * pi / 180, f = nytl::degrees(x) - x * 180 / pi;
	CHECK(e <= b * 1e-12 && -e <= b * 1e-12, "radians of whole numbers");
	CHECK(f <= b * 1e-8 && -f <= b * 1e-8, "degrees of whole numbers");
	float g = (float)x;
	double h = nytl::radians(g) - x * pi / 180, i = nytl::degrees(g) - x * 180 / pi;
	CHECK(h <= b * 1e-7 && -h <= b * 1e-7, "radians of float values");
	CHECK(i <= b * 1e-5 && -i <= b * 1e-5, "degrees of float values");
}
ENTRY(clamp_store) {
	float v = sx::f32("value"), lo = sx::f32("min"), hi = sx::f32("max");
	sx::assume(lo <= hi && v == v);
	int st = 7;
	float r = nytl::clampStore(v, lo, hi, st);
	CHECK(r >= lo && r <= hi, "the result is in the range");
	if(v < lo) CHECK(r == lo && st == -1, "values below are clamped to min and reported as -1");
	else if(v > hi) CHECK(r == hi && st == 1, "values above are clamped to max and reported as 1");
	else {
		CHECK(r == v, "values in the range are returned");
		if(v > lo && v < hi) CHECK(st == 0, "values inside the range are reported as 0");
	}
	CHECK(st == 0 || st == 1 || st == -1, "store is -1, 0 or 1");
}
ENTRY(factorial) {
	unsigned n = sx::u8("n");
	sx::assume(n >= 1 && n <= 20);
	CHECK(nytl::factorial(0) == 1, "the factorial of 0");
	n = __sx_concretize(n);
	uint64_t f = 1;
	for(unsigned i = 2; i <= n; ++i) f *= i;
	CHECK(nytl::factorial(n) == f, "the factorial of n");
}
ENTRY(smoothstep_float) {
	float x = sx::f32("x");
	sx::assume(x == x);
	float r = nytl::smoothstep(0.f, 1.f, x);
	if(x <= 0) CHECK(r == 0, "smoothstep is 0 below the range");
	if(x >= 1) CHECK(r == 1, "smoothstep is 1 above the range");
}
ENTRY(mix_ends) {
	float x = sx::f32("x"), y = sx::f32("y");
	sx::assume(x - x == 0 && y - y == 0);
	CHECK(nytl::mix(x, y, 0.f) == x, "mix with 0 is exactly the first value");
	CHECK(nytl::mix(x, y, 1.f) == y, "mix with 1 is exactly the second value");
}
#endif
