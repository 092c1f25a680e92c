// C15: Flags are bit sets.
#include "sx.hpp"
#include <nytl/flags.hpp>

enum class E8 : uint8_t { a = 1, b = 2, c = 4, all = 255 };
enum class E16 : uint16_t { a = 1, b = 0x8000 };
enum class E32 : unsigned { a = 1, b = 0x80000000u };
enum class E64 : uint64_t { a = 1, b = 0x8000000000000000ull };
enum class I32 : int { a = 1, b = 2, top = -2147483647 - 1 };
enum class I8 : int8_t { a = 1, top = -128 };
enum class I16 : short { a = 1, top = -32768 };
enum class I64 : long long { a = 1, b = 1ll << 40 };
NYTL_FLAG_OPS(I8)
NYTL_FLAG_OPS(I16)
NYTL_FLAG_OPS(I64)
NYTL_FLAG_OPS(E8)
NYTL_FLAG_OPS(E16)
NYTL_FLAG_OPS(E32)
NYTL_FLAG_OPS(E64)
NYTL_FLAG_OPS(I32)

namespace {
template<typename T> void algebra() {
	using F = nytl::Flags<T>;
	using U = std::underlying_type_t<T>;
	auto sym = [](const char* n) { return (U)__sx_int(sizeof(U) * 8, n); };
	U a = sym("a"), b = sym("b"), c = sym("c");
	T ta = (T)a, tb = (T)b;
	F fa(ta), fb(tb), fc((T)c);
	auto is = [](F f, U v, const char* id) { __sx_assert(f.value() == v && (U)f == v, id); };
	is(F(), (U)0, "default constructed flags are empty");
	is(fa, a, "flags of one bit have its value");
	is(F(nytl::invertFlags, ta), (U)~a, "inverted flags have all other bits");
	is(fa | fb, (U)(a | b), "| is the union");
	is(fa & fb, (U)(a & b), "& is the intersection");
	is(fa ^ fb, (U)(a ^ b), "^ is the symmetric difference");
	is(fa | tb, (U)(a | b), "| with a single bit");
	is(fa & tb, (U)(a & b), "& with a single bit");
	is(fa ^ tb, (U)(a ^ b), "^ with a single bit");
	is(ta | fb, (U)(a | b), "a single bit | flags");
	is(ta & fb, (U)(a & b), "a single bit & flags");
	is(ta ^ fb, (U)(a ^ b), "a single bit ^ flags");
	is(ta | tb, (U)(a | b), "| of two bits");
	is(ta & tb, (U)(a & b), "& of two bits");
	is(ta ^ tb, (U)(a ^ b), "^ of two bits");
	is(~ta, (U)~a, "~ of a bit");
	is(fa, a, "operators do not change their operands");
	is(fb, b, "operators do not change their operands");
	F x = fa; F& rx = (x |= fb); is(x, (U)(a | b), "|= adds"); CHECK(&rx == &x, "compound assignment returns its object");
	F y = fa; F& ry = (y &= fb); is(y, (U)(a & b), "&= intersects"); CHECK(&ry == &y, "compound assignment returns its object");
	F z = fa; F& rz = (z ^= fb); is(z, (U)(a ^ b), "^= toggles"); CHECK(&rz == &z, "compound assignment returns its object");
	F s = fa; s |= s; is(s, a, "compound assignment with itself");
	F t = fa; t &= t; is(t, a, "compound assignment with itself");
	F u = fa; u ^= u; is(u, (U)0, "compound assignment with itself");
	x = fa; x |= tb; is(x, (U)(a | b), "compound assignment with a bit");
	x = fa; x &= ~tb; is(x, (U)(a & (U)~b), "&= ~bit removes the bit");
	CHECK((fa == fb) == (a == b), "== compares the values");
	CHECK((fa != fb) == (a != b), "!= compares the values");
	CHECK((bool)(U)(fa & tb) == ((a & b) != 0), "testing a bit");
	is((fa | fb) & fc, (U)((a | b) & c), "combined operators");
	is((fa & fb) | (fa & fc), (U)(a & (b | c)), "combined operators");
	is(fa ^ fb ^ fb, a, "toggling twice");
	CHECK(F(ta & ~tb) == (fa & F(nytl::invertFlags, tb)), "removing bits both ways");
}
} // namespace
ENTRY(flags_u8) { algebra<E8>(); }
ENTRY(flags_u16) { algebra<E16>(); }
ENTRY(flags_u32) { algebra<E32>(); }
ENTRY(flags_u64) { algebra<E64>(); }
ENTRY(flags_i8) { algebra<I8>(); }
ENTRY(flags_i16) { algebra<I16>(); }
ENTRY(flags_i64) { algebra<I64>(); }
ENTRY(flags_i32) { algebra<I32>(); }
ENTRY(flags_wide) { // an explicitly chosen value type
	using F = nytl::Flags<E8, uint32_t>;
	uint8_t a = sx::u8("a"), b = sx::u8("b");
	F fa((E8)a), fb((E8)b);
	CHECK((fa | fb).value() == uint32_t(a | b) && (fa & fb).value() == uint32_t(a & b) && (fa ^ fb).value() == uint32_t(a ^ b), "flags with their own value type");
	CHECK(F(nytl::invertFlags, (E8)a).value() == ~uint32_t(a), "inversion covers the whole value type");
}
