// C17 counting and indexing of utf-8 characters, C18 conversions.
#include "sx.hpp"
#include <nytl/utf.hpp>
#include <stdexcept>

namespace {
struct Text {
	std::string u8; std::u16string u16; std::u32string u32;
	size_t start[8], len[8], n {};
	void add() { // any code point that is not a surrogate
		unsigned l = sx::choice(4, "length");
		uint32_t c = sx::u32("codepoint");
		start[n] = u8.size(); len[n++] = l + 1;
		u32.push_back(c);
		if(l == 0) { sx::assume(c < 0x80); u8.push_back((char)c); }
		else if(l == 1) { sx::assume(c >= 0x80 && c < 0x800); u8.push_back((char)(0xC0 | c >> 6)); u8.push_back((char)(0x80 | (c & 0x3f))); }
		else if(l == 2) {
			sx::assume((c >= 0x800 && c < 0xD800) || (c >= 0xE000 && c <= 0xFFFF));
			u8.push_back((char)(0xE0 | c >> 12)); u8.push_back((char)(0x80 | (c >> 6 & 0x3f))); u8.push_back((char)(0x80 | (c & 0x3f)));
		} else {
			sx::assume(c >= 0x10000 && c <= 0x10FFFF);
			u8.push_back((char)(0xF0 | c >> 18)); u8.push_back((char)(0x80 | (c >> 12 & 0x3f))); u8.push_back((char)(0x80 | (c >> 6 & 0x3f))); u8.push_back((char)(0x80 | (c & 0x3f)));
		}
		if(c < 0x10000) u16.push_back((char16_t)c);
		else { u16.push_back((char16_t)(0xD800 + ((c - 0x10000) >> 10))); u16.push_back((char16_t)(0xDC00 + ((c - 0x10000) & 0x3ff))); }
	}
	explicit Text(unsigned max) {
		unsigned k = sx::choice(max + 1, "characters");
		for(unsigned i = 0; i < k; ++i) add();
	}
};
template<typename S> bool equal(const S& a, const S& b) {
	if(a.size() != b.size()) return false;
	bool r = true;
	for(size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i];
	return r;
}
} // namespace

#if SX_PART == 17
ENTRY(utf_count) {
	Text t(SX_THOROUGH ? 5 : 3);
	CHECK(nytl::charCount(t.u8) == t.n, "charCount counts characters");
}
ENTRY(utf_nth) {
	Text t(SX_THOROUGH ? 4 : 3);
	const std::string orig = t.u8;
	uint64_t n = sx::u64("n");
	unsigned how = sx::choice(3, "overload");
	bool thrown = false;
	try {
		uint8_t size = 99;
		if(how == 0) {
			auto a = nytl::nth(t.u8, n);
			sx::assume(n < t.n); // otherwise it should have thrown, checked below
			n = __sx_concretize(n);
			for(size_t i = 0; i < 5; ++i) CHECK(a[i] == (i < t.len[n] ? t.u8[t.start[n] + i] : 0), "nth returns the bytes of the character, followed by nulls");
		} else if(how == 1) {
			const char& c = nytl::nth(std::string_view(t.u8), n, size);
			sx::assume(n < t.n);
			n = __sx_concretize(n);
			CHECK(&c == t.u8.data() + t.start[n] && size == t.len[n], "nth refers to the character and gives its size");
		} else {
			char& c = nytl::nth(t.u8, n, size);
			sx::assume(n < t.n);
			n = __sx_concretize(n);
			CHECK(&c == t.u8.data() + t.start[n] && size == t.len[n], "nth refers to the character and gives its size");
		}
	} catch(const std::out_of_range&) { thrown = true; }
	if(thrown) CHECK(n >= t.n, "nth throws only for positions behind the last character");
	CHECK(equal(t.u8, orig), "nth does not change the string");
}
ENTRY(utf_nth_outside) {
	Text t(2);
	uint64_t n = sx::u64("n");
	sx::assume(n >= t.n);
	unsigned how = sx::choice(3, "overload");
	bool thrown = false;
	uint8_t size = 99;
	try {
		if(how == 0) nytl::nth(t.u8, n);
		else if(how == 1) nytl::nth(std::string_view(t.u8), n, size);
		else nytl::nth(t.u8, n, size);
	} catch(const std::out_of_range&) { thrown = true; }
	CHECK(thrown, "nth throws out_of_range for positions behind the last character");
}
static void longer() { // only counting and the last position
	std::string u8(66000, 'a');
	Text t(1);
	u8 += t.u8; u8 += "b";
	CHECK(nytl::charCount(u8) == 66001 + t.n, "charCount counts the characters of long texts");
	uint8_t s = 0;
	CHECK(&nytl::nth(std::string_view(u8), 66000 + t.n, s) == &u8.back() && s == 1, "the last character of a long text");
}
ENTRY(utf_far) { // texts with more characters than fit into small counters
	unsigned before = SX_THOROUGH ? 3000 : 300;
	if(sx::choice(2, "longer")) { longer(); return; }
	std::string u8;
	u8.reserve(before * 2 + 8);
	for(unsigned i = 0; i < before; ++i) { if(i % 64 == 5) { u8.push_back((char)0xC3); u8.push_back((char)0xA4); } else u8.push_back('a'); }
	Text t(1);
	size_t at = u8.size();
	u8 += t.u8; u8 += "bc";
	size_t total = before + t.n + 2, len = t.n ? t.len[0] : 1;
	CHECK(nytl::charCount(u8) == total, "charCount counts the characters of long texts");
	uint8_t s1 = 0, s2 = 0;
	auto a = nytl::nth(u8, before);
	for(size_t i = 0; i < 5; ++i) CHECK(a[i] == (i < len ? u8[at + i] : 0), "nth returns the bytes of the character, followed by nulls");
	CHECK(&nytl::nth(std::string_view(u8), before, s1) == u8.data() + at && s1 == len, "nth refers to the character and gives its size");
	CHECK(&nytl::nth(u8, before, s2) == u8.data() + at && s2 == len, "nth refers to the character and gives its size");
	CHECK(nytl::nth(u8, total - 1)[0] == 'c', "the last character of a long text");
	int thrown = 0;
	try { nytl::nth(u8, total); } catch(const std::out_of_range&) { ++thrown; }
	try { nytl::nth(std::string_view(u8), total, s1); } catch(const std::out_of_range&) { ++thrown; }
	try { nytl::nth(u8, total, s1); } catch(const std::out_of_range&) { ++thrown; }
	CHECK(thrown == 3, "nth throws out_of_range for positions behind the last character");
}
ENTRY(utf_replace) { // overwriting a character through nth
	Text t(SX_THOROUGH ? 4 : 3);
	unsigned n = sx::u8("n");
	sx::assume(n < t.n);
	n = __sx_concretize(n);
	const std::string orig = t.u8;
	uint8_t size = 0, again = 0;
	char* c = &nytl::nth(t.u8, n, size);
	if(t.len[n] == 1) { *c = 'x'; }
	else c[size - 1] = (char)(c[size - 1] ^ 1);
	CHECK(nytl::charCount(t.u8) == t.n && &nytl::nth(t.u8, n, again) == c && again == size, "writing through nth keeps the characters apart");
	for(size_t i = 0; i < orig.size(); ++i) if(i < t.start[n] || i >= t.start[n] + t.len[n]) CHECK(t.u8[i] == orig[i], "writing through nth changes only that character");
}
#else
ENTRY(utf_8_16) {
	Text t(SX_THOROUGH ? 4 : 2);
	CHECK(equal(nytl::toUtf16(t.u8), t.u16), "toUtf16 of utf-8");
	CHECK(equal(nytl::toUtf8(t.u16), t.u8), "toUtf8 of utf-16");
}
ENTRY(utf_8_32) {
	Text t(SX_THOROUGH ? 4 : 2);
	CHECK(equal(nytl::toUtf32(t.u8), t.u32), "toUtf32 of utf-8");
	CHECK(equal(nytl::toUtf8(t.u32), t.u8), "toUtf8 of utf-32");
}
ENTRY(utf_16_32) {
	Text t(SX_THOROUGH ? 3 : 2);
	CHECK(equal(nytl::toUtf16(t.u32), t.u16), "toUtf16 of utf-32");
	CHECK(equal(nytl::toUtf32(t.u16), t.u32), "toUtf32 of utf-16");
}
ENTRY(utf_long) { // longer than any small string buffer
	unsigned k = sx::choice(SX_THOROUGH ? 3 : 2, "where");
	std::string s8; std::u16string s16; std::u32string s32;
	Text t(1);
	for(unsigned i = 0; i < 20; ++i) {
		s8.push_back('a' + i); s16.push_back('a' + i); s32.push_back('a' + i);
		if(i == 9 * k) { s8 += t.u8; s16 += t.u16; s32 += t.u32; }
	}
	CHECK(equal(nytl::toUtf16(s8), s16) && equal(nytl::toUtf8(s16), s8), "utf-8 and utf-16 of longer texts");
	CHECK(equal(nytl::toUtf32(s8), s32) && equal(nytl::toUtf8(s32), s8), "utf-8 and utf-32 of longer texts");
}
#endif
