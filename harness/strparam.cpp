// C16: StringParam refers to a null-terminated string.
#include "sx.hpp"
#include <nytl/stringParam.hpp>

namespace {
template<typename C> C symChar() { return (C)__sx_int(sizeof(C) * 8, "ch"); }
template<typename C> void cstr() {
	constexpr size_t max = SX_THOROUGH ? 8 : 5;
	C buf[max + 1];
	for(size_t i = 0; i < max; ++i) buf[i] = symChar<C>();
	buf[max] = 0;
	size_t len = 0;
	while(buf[len] != 0) ++len;
	nytl::BasicStringParam<C> p(buf);
	CHECK(p.data() == buf && p.c_str() == buf, "the parameter refers to the caller's string");
	CHECK(p.size() == len, "its length is that of the string");
	CHECK(p.c_str()[p.size()] == 0, "the characters are followed by a null");
	for(size_t i = 0; i < len; ++i) CHECK(p[i] == buf[i], "it has the characters of the string");
	std::basic_string_view<C> v = p;
	CHECK(v.data() == buf && v.size() == len, "it converts to a string view of the string");
	auto q = p;
	CHECK(q.data() == buf && q.size() == len, "copies refer to the same string");
}
template<typename C> void str() {
	size_t n = sx::u8("n");
	sx::assume(n <= (SX_THOROUGH ? 6 : 4));
	n = __sx_concretize(n);
	std::basic_string<C> s;
	for(size_t i = 0; i < n; ++i) { C c = symChar<C>(); sx::assume(c != 0); s.push_back(c); }
	nytl::BasicStringParam<C> p(s);
	CHECK(p.data() == s.data() && p.c_str() == s.c_str(), "the parameter refers to the caller's string");
	CHECK(p.size() == n, "its length is that of the string");
	CHECK(p.c_str()[p.size()] == 0, "the characters are followed by a null");
	for(size_t i = 0; i < n; ++i) CHECK(p[i] == s[i], "it has the characters of the string");
}
template<typename C> void nulls() { // strings that contain null characters: the parameter ends at the first one
	size_t n = 1 + sx::choice(SX_THOROUGH ? 6 : 4, "n");
	std::basic_string<C> s;
	for(size_t i = 0; i < n; ++i) s.push_back(symChar<C>());
	size_t len = 0;
	while(len < n && s[len] != 0) ++len;
	nytl::BasicStringParam<C> p(s);
	CHECK(p.data() == s.data() && p.c_str() == s.c_str(), "the parameter refers to the caller's string");
	CHECK(p.size() == len, "its length is that of the null terminated string");
	CHECK(p.c_str()[p.size()] == 0, "the characters are followed by a null");
	std::basic_string<C> back = p.c_str();
	CHECK(back.size() == p.size(), "c_str is a string of exactly that length");
}
template<typename C> void longs() { // longer than small counters count, with some arbitrary characters
	static const size_t sizes[] = {15, 16, 255, 256, 300, 1000, 4096, 70000};
	size_t n = sizes[sx::choice(SX_THOROUGH ? 8 : 6, "n")];
	static C buf[70001];
	for(size_t i = 0; i < n; ++i) buf[i] = (C)('a' + i % 26);
	buf[n] = 0;
	buf[n / 2] = symChar<C>(); buf[n - 1] = symChar<C>();
	sx::assume(buf[n / 2] != 0); sx::assume(buf[n - 1] != 0);
	nytl::BasicStringParam<C> p(buf);
	CHECK(p.data() == buf && p.c_str() == buf, "the parameter refers to the caller's string");
	CHECK(p.size() == n, "its length is that of the string");
	CHECK(p.c_str()[p.size()] == 0, "the characters are followed by a null");
	std::basic_string<C> s(buf, n);
	nytl::BasicStringParam<C> q(s);
	CHECK(q.data() == s.data() && q.size() == n && q.c_str()[n] == 0, "its length is that of the string");
	CHECK(q[n - 1] == buf[n - 1] && q[n / 2] == buf[n / 2], "it has the characters of the string");
}
template<typename C> void longNulls() { // long strings with a null somewhere
	static const size_t sizes[] = {15, 16, 31, 255, 256, 257, 300, 1000, 4096, 70000};
	size_t n = sizes[sx::choice(SX_THOROUGH ? 10 : 8, "n")];
	size_t at = sx::choice(4, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n / 3 + 3;
	std::basic_string<C> s(n, (C)'x');
	s[at] = symChar<C>();
	bool null = s[at] == 0;
	nytl::BasicStringParam<C> p(s);
	CHECK(p.data() == s.data() && p.c_str() == s.c_str(), "the parameter refers to the caller's string");
	CHECK(p.size() == (null ? at : n), "its length is that of the null terminated string");
	CHECK(p.c_str()[p.size()] == 0, "the characters are followed by a null");
}
size_t take(nytl::StringParam p) { return p.c_str() ? p.size() : 99; }
} // namespace
ENTRY(cstr8) { cstr<char>(); }
ENTRY(cstr16) { cstr<char16_t>(); }
ENTRY(cstr32) { cstr<char32_t>(); }
ENTRY(str8) { str<char>(); }
ENTRY(str16) { str<char16_t>(); }
ENTRY(str32) { str<char32_t>(); }
ENTRY(nulls8) { nulls<char>(); }
ENTRY(nulls16) { nulls<char16_t>(); }
ENTRY(nulls32) { nulls<char32_t>(); }
ENTRY(long8) { longs<char>(); }
ENTRY(long16) { longs<char16_t>(); }
ENTRY(long32) { longs<char32_t>(); }
ENTRY(longNulls8) { longNulls<char>(); }
ENTRY(longNulls16) { longNulls<char16_t>(); }
ENTRY(longNulls32) { longNulls<char32_t>(); }
ENTRY(convert) {
	CHECK(take("ab") == 2 && take(std::string("abc")) == 3, "both kinds of strings convert implicitly");
	nytl::StringParam d;
	CHECK(d.empty() && d.size() == 0, "a default parameter is empty");
}
