// The UTF facets of libstdc++ (compiled code in libstdc++.so), linked into the encoding only: the native
// replay of path witnesses runs the library's own facets and has to agree.
#include <codecvt>
#include <locale>

namespace model {
using std::codecvt_base;
constexpr char32_t incomplete = 0xfffffffe, invalid = 0xffffffff;

inline char32_t readUtf8(const char*& from, const char* end, unsigned long maxcode) {
	size_t n = end - from;
	if(!n) return incomplete;
	auto b = [&](size_t i) { return (unsigned char)from[i]; };
	auto cont = [&](size_t i) { return (b(i) & 0xC0) == 0x80; };
	unsigned char c1 = b(0);
	char32_t c;
	if(c1 < 0x80) { ++from; return c1; }
	if(c1 < 0xC2) return invalid;
	if(c1 < 0xE0) {
		if(n < 2) return incomplete;
		if(!cont(1)) return invalid;
		c = char32_t(c1 & 0x1f) << 6 | (b(1) & 0x3f);
		if(c <= maxcode) from += 2;
		return c;
	}
	if(c1 < 0xF0) {
		if(n < 2) return incomplete;
		if(!cont(1) || (c1 == 0xE0 && b(1) < 0xA0)) return invalid;
		if(n < 3) return incomplete;
		if(!cont(2)) return invalid;
		c = char32_t(c1 & 0xf) << 12 | char32_t(b(1) & 0x3f) << 6 | (b(2) & 0x3f);
		if(c <= maxcode) from += 3;
		return c;
	}
	if(c1 < 0xF5 && maxcode > 0xFFFF) {
		if(n < 2) return incomplete;
		if(!cont(1) || (c1 == 0xF0 && b(1) < 0x90) || (c1 == 0xF4 && b(1) >= 0x90)) return invalid;
		if(n < 3) return incomplete;
		if(!cont(2)) return invalid;
		if(n < 4) return incomplete;
		if(!cont(3)) return invalid;
		c = char32_t(c1 & 7) << 18 | char32_t(b(1) & 0x3f) << 12 | char32_t(b(2) & 0x3f) << 6 | (b(3) & 0x3f);
		if(c <= maxcode) from += 4;
		return c;
	}
	return invalid;
}
inline bool writeUtf8(char*& to, char* end, char32_t c) {
	size_t n = end - to;
	if(c < 0x80) { if(n < 1) return false; *to++ = (char)c; return true; }
	if(c < 0x800) { if(n < 2) return false; *to++ = (char)(0xC0 | c >> 6); *to++ = (char)(0x80 | (c & 0x3f)); return true; }
	if(c < 0x10000) { if(n < 3) return false; *to++ = (char)(0xE0 | c >> 12); *to++ = (char)(0x80 | (c >> 6 & 0x3f)); *to++ = (char)(0x80 | (c & 0x3f)); return true; }
	if(c <= 0x10FFFF) {
		if(n < 4) return false;
		*to++ = (char)(0xF0 | c >> 18); *to++ = (char)(0x80 | (c >> 12 & 0x3f)); *to++ = (char)(0x80 | (c >> 6 & 0x3f)); *to++ = (char)(0x80 | (c & 0x3f));
		return true;
	}
	return false;
}
inline void readBom(const char*& from, const char* end, std::codecvt_mode mode) {
	if((mode & std::consume_header) && end - from >= 3 && from[0] == '\xef' && from[1] == '\xbb' && from[2] == '\xbf') from += 3;
}
inline bool writeBom(char*& to, char* end, std::codecvt_mode mode) {
	if(!(mode & std::generate_header)) return true;
	if(end - to < 3) return false;
	*to++ = '\xef'; *to++ = '\xbb'; *to++ = '\xbf';
	return true;
}
// utf-16 (or ucs-2, without surrogates) in units of type C
template<typename C> codecvt_base::result in16(const char*& from, const char* end, C*& to, C* tend, unsigned long maxcode, std::codecvt_mode mode, bool surrogates) {
	readBom(from, end, mode);
	while(from != end && to != tend) {
		auto orig = from;
		char32_t c = readUtf8(from, end, maxcode);
		if(c == incomplete) return surrogates ? codecvt_base::partial : codecvt_base::error;
		if(c > maxcode) return codecvt_base::error;
		if(c <= 0xFFFF) *to++ = (C)c;
		else if(tend - to > 1) { *to++ = (C)(0xD7C0 + (c >> 10)); *to++ = (C)(0xDC00 + (c & 0x3FF)); }
		else { from = orig; return codecvt_base::partial; }
	}
	return codecvt_base::ok;
}
template<typename C> codecvt_base::result out16(const C*& from, const C* end, char*& to, char* tend, unsigned long maxcode, std::codecvt_mode mode, bool surrogates) {
	if(!writeBom(to, tend, mode)) return codecvt_base::partial;
	while(from != end) {
		char32_t c = (char32_t)from[0];
		int inc = 1;
		if(c >= 0xD800 && c <= 0xDBFF) {
			if(!surrogates) return codecvt_base::error;
			if(end - from < 2) return codecvt_base::ok;
			char32_t d = (char32_t)from[1];
			if(d < 0xDC00 || d > 0xDFFF) return codecvt_base::error;
			c = (c << 10) + d - 0x35FDC00;
			inc = 2;
		} else if(c >= 0xDC00 && c <= 0xDFFF) return codecvt_base::error;
		if(c > maxcode) return codecvt_base::error;
		if(!writeUtf8(to, tend, c)) return codecvt_base::partial;
		from += inc;
	}
	return codecvt_base::ok;
}
template<typename C> codecvt_base::result in32(const char*& from, const char* end, C*& to, C* tend, unsigned long maxcode, std::codecvt_mode mode) {
	readBom(from, end, mode);
	while(from != end && to != tend) {
		char32_t c = readUtf8(from, end, maxcode);
		if(c == incomplete) return codecvt_base::partial;
		if(c > maxcode) return codecvt_base::error;
		*to++ = (C)c;
	}
	return from != end ? codecvt_base::partial : codecvt_base::ok;
}
template<typename C> codecvt_base::result out32(const C*& from, const C* end, char*& to, char* tend, unsigned long maxcode, std::codecvt_mode mode) {
	if(!writeBom(to, tend, mode)) return codecvt_base::partial;
	while(from != end) {
		char32_t c = (char32_t)from[0];
		if(c >= 0xD800 && c <= 0xDFFF) return codecvt_base::error;
		if(c > maxcode) return codecvt_base::error;
		if(!writeUtf8(to, tend, c)) return codecvt_base::partial;
		++from;
	}
	return codecvt_base::ok;
}
} // namespace model

namespace std {
#define FACET(NAME, C, IN, OUT) \
	NAME<C>::~NAME() {} \
	codecvt_base::result NAME<C>::do_out(state_type&, const C* f, const C* fe, const C*& fn, char* t, char* te, char*& tn) const \
		{ fn = f; tn = t; return OUT; } \
	codecvt_base::result NAME<C>::do_unshift(state_type&, char* t, char*, char*& n) const { n = t; return noconv; } \
	codecvt_base::result NAME<C>::do_in(state_type&, const char* f, const char* fe, const char*& fn, C* t, C* te, C*& tn) const \
		{ fn = f; tn = t; return IN; } \
	int NAME<C>::do_encoding() const throw() { return 0; } \
	bool NAME<C>::do_always_noconv() const throw() { return false; } \
	int NAME<C>::do_length(state_type&, const char* f, const char* e, size_t n) const { return (int)std::min<size_t>(e - f, n); } \
	int NAME<C>::do_max_length() const throw() { return (_M_mode & consume_header) ? 7 : 4; }
#define M16(C, S) model::in16<C>(fn, fe, tn, te, S ? _M_maxcode : std::min(_M_maxcode, 0xfffful), _M_mode, S), model::out16<C>(fn, fe, tn, te, S ? _M_maxcode : std::min(_M_maxcode, 0xfffful), _M_mode, S)
#define M32(C) model::in32<C>(fn, fe, tn, te, _M_maxcode, _M_mode), model::out32<C>(fn, fe, tn, te, _M_maxcode, _M_mode)
#define APPLY(M, ...) M(__VA_ARGS__)
APPLY(FACET, __codecvt_utf8_base, char16_t, M16(char16_t, false))
APPLY(FACET, __codecvt_utf8_utf16_base, char16_t, M16(char16_t, true))
APPLY(FACET, __codecvt_utf8_base, char32_t, M32(char32_t))
APPLY(FACET, __codecvt_utf8_utf16_base, char32_t, M16(char32_t, true))
APPLY(FACET, __codecvt_utf8_base, wchar_t, M32(wchar_t))
APPLY(FACET, __codecvt_utf8_utf16_base, wchar_t, M16(wchar_t, true))
locale::facet::~facet() {}
codecvt<char16_t, char, mbstate_t>::~codecvt() {}
codecvt<char32_t, char, mbstate_t>::~codecvt() {}
codecvt<wchar_t, char, mbstate_t>::~codecvt() {}
} // namespace std
