// C13 byte buffers round-trip, C14 every access is checked against the buffer first.
#include "sx.hpp"
struct Checked { int dummy; };
static int assertHits, assertRuns;
#define NYTL_BYTES_ASSERT(x) do { ++assertRuns; if(!(x)) { ++assertHits; throw Checked{}; } } while(0)
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include <array>
#include <vector>

namespace {
using nytl::ReadBuf; using nytl::WriteBuf; using nytl::DynWriteBuf;

struct Rec { uint8_t a; uint32_t b; int16_t c; }; // has padding
struct Inner { std::array<uint16_t, 3> arr; };
bool operator==(const Rec& x, const Rec& y) { return (x.a == y.a) & (x.b == y.b) & (x.c == y.c); }
bool operator==(const Inner& x, const Inner& y) { return (x.arr[0] == y.arr[0]) & (x.arr[1] == y.arr[1]) & (x.arr[2] == y.arr[2]); }
enum class E : uint16_t {};

Rec symRec() { Rec r; r.a = sx::u8("a"); r.b = sx::u32("b"); r.c = (int16_t)sx::u16("c"); return r; }
Inner symInner() { Inner r; for(auto& x : r.arr) x = sx::u16("x"); return r; }

#if SX_PART == 13
struct Step { unsigned kind; uint64_t u; double d; Rec r; Inner in; E e; uint8_t b; std::vector<std::byte> raw; size_t bytes; };

template<typename Dst> Step put(Dst& dst) {
	Step s {};
	s.kind = sx::u8("kind");
	sx::assume(s.kind < 8);
	switch(s.kind) {
	case 0: s.u = sx::u64("u"); nytl::write(dst, s.u); s.bytes = 8; break;
	case 1: s.b = sx::u8("b"); nytl::write(dst, s.b); s.bytes = 1; break;
	case 2: s.r = symRec(); nytl::write(dst, s.r); s.bytes = sizeof(Rec); break;
	case 3: s.in = symInner(); nytl::write(dst, s.in); s.bytes = 6; break;
	case 4: s.e = (E)sx::u16("e"); nytl::write(dst, s.e); s.bytes = 2; break;
	case 5: { // raw bytes
		size_t n = sx::u8("n");
		sx::assume(n <= 3);
		n = __sx_concretize(n);
		for(size_t i = 0; i < n; ++i) s.raw.push_back((std::byte)sx::u8("raw"));
		nytl::write(dst, ReadBuf(s.raw)); s.bytes = n; break;
	}
	case 6: { // a container is written as its elements
		std::vector<uint16_t> v {sx::u16("v0"), sx::u16("v1")};
		s.u = v[0] | uint64_t(v[1]) << 16;
		nytl::write(dst, v); s.bytes = 4; break;
	}
	case 7: { // lists, and vectors (which are plain objects)
		uint16_t x = sx::u16("l0"), y = sx::u16("l1");
		std::initializer_list<uint16_t> l {x, y};
		nytl::write(dst, l);
		nytl::write(dst, nytl::Vec<2, uint16_t>{y, x});
		s.u = x | uint64_t(y) << 16 | uint64_t(y) << 32 | uint64_t(x) << 48; s.bytes = 8; break;
	}
	}
	return s;
}
void get(ReadBuf& src, const Step& s, bool how) {
	auto before = src.size();
	switch(s.kind) {
	case 0: { uint64_t v; if(how) nytl::read(src, v); else v = nytl::read<uint64_t>(src); CHECK(v == s.u, "what was written is read back"); break; }
	case 1: { uint8_t v; if(how) nytl::read(src, v); else v = nytl::read<uint8_t>(src); CHECK(v == s.b, "what was written is read back"); break; }
	case 2: { Rec v; if(how) nytl::read(src, v); else v = nytl::read<Rec>(src); CHECK(v == s.r, "what was written is read back"); break; }
	case 3: { Inner v; if(how) nytl::read(src, v); else v = nytl::read<Inner>(src); CHECK(v == s.in, "what was written is read back"); break; }
	case 4: { E v; if(how) nytl::read(src, v); else v = nytl::read<E>(src); CHECK(v == s.e, "what was written is read back"); break; }
	case 5: {
		std::vector<std::byte> v(s.raw.size());
		nytl::read(src, WriteBuf(v));
		for(size_t i = 0; i < v.size(); ++i) CHECK(v[i] == s.raw[i], "what was written is read back");
		break;
	}
	case 6: { std::vector<uint16_t> v(2); nytl::read(src, v); CHECK((v[0] | uint64_t(v[1]) << 16) == s.u, "what was written is read back"); break; }
	case 7: {
		nytl::Vec<2, uint16_t> v, w;
		nytl::read(src, v); w = nytl::read<nytl::Vec<2, uint16_t>>(src);
		CHECK((v[0] | uint64_t(v[1]) << 16 | uint64_t(w[0]) << 32 | uint64_t(w[1]) << 48) == s.u, "what was written is read back");
		break;
	}
	}
	CHECK(before - src.size() == s.bytes, "reading consumes exactly the bytes of the object");
}
template<bool Dyn> void roundTrip() {
	constexpr int steps = SX_THOROUGH ? 4 : 2;
	constexpr size_t cap = SX_THOROUGH ? 60 : 40;
	std::vector<std::byte> mem(cap, std::byte{0x5a});
	DynWriteBuf dyn(1, std::byte{0x11});
	WriteBuf w(mem);
	std::vector<Step> log;
	size_t total = 0;
	for(int i = 0; i < steps; ++i) {
		if constexpr(Dyn) {
			log.push_back(put(dyn));
			total += log.back().bytes;
			CHECK(dyn.size() == 1 + total, "writing to a dynamic buffer appends exactly the bytes of the object");
			CHECK(dyn[0] == std::byte{0x11}, "earlier content stays");
		} else {
			log.push_back(put(w));
			total += log.back().bytes;
			CHECK(w.data() == mem.data() + total && w.size() == cap - total, "writing advances the buffer by exactly the bytes of the object");
			for(size_t k = total; k < cap; ++k) CHECK(mem[k] == std::byte{0x5a}, "nothing behind the object is written");
		}
	}
	ReadBuf r = Dyn ? ReadBuf(dyn) : ReadBuf(mem);
	if(Dyn) nytl::skip(r, 1);
	bool how = sx::flag("how");
	unsigned leave = sx::u8("skip");
	sx::assume(leave <= (unsigned)steps);
	leave = (unsigned)__sx_concretize(leave);
	for(int i = 0; i < steps; ++i) {
		if((unsigned)i == leave) { auto b = r; nytl::skip(r, log[i].bytes); CHECK(r.data() == b.data() + log[i].bytes && r.size() == b.size() - log[i].bytes, "skipping consumes exactly that many bytes"); }
		else get(r, log[i], how);
	}
	CHECK(r.size() == (Dyn ? 0 : cap - total), "everything written is consumed");
}
#endif
} // namespace

#if SX_PART == 13
// types whose value is more than their bytes
struct Owner { int v {}; Owner() = default; Owner(const Owner& o) : v(o.v + 1) {} };
class Mixed { int a {}; public: int b {}; int get() const { return a; } };
template<typename T, typename = void> struct HasBytes { static constexpr bool value = false; };
template<typename T> struct HasBytes<T, std::void_t<decltype(nytl::bytes(std::declval<T&>()))>> { static constexpr bool value = true; };
template<typename T, typename = void> struct CanRead { static constexpr bool value = false; };
template<typename T> struct CanRead<T, std::void_t<decltype(nytl::read(std::declval<ReadBuf&>(), std::declval<T&>()))>> { static constexpr bool value = true; };
ENTRY(convertible) {
	CHECK(HasBytes<Rec>::value && HasBytes<const Rec>::value && HasBytes<Inner>::value && HasBytes<double>::value && HasBytes<E>::value, "plain objects have bytes");
	CHECK(!HasBytes<Owner>::value && !HasBytes<const Owner>::value && !CanRead<Owner>::value, "objects that are not trivially copyable have no bytes");
	CHECK(!HasBytes<Mixed>::value && !HasBytes<const Mixed>::value && !CanRead<Mixed>::value, "objects without standard layout have no bytes");
}
ENTRY(roundtrip_dynamic) { roundTrip<true>(); }
ENTRY(roundtrip_fixed) { roundTrip<false>(); }
ENTRY(views) {
	uint32_t v = sx::u32("v");
	const uint32_t cv = v;
	auto b = nytl::bytes(v);
	auto cb = nytl::bytes(cv);
	CHECK((void*)b.data() == (void*)&v && b.size() == 4 && (const void*)cb.data() == (const void*)&cv && cb.size() == 4, "bytes of an object is its storage");
	uint32_t sum = 0;
	for(size_t i = 0; i < 4; ++i) sum |= (uint32_t)b[i] << (8 * i);
	CHECK(sum == v, "bytes are in memory order");
	b[2] = (std::byte)sx::u8("w");
	CHECK(((v >> 16) & 0xff) == (uint32_t)b[2] && (v & 0xff00ffff) == (cv & 0xff00ffff), "writable bytes write through");
	std::vector<uint16_t> vec(sx::flag("n") ? 3 : 0, 7);
	const auto& cvec = vec;
	CHECK(nytl::bytes(vec).size() == 2 * vec.size() && (void*)nytl::bytes(vec).data() == (void*)vec.data(), "bytes of a vector are its elements");
	CHECK(nytl::bytes(cvec).size() == 2 * vec.size() && (const void*)nytl::bytes(cvec).data() == (const void*)vec.data(), "bytes of a vector are its elements");
	int arr[3] = {1, 2, 3};
	nytl::span<int, 3> fs(arr);
	nytl::span<int> ds(arr);
	nytl::span<const int> cs(arr);
	CHECK((void*)nytl::bytes(fs).data() == (void*)arr && nytl::bytes(fs).size() == sizeof(arr), "bytes of a span are its elements");
	CHECK((void*)nytl::bytes(ds).data() == (void*)arr && nytl::bytes(ds).size() == sizeof(arr), "bytes of a span are its elements");
	CHECK((const void*)nytl::bytes(cs).data() == (const void*)arr && nytl::bytes(cs).size() == sizeof(arr), "bytes of a span are its elements");
}
// the views are not limited to 32 bits
template<typename E> void wide() {
	static E e[1];
	size_t n = size_t(1) << (sx::choice(4, "n") + 29);
	n += sx::u32("more") & 0xffff;
	nytl::span<E> s(e, n);
	nytl::span<const E> c(e, n);
	CHECK((void*)nytl::bytes(s).data() == (void*)e && (size_t) nytl::bytes(s).size() == n * sizeof(E), "bytes of a span are its elements");
	CHECK((const void*)nytl::bytes(c).data() == (const void*)e && (size_t) nytl::bytes(c).size() == n * sizeof(E), "bytes of a span are its elements");
	WriteBuf w((std::byte*) e, n);
	ReadBuf r((const std::byte*) e, n);
	size_t k = n - 3 - (sx::u32("k") & 0xff);
	nytl::skip(w, k);
	nytl::skip(r, k);
	CHECK((size_t) w.size() == n - k && w.data() == (std::byte*) e + k && (size_t) r.size() == n - k && r.data() == (const std::byte*) e + k, "skip advances by the given number of bytes");
}
ENTRY(wide_bytes) { wide<uint8_t>(); }
ENTRY(wide_doubles) { wide<double>(); }
// objects and ranges of many bytes, written behind each other
template<size_t N> struct Blob { uint8_t d[N]; };
ENTRY(large) {
	DynWriteBuf dyn;
	if(sx::flag("reserve")) dyn.reserve(64);
	std::vector<std::byte> mem(1600, std::byte{7});
	WriteBuf fix(mem);
	Blob<300> a {};
	Blob<17> b {};
	constexpr size_t where[] = {0, 63, 128, 255, 256, 299};
	a.d[where[sx::choice(6, "at")]] = sx::u8("a");
	b.d[16] = sx::u8("b");
	std::vector<uint32_t> v(100, 3);
	v[sx::choice(2, "vat") ? 99 : 64] = sx::u32("v");
	std::array<double, 33> d {};
	d[32] = sx::f64("d");
	sx::assume(d[32] == d[32]);
	bool f = sx::flag("f");
	size_t total = 0;
	auto put = [&](const auto& x, size_t n) {
		nytl::write(dyn, x); nytl::write(fix, x);
		total += n;
		CHECK(dyn.size() == total && fix.size() == mem.size() - total && fix.data() == mem.data() + total, "a write takes exactly the bytes of the object");
	};
	put(a, 300); put(b, 17); put(v, 400); put(d, 264); put(f, 1); put(a, 300);
	for(size_t i = 0; i < total; ++i) CHECK(dyn[i] == mem[i], "both kinds of buffers get the same bytes");
	for(size_t i = total; i < mem.size(); ++i) CHECK(mem[i] == std::byte{7}, "nothing behind the objects is written");
	ReadBuf r(dyn);
	auto same = [](const auto& x, const auto& y) { for(size_t i = 0; i < sizeof(x.d); ++i) CHECK(x.d[i] == y.d[i], "what was written is read back"); };
	same(nytl::read<Blob<300>>(r), a);
	Blob<17> b2; nytl::read(r, b2); same(b2, b);
	std::vector<uint32_t> v2(100); nytl::read(r, v2);
	for(size_t i = 0; i < 100; ++i) CHECK(v2[i] == v[i], "what was written is read back");
	std::array<double, 33> d2 = nytl::read<std::array<double, 33>>(r);
	for(size_t i = 0; i < 33; ++i) CHECK(d2[i] == d[i], "what was written is read back");
	CHECK(nytl::read<bool>(r) == f && r.size() == 300, "what was written is read back");
	same(nytl::copyExact<Blob<300>>(r), a);
	same(nytl::copy<Blob<17>>(r), Blob<17>{{a.d[0]}});
	nytl::skip(r, 299);
	CHECK(r.size() == 1 && r.data() == dyn.data() + total - 1, "skipping consumes exactly that many bytes");
}
ENTRY(grow) { // dynamic buffers with reserved memory and writes of many bytes
	static const size_t reserve[] = {0, 5000, 20000}, sizes[] = {1, 37, 300, 1025, 3000, 4096, 4097, 9001};
	DynWriteBuf dyn;
	dyn.reserve(reserve[sx::choice(3, "reserve")]);
	std::vector<std::byte> raw(sizes[sx::choice(8, "n")], std::byte{9});
	std::vector<uint8_t> more(sizes[sx::choice(SX_THOROUGH ? 8 : 3, "m")], 4);
	size_t n = raw.size(), m = more.size();
	raw[n / 2] = std::byte(sx::u8("r")); more[m - 1] = sx::u8("m");
	nytl::write(dyn, ReadBuf(raw));
	CHECK(dyn.size() == n, "writing to a dynamic buffer appends exactly the bytes of the object");
	uint32_t u = sx::u32("u");
	nytl::write(dyn, u);
	CHECK(dyn.size() == n + 4, "writing to a dynamic buffer appends exactly the bytes of the object");
	nytl::write(dyn, more);
	CHECK(dyn.size() == n + 4 + m, "writing to a dynamic buffer appends exactly the bytes of the object");
	ReadBuf r(dyn);
	std::vector<std::byte> back(n);
	nytl::read(r, WriteBuf(back));
	CHECK(back[0] == raw[0] && back[n / 2] == raw[n / 2] && back[n - 1] == raw[n - 1], "what was written is read back");
	CHECK(nytl::read<uint32_t>(r) == u, "what was written is read back");
	CHECK(r.size() == m && r.data() == dyn.data() + n + 4 && (uint8_t)r[m - 1] == more[m - 1] && (uint8_t)r[0] == more[0], "what was written is read back");
}
ENTRY(copies) {
	Rec r = symRec(), q = r;
	CHECK(nytl::copy<Rec>(nytl::bytes(q)) == r, "copying from the bytes of an object gives the object");
	CHECK(nytl::copyExact<Rec>(nytl::bytes(q)) == r, "copying from the bytes of an object gives the object");
	Rec t {};
	nytl::copy(nytl::bytes(r), nytl::bytes(t));
	CHECK(t == r, "copying bytes copies the object");
	std::array<std::byte, 9> buf;
	for(auto& b : buf) b = (std::byte)sx::u8("b");
	auto v = nytl::copy<uint64_t>(ReadBuf(buf));
	for(int i = 0; i < 8; ++i) CHECK(((v >> (8 * i)) & 0xff) == (uint64_t)buf[i], "copying from a larger buffer takes its first bytes");
	ReadBuf rb(buf);
	nytl::skip(rb, 1);
	CHECK(nytl::copyExact<uint64_t>(rb) == ((v >> 8) | (uint64_t)buf[8] << 56), "copying after a skip takes the following bytes");
	WriteBuf wb(buf);
	auto n = sx::u8("n");
	sx::assume(n <= 9);
	nytl::skip(wb, n);
	CHECK(wb.data() == buf.data() + n && wb.size() == size_t(9 - n), "skipping consumes exactly that many bytes");
}
#elif SX_PART == 14
// every size combination; the memory behind the buffers is exactly as large as the buffer
struct Setup {
	std::vector<std::byte> src, dst;
	size_t n, m;
	Setup() {
		constexpr size_t max = SX_THOROUGH ? 12 : 9;
		n = sx::u8("n"); m = sx::u8("m");
		sx::assume(n <= max); sx::assume(m <= max);
		n = __sx_concretize(n); m = __sx_concretize(m);
		src.reserve(n); dst.reserve(m);
		for(size_t i = 0; i < n; ++i) src.push_back((std::byte)(i + 1));
		for(size_t i = 0; i < m; ++i) dst.push_back((std::byte)(0x80 + i));
		assertHits = assertRuns = 0;
	}
	template<typename F> void run(bool fits, bool writesDst, F f) {
		auto d = dst, s = src;
		bool hit = false;
		try { f(); } catch(const Checked&) { hit = true; }
		CHECK(hit == !fits, "the check fails exactly when the buffer is too small");
		CHECK(src == s, "the source is not changed");
		if(hit || !writesDst) CHECK(dst == d, "nothing is written when the check fails");
	}
};
ENTRY(check_write) {
	Setup s;
	WriteBuf w(s.dst);
	s.run(s.n <= s.m, true, [&] { nytl::write(w, ReadBuf(s.src)); });
	if(s.n > s.m) CHECK(w.data() == s.dst.data() && w.size() == s.m, "a failed write does not advance the buffer");
	else for(size_t i = 0; i < s.m; ++i) CHECK(s.dst[i] == (i < s.n ? s.src[i] : (std::byte)(0x80 + i)), "a write changes exactly the bytes of the object");
}
ENTRY(check_write_object) {
	Setup s;
	WriteBuf w(s.dst);
	uint32_t v = sx::u32("v");
	s.run(4 <= s.m, true, [&] { nytl::write(w, v); });
	if(s.m < 4) CHECK(w.size() == s.m, "a failed write does not advance the buffer");
}
ENTRY(check_read) {
	Setup s;
	ReadBuf r(s.src);
	s.run(s.m <= s.n, true, [&] { nytl::read(r, WriteBuf(s.dst)); });
	if(s.m > s.n) CHECK(r.data() == s.src.data() && r.size() == s.n, "a failed read does not advance the buffer");
	else for(size_t i = 0; i < s.m; ++i) CHECK(s.dst[i] == s.src[i], "a read delivers the bytes of the source");
}
ENTRY(check_read_object) {
	Setup s;
	ReadBuf r(s.src);
	uint64_t got = 0;
	s.run(8 <= s.n, false, [&] { got = nytl::read<uint64_t>(r); });
	if(s.n < 8) CHECK(r.size() == s.n, "a failed read does not advance the buffer");
	else CHECK(got == 0x0807060504030201ull, "a read delivers the bytes of the source");
	ReadBuf r2(s.src);
	uint16_t x = 0;
	s.run(2 <= s.n, false, [&] { nytl::read(r2, x); });
	CHECK(x == (s.n < 2 ? 0 : 0x0201), "a read delivers the bytes of the source");
}
ENTRY(check_copy) {
	Setup s;
	s.run(s.m == s.n, true, [&] { nytl::copy(ReadBuf(s.src), WriteBuf(s.dst)); });
	s.run(s.n >= 4, false, [&] { CHECK(nytl::copy<uint32_t>(ReadBuf(s.src)) == 0x04030201u, "a copy delivers the bytes of the source"); });
	s.run(s.n == 4, false, [&] { CHECK(nytl::copyExact<uint32_t>(ReadBuf(s.src)) == 0x04030201u, "a copy delivers the bytes of the source"); });
}
// objects of all sizes against buffers around their size
template<size_t N> struct Blob { uint8_t d[N]; };
template<typename T> void object() {
	constexpr size_t Z = sizeof(T);
	constexpr size_t sizes[] = {0, 1, Z / 2, Z - 1, Z, Z + 1, Z + 7, 2 * Z};
	size_t n = sizes[sx::choice(8, "n")];
	bool fits = n >= Z;
	std::vector<std::byte> mem;
	mem.reserve(n);
	for(size_t i = 0; i < n; ++i) mem.push_back(std::byte(i * 3 + 1));
	size_t at = sx::choice(2, "at") ? Z - 1 : 0;
	uint8_t v = sx::u8("v");
	if(at < n) mem[at] = std::byte(v);
	T obj {};
	auto raw = reinterpret_cast<uint8_t*>(&obj);
	auto good = [&](const T& t) {
		auto p = reinterpret_cast<const uint8_t*>(&t);
		for(size_t i = 0; i < Z; ++i) CHECK(p[i] == (i == at ? v : uint8_t(i * 3 + 1)), "the object is what the buffer starts with");
	};
	auto run = [&](bool ok, auto f) {
		bool hit = false;
		try { f(); } catch(const Checked&) { hit = true; }
		CHECK(hit == !ok, "the check fails exactly when the size does not fit");
	};
	run(fits, [&] { good(nytl::copy<T>(ReadBuf(mem))); });
	run(n == Z, [&] { good(nytl::copyExact<T>(ReadBuf(mem))); });
	ReadBuf r(mem);
	run(fits, [&] { good(nytl::read<T>(r)); });
	CHECK(r.data() == mem.data() + (fits ? Z : 0) && r.size() == n - (fits ? Z : 0), "the buffer is advanced exactly by what was read");
	r = ReadBuf(mem);
	run(fits, [&] { nytl::read(r, obj); });
	CHECK(r.data() == mem.data() + (fits ? Z : 0) && r.size() == n - (fits ? Z : 0), "the buffer is advanced exactly by what was read");
	if(fits) good(obj); else for(size_t i = 0; i < Z; ++i) CHECK(raw[i] == 0, "a failed read does not change the object");
	run(n == Z, [&] { nytl::copy(ReadBuf(mem), nytl::bytes(obj)); });
	run(n == Z, [&] { nytl::copy(nytl::bytes(std::as_const(obj)), WriteBuf(mem)); });
	auto before = mem;
	for(size_t i = 0; i < Z; ++i) raw[i] = uint8_t(200 + i);
	raw[at] = (uint8_t)~v;
	WriteBuf w(mem);
	run(fits, [&] { nytl::write(w, obj); });
	CHECK(w.data() == mem.data() + (fits ? Z : 0) && w.size() == n - (fits ? Z : 0), "the buffer is advanced exactly by what was written");
	for(size_t i = 0; i < n; ++i) CHECK(mem[i] == (fits && i < Z ? std::byte(raw[i]) : before[i]), "exactly the bytes of the object are written");
}
ENTRY(object_1) { object<uint8_t>(); }
ENTRY(object_2) { object<uint16_t>(); }
ENTRY(object_4) { object<uint32_t>(); }
ENTRY(object_6) { object<Inner>(); }
ENTRY(object_8) { object<uint64_t>(); }
ENTRY(object_13) { object<Blob<13>>(); }
ENTRY(object_16) { object<Blob<16>>(); }
ENTRY(object_24) { object<Blob<24>>(); }
ENTRY(object_300) { object<Blob<300>>(); }
ENTRY(check_large) { // many bytes at once
	constexpr size_t sizes[] = {0, 1, 63, 127, 255, 256, 257, 300};
	size_t n = sizes[sx::choice(8, "n")], m = sizes[sx::choice(8, "m")];
	std::vector<std::byte> src, dst;
	src.reserve(n); dst.reserve(m);
	for(size_t i = 0; i < n; ++i) src.push_back(std::byte(i * 5 + 1));
	for(size_t i = 0; i < m; ++i) dst.push_back(std::byte(i * 11 + 2));
	unsigned op = sx::choice(3, "op");
	if(n) src[n - 1] = std::byte(sx::u8("v"));
	auto d = dst, s = src;
	bool hit = false, ok = op == 0 ? n <= m : op == 1 ? m <= n : n == m;
	WriteBuf w(dst);
	ReadBuf r(src);
	try {
		if(op == 0) nytl::write(w, ReadBuf(src));
		else if(op == 1) nytl::read(r, WriteBuf(dst));
		else nytl::copy(ReadBuf(src), WriteBuf(dst));
	} catch(const Checked&) { hit = true; }
	CHECK(hit == !ok, "the check fails exactly when the size does not fit");
	CHECK(src == s, "the source is not changed");
	size_t len = !ok ? 0 : n < m ? n : m;
	for(size_t i = 0; i < m; ++i) CHECK(dst[i] == (i < len ? src[i] : d[i]), "exactly what fits is transferred");
	CHECK(op != 0 || (w.data() == dst.data() + len && w.size() == m - len), "the buffer is advanced exactly by what was written");
	CHECK(op != 1 || (r.data() == src.data() + len && r.size() == n - len), "the buffer is advanced exactly by what was read");
}
ENTRY(check_skip) { // sizes are arbitrary here, nothing is dereferenced
	size_t n = sx::u64("n"), k = sx::u64("k");
	sx::assume(n < (uint64_t(1) << 62));
	auto base = (std::byte*)(uintptr_t)0x100000;
	ReadBuf r(base, n);
	WriteBuf w(base, n);
	assertHits = assertRuns = 0;
	bool hit = false;
	try { nytl::skip(r, k); } catch(const Checked&) { hit = true; }
	CHECK(hit == (k > n), "skipping more than the buffer holds is rejected");
	CHECK(hit ? (r.data() == base && r.size() == n) : (r.data() == base + k && r.size() == n - k), "skipping consumes exactly that many bytes");
	hit = false; assertRuns = 0;
	try { nytl::skip(w, k); } catch(const Checked&) { hit = true; }
	CHECK(hit == (k > n), "skipping more than the buffer holds is rejected");
	CHECK(hit ? (w.data() == base && w.size() == n) : (w.data() == base + k && w.size() == n - k), "skipping consumes exactly that many bytes");
}
#endif
