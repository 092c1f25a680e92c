// Harness interface. Under symx these functions are the symbolic primitives; in the native replay
// build (replay.cpp) they feed recorded values to the same harness.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
uint64_t __sx_int(unsigned bits, const char* name);           // arbitrary integer of that width
double __sx_f64(const char* name);                            // arbitrary floating value
float __sx_f32(const char* name);
unsigned __sx_choice(unsigned n, const char* name);           // 0..n-1, explored exhaustively
uint64_t __sx_concretize(uint64_t v);                         // case split over all feasible values
void __sx_assume(int c);
void __sx_assume_eq_f64(double a, double b);
void __sx_assert(int c, const char* id);
void __sx_assert_eq_f64(double a, double b, const char* id);  // exact (real mode) / identical (fp mode)
void __sx_assert_eq_f32(float a, float b, const char* id);
int __sx_live_heap();
void __sx_fail_alloc(int k);                                  // the k-th allocation from now throws bad_alloc, < 0: none
void __sx_note(const char* s);
void __sx_dump_f64(double v, const char* name);
void __sx_abs_fork(int on);
}

#ifndef SX_THOROUGH
#define SX_THOROUGH 0
#endif

namespace sx {
inline uint8_t u8(const char* n) { return (uint8_t)__sx_int(8, n); }
inline int16_t i16(const char* n) { return (int16_t)__sx_int(16, n); }
inline uint16_t u16(const char* n) { return (uint16_t)__sx_int(16, n); }
inline uint32_t u32(const char* n) { return (uint32_t)__sx_int(32, n); }
inline uint64_t u64(const char* n) { return __sx_int(64, n); }
inline int8_t i8(const char* n) { return (int8_t)__sx_int(8, n); }
inline int i32(const char* n) { return (int)(uint32_t)__sx_int(32, n); }
inline int64_t i64(const char* n) { return (int64_t)__sx_int(64, n); }
inline bool flag(const char* n) { return __sx_int(8, n) & 1; }
inline double f64(const char* n) { return __sx_f64(n); }
inline float f32(const char* n) { return __sx_f32(n); }
inline unsigned choice(unsigned n, const char* name) { return __sx_choice(n, name); }
inline void assume(bool b) { __sx_assume(b); }
inline void eq(double a, double b, const char* id) { __sx_assert_eq_f64(a, b, id); }
inline void eqf(float a, float b, const char* id) { __sx_assert_eq_f32(a, b, id); }
template<class T> T val(const char* n);
template<> inline double val<double>(const char* n) { return f64(n); }
template<> inline float val<float>(const char* n) { return f32(n); }
template<> inline int val<int>(const char* n) { return i32(n); }
template<> inline unsigned val<unsigned>(const char* n) { return u32(n); }
template<> inline uint8_t val<uint8_t>(const char* n) { return u8(n); }
template<> inline int8_t val<int8_t>(const char* n) { return i8(n); }
template<> inline uint16_t val<uint16_t>(const char* n) { return u16(n); }
template<> inline int16_t val<int16_t>(const char* n) { return (int16_t)u16(n); }
template<> inline uint64_t val<uint64_t>(const char* n) { return u64(n); }
template<> inline int64_t val<int64_t>(const char* n) { return i64(n); }
inline void same(double a, double b, const char* id) { __sx_assert_eq_f64(a, b, id); }
inline void same(float a, float b, const char* id) { __sx_assert_eq_f32(a, b, id); }
inline void same(int a, int b, const char* id) { __sx_assert(a == b, id); }
inline void same(unsigned a, unsigned b, const char* id) { __sx_assert(a == b, id); }
inline void same(uint64_t a, uint64_t b, const char* id) { __sx_assert(a == b, id); }
inline void same(int64_t a, int64_t b, const char* id) { __sx_assert(a == b, id); }
} // namespace sx

#define ENTRY(name) extern "C" void check_##name()
#define CHECK(cond, id) __sx_assert((cond) ? 1 : 0, id)
