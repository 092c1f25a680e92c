// native runtime of the harness interface: replays recorded inputs against the real code
#include "sx.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <new>
#include <sstream>
#include <string>
#include <vector>

static std::vector<std::pair<char, uint64_t>> inputs;
static size_t pos;
static bool failed, traceOn;
static long live;
static int failAlloc = -1;

static uint64_t next(char kind, unsigned) {
	if(pos >= inputs.size()) { printf("SX-OUT-OF-INPUTS\n"); fflush(stdout); _Exit(12); }
	auto& i = inputs[pos++];
	if(i.first != kind) { printf("SX-INPUT-MISMATCH\n"); fflush(stdout); _Exit(12); }
	return i.second;
}
extern "C" {
uint64_t __sx_int(unsigned bits, const char*) { uint64_t v = next('i', bits); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
#ifdef SX_REAL
double __sx_f64(const char*) { uint64_t u = next('f', 64); double d; memcpy(&d, &u, 8); return d; }
float __sx_f32(const char*) { uint64_t u = next('f', 64); double d; memcpy(&d, &u, 8); return (float)d; }
#else
double __sx_f64(const char*) { uint64_t u = next('f', 64); double d; memcpy(&d, &u, 8); return d; }
float __sx_f32(const char*) { uint32_t u = (uint32_t)next('f', 32); float d; memcpy(&d, &u, 4); return d; }
#endif
unsigned __sx_choice(unsigned, const char*) { return (unsigned)next('c', 32); }
uint64_t __sx_concretize(uint64_t v) { return v; }
void __sx_assume(int c) { if(!c) { printf("SX-ASSUMPTION-FAILED\n"); fflush(stdout); _Exit(11); } }
static bool close(double a, double b, double tol) {
	if(std::isnan(a) || std::isnan(b)) return false;
	if(a == b) return true;
	return std::fabs(a - b) <= tol * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
}
static double tolerance() { const char* e = getenv("SX_TOL"); return e ? atof(e) : 1e-6; }
static void note(bool ok, const char* id) {
	if(traceOn) printf("SX-REACHED %s\n", id);
	if(!ok) { failed = true; printf("SX-ASSERT-FAILED %s\n", id); fflush(stdout); }
}
void __sx_assert(int c, const char* id) { note(c, id); }
#ifdef SX_REAL
void __sx_assume_eq_f64(double a, double b) { if(!close(a, b, 1e-6)) __sx_assume(0); }
void __sx_assert_eq_f64(double a, double b, const char* id) { bool ok = close(a, b, tolerance()); if(!ok) printf("  %s: %.12g vs %.12g\n", id, a, b); note(ok, id); }
void __sx_assert_eq_f32(float a, float b, const char* id) { bool ok = close(a, b, getenv("SX_TOL") ? 1e-5 : 1e-3); if(!ok) printf("  %s: %.9g vs %.9g\n", id, a, b); note(ok, id); }
#else
void __sx_assume_eq_f64(double a, double b) { if(!(a == b)) __sx_assume(0); }
void __sx_assert_eq_f64(double a, double b, const char* id) { bool ok = a == b || (std::isnan(a) && std::isnan(b)); if(!ok) printf("  %s: %.17g vs %.17g\n", id, a, b); note(ok, id); }
void __sx_assert_eq_f32(float a, float b, const char* id) { bool ok = a == b || (std::isnan(a) && std::isnan(b)); if(!ok) printf("  %s: %.9g vs %.9g\n", id, a, b); note(ok, id); }
#endif
int __sx_live_heap() { return (int)live; }
void __sx_fail_alloc(int k) { failAlloc = k; }
void __sx_note(const char*) {}
void __sx_dump_f64(double v, const char* n) { if(traceOn) printf("%s = %.17g\n", n, v); }
void __sx_abs_fork(int) {}
}
void* operator new(size_t n) { if(failAlloc >= 0 && failAlloc-- == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++live; return p; }
void operator delete(void* p) noexcept { if(p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if(p) --live; free(p); }

int main(int argc, char** argv) {
	if(argc < 3) return 2;
	traceOn = argc > 3;
	std::ifstream f(argv[2]);
	std::string line;
	while(std::getline(f, line)) {
		if(line.empty() || line[0] == '#') continue;
		std::istringstream s(line);
		std::string kind, name; uint64_t v;
		s >> kind >> name >> v;
		inputs.push_back({kind[0], v});
	}
	auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if(!fn) { printf("no entry %s\n", argv[1]); return 2; }
	fn();
	fflush(stdout);
	return failed ? 10 : 0;
}
