// The character output of libstdc++'s std::ostream (compiled code in libstdc++.so), linked into the encoding
// only: text goes to a buffer, padded to width() as in the default format. The native replay uses a real
// std::ostringstream.
#include <ostream>
#include <cstring>

namespace {
constexpr long bufferSize = 1024;
char buffer[bufferSize];
long used;
long table[4] = {8, 0, 0, 0}; // offset of the virtual base, as in the vtable of std::ostream
struct alignas(16) Fake { long* vptr; char rest[sizeof(std::ostream)]; } fake;

void put(char c) { if(used < bufferSize) buffer[used++] = c; }
std::ostream& insert(std::ostream& os, const char* s, long n)
{
	for(long i = n; i < os.width(); ++i) put(' ');
	os.width(0);
	for(long i = 0; i < n; ++i) put(s[i]);
	return os;
}
} // namespace

std::ostream& modelStream()
{
	used = 0;
	fake.vptr = &table[3];
	auto& os = reinterpret_cast<std::ostream&>(fake);
	os.precision(6);
	os.width(0);
	os.flags(std::ios_base::skipws | std::ios_base::dec);
	return os;
}
const char* modelText() { return buffer; }
long modelSize() { return used; }

#define AS(x) asm(x)
std::ostream& modelInsertCStr(std::ostream& os, const char* s) AS("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream& modelInsertCStr(std::ostream& os, const char* s) { return insert(os, s, std::strlen(s)); }
std::ostream& modelInsertChar(std::ostream& os, char c) AS("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream& modelInsertChar(std::ostream& os, char c) { return insert(os, &c, 1); }
std::ostream& modelInsertStr(std::ostream& os, const char* s, long n) AS("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream& modelInsertStr(std::ostream& os, const char* s, long n) { return insert(os, s, n); }
std::ostream& modelPut(std::ostream& os, char c) AS("_ZNSo3putEc");
std::ostream& modelPut(std::ostream& os, char c) { put(c); return os; }
std::ostream& modelWrite(std::ostream& os, const char* s, long n) AS("_ZNSo5writeEPKcl");
std::ostream& modelWrite(std::ostream& os, const char* s, long n) { for(long i = 0; i < n; ++i) put(s[i]); return os; }
std::ostream& modelFlush(std::ostream& os) AS("_ZNSo5flushEv");
std::ostream& modelFlush(std::ostream& os) { return os; }
std::ostream& modelEndl(std::ostream& os) AS("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
std::ostream& modelEndl(std::ostream& os) { put('\n'); return os; }
// numbers: one character in the text, the value in a list
static double numbers[64];
static long numberCount;
double modelNumber(long i) { return numbers[i]; }
long modelNumbers() { return numberCount; }
void modelReset() { numberCount = 0; }
static std::ostream& number(std::ostream& os, double d) { if(numberCount < 64) numbers[numberCount++] = d; char c = '#'; return insert(os, &c, 1); }
std::ostream& modelD(std::ostream& os, double d) AS("_ZNSolsEd");
std::ostream& modelD(std::ostream& os, double d) { return number(os, d); }
std::ostream& modelF(std::ostream& os, float d) AS("_ZNSolsEf");
std::ostream& modelF(std::ostream& os, float d) { return number(os, d); }
std::ostream& modelMD(std::ostream& os, double d) AS("_ZNSo9_M_insertIdEERSoT_");
std::ostream& modelMD(std::ostream& os, double d) { return number(os, d); }
std::ostream& modelI(std::ostream& os, int d) AS("_ZNSolsEi");
std::ostream& modelI(std::ostream& os, int d) { return number(os, d); }
