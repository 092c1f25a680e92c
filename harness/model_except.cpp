// The exception classes of <stdexcept> and friends with the names and key functions of libstdc++ (where they are
// compiled into libstdc++.so): linked into the encoding only, for the symbols a harness needs. The message is an
// owned copy, the size of the objects that of libstdc++'s. No standard header that declares them may be included.
using size_t = decltype(sizeof(0));
extern "C" size_t strlen(const char*);
extern "C" void* memcpy(void*, const void*, size_t);
void* operator new(size_t);
void operator delete(void*) noexcept;

namespace std {
inline namespace __cxx11 {
template<typename C, typename T, typename A> struct basic_string { const char* ptr; size_t size; };
}
template<typename C> struct char_traits;
template<typename C> struct allocator;
using string = basic_string<char, char_traits<char>, allocator<char>>;

class exception {
public:
	exception() noexcept {}
	virtual ~exception() noexcept;
	virtual const char* what() const noexcept;
};
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }

#define WITH_MESSAGE(N, M, B) \
	N::N(const char* s) : B(s) {} \
	N::N(const string& s) : B(s) {} \
	N::~N() noexcept {}
#define DECL_MESSAGE(N, B) \
	class N : public B { public: explicit N(const char*); explicit N(const string&); N(const N&) = default; N& operator=(const N&) = default; N(N&&) = default; N& operator=(N&&) = default; virtual ~N() noexcept; }
#define ROOT_MESSAGE(N) \
	class N : public exception { char* msg; static char* dup(const char* p) { if(!p) return nullptr; size_t n = strlen(p); auto* r = (char*)::operator new(n + 1); memcpy(r, p, n + 1); return r; } \
		public: explicit N(const char*); explicit N(const string&); N(const N&) noexcept; N(N&&) noexcept; N& operator=(N&&) noexcept; N& operator=(const N&) noexcept; virtual ~N() noexcept; virtual const char* what() const noexcept; }; \
	N::N(const char* s) : msg(dup(s)) {} \
	N::N(const string& s) : msg(dup(s.ptr)) {} \
	N::N(const N& o) noexcept : exception(o), msg(dup(o.msg)) {} \
	N::N(N&& o) noexcept : exception(o), msg(o.msg) { o.msg = nullptr; } \
	N& N::operator=(N&& o) noexcept { auto* m = msg; msg = o.msg; o.msg = m; return *this; } \
	N& N::operator=(const N& o) noexcept { if(this != &o) { ::operator delete(msg); msg = dup(o.msg); } return *this; } \
	N::~N() noexcept { ::operator delete(msg); } \
	const char* N::what() const noexcept { return msg; }
ROOT_MESSAGE(logic_error)
ROOT_MESSAGE(runtime_error)
#define SUB(N, B) DECL_MESSAGE(N, B); WITH_MESSAGE(N, 0, B)
SUB(domain_error, logic_error)
SUB(invalid_argument, logic_error)
SUB(length_error, logic_error)
SUB(out_of_range, logic_error)
SUB(range_error, runtime_error)
SUB(overflow_error, runtime_error)
SUB(underflow_error, runtime_error)

#define PLAIN(N, B) \
	class N : public B { public: N() noexcept {} virtual ~N() noexcept; virtual const char* what() const noexcept; }; \
	N::~N() noexcept {} \
	const char* N::what() const noexcept { return "std::" #N; }
PLAIN(bad_alloc, exception)
PLAIN(bad_array_new_length, bad_alloc)
PLAIN(bad_cast, exception)
PLAIN(bad_typeid, exception)
PLAIN(bad_exception, exception)
PLAIN(bad_function_call, exception)
PLAIN(bad_weak_ptr, exception)

[[noreturn]] void __throw_length_error(const char* s) { throw length_error(s); }
[[noreturn]] void __throw_out_of_range(const char* s) { throw out_of_range(s); }
[[noreturn]] void __throw_logic_error(const char* s) { throw logic_error(s); }
[[noreturn]] void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
[[noreturn]] void __throw_domain_error(const char* s) { throw domain_error(s); }
[[noreturn]] void __throw_runtime_error(const char* s) { throw runtime_error(s); }
[[noreturn]] void __throw_range_error(const char* s) { throw range_error(s); }
[[noreturn]] void __throw_overflow_error(const char* s) { throw overflow_error(s); }
[[noreturn]] void __throw_underflow_error(const char* s) { throw underflow_error(s); }
[[noreturn]] void __throw_bad_alloc() { throw bad_alloc(); }
[[noreturn]] void __throw_bad_array_new_length() { throw bad_array_new_length(); }
[[noreturn]] void __throw_bad_cast() { throw bad_cast(); }
[[noreturn]] void __throw_bad_function_call() { throw bad_function_call(); }
[[noreturn]] void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
} // namespace std
