// Common part of all monitors: case scheduling, deterministic randomness, crash
// attribution, hang watchdog, allocation balance, event counting and reporting.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>
#include <new>
#include <time.h>
#include <fenv.h>

#if defined(__SANITIZE_ADDRESS__)
# define VH_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#else
# define VH_ASAN 0
#endif
#if defined(__SANITIZE_THREAD__)
# define VH_TSAN 1
#else
# define VH_TSAN 0
#endif

// a harness may be compiled in several parts (in parallel); the last part carries the main program
#ifdef VH_PART
# define VH_IN(k) (VH_PART == (k))
#else
# define VH_IN(k) 1
#endif

// Types the harnesses instantiate the library with. VH_NARROW drops the types which the test suite of the repository does not
// use, so that a change which compiles there, but not for every number type, is still looked at (see run.py).
#ifndef VH_NARROW
# define VH_NARROW 0
#endif
#if VH_NARROW == 0
typedef std::complex<float> VCF; typedef std::complex<double> VCD; typedef float VF; typedef int VI; typedef long double VLD;
typedef int8_t VS8; typedef uint8_t VU8; typedef int16_t VS16; typedef uint16_t VU16; typedef int64_t VS64; typedef uint64_t VU64;
#elif VH_NARROW == 1
typedef std::complex<double> VCF; typedef std::complex<double> VCD; typedef float VF; typedef double VI; typedef double VLD;
typedef int32_t VS8; typedef uint32_t VU8; typedef int32_t VS16; typedef uint32_t VU16; typedef int64_t VS64; typedef uint64_t VU64;
#elif VH_NARROW == 2
typedef double VCF; typedef double VCD; typedef float VF; typedef double VI; typedef double VLD;
typedef int32_t VS8; typedef uint32_t VU8; typedef int32_t VS16; typedef uint32_t VU16; typedef int64_t VS64; typedef uint64_t VU64;
#else
typedef double VCF; typedef double VCD; typedef double VF; typedef double VI; typedef double VLD;
typedef int32_t VS8; typedef uint32_t VU8; typedef int32_t VS16; typedef uint32_t VU16; typedef int32_t VS64; typedef uint32_t VU64;
#endif

namespace vh {

typedef uint64_t u64;
typedef long double ld;

inline u64 mix(u64 x)
{
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
inline u64 hash2(u64 a, u64 b) { return mix(a ^ mix(b + 0x1234567)); }
inline u64 hash_bytes(const void* p, size_t n)
{
	u64 h = 1469598103934665603ull;
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return mix(h);
}

struct Rng
{
	u64 s;
	explicit Rng(u64 seed) : s(mix(seed)) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
	size_t below(size_t n) { return n ? (size_t)(next() % n) : 0; }
	long range(long a, long b) { return a + (long)below((size_t)(b - a + 1)); }// inclusive
	double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * uni(); }
	bool chance(double p) { return uni() < p; }
	double normal()
	{
		double u = uni() + 1e-18, v = uni();
		return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
	}
	template<class C> auto pick(const C& c) -> const typename C::value_type& { return c[below(c.size())]; }
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	template<class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};

// ---- page shared with the driver: what is being executed right now
struct Shared
{
	u64 magic, case_idx, in_case, hang;
	char label[128];
	u64 trace_len;
	char trace[60000];
};
extern Shared* sh;

// ---- state
struct Viol { std::string key, detail; };
extern bool muted;
extern u64 cur_case;
extern bool thorough;
extern std::string workdir;// scratch directory of this shard (cwd)
extern std::string repo;

#if VH_TSAN
inline void label(const char*) {}
#else
inline void label(const char* l) { size_t n = strlen(l); if (n > 127) n = 127; memcpy(sh->label, l, n); sh->label[n] = 0; }
#endif

void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void viol(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char* name, u64 n = 1);
void distinct(u64 h);// registers a distinct non-trivial observation
void sample(const std::string& s);
u64 violations_in_case();

// a large case: sets the processor time this case may take
void extend(u64 seconds);
// probability of a case with sizes beyond 16 bits
#ifndef HUGE_CHANCE
# ifdef NDEBUG
#  define HUGE_CHANCE 0.0003
# else
#  define HUGE_CHANCE 0
# endif
#endif

// abandons the current case
struct Stop {};

// ---- allocation balance
extern std::atomic<long> live_blocks;
extern thread_local int nocount;
struct NoCount { NoCount() { ++nocount; } ~NoCount() { --nocount; } };

// ---- runs f and tells if it ended in abort() (SIGABRT), without leaving the process.
// Only for code without resources between here and abort().
enum Outcome { RETURNED, ABORTED, THREW, SEGV };
extern sigjmp_buf abort_jmp;
extern volatile sig_atomic_t abort_armed;
template<class F> Outcome probe(F f)
{
	abort_armed = 1;
	int s = sigsetjmp(abort_jmp, 1);
	if (s == 0)
	{
		try { f(); } catch (...) { abort_armed = 0; return THREW; }
		abort_armed = 0;
		return RETURNED;
	}
	abort_armed = 0;
	return s == 1 ? ABORTED : SEGV;
}

// runs f in a child process; returns the wait status
template<class F> int in_child(F f)
{
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0)
	{
		signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
		int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); dup2(n, 1); }
		try { f(); } catch (...) { _exit(43); }
		_exit(42);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return st;
}

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// keeps the optimizer from removing an unused result
template<class T> inline void keep(const T& v) { asm volatile("" : : "g"(&v) : "memory"); }

// ------------ harness interface
extern const char* property;
void run_case(Rng& r, u64 idx);
}
