// Included once per harness binary, after the harness.
#pragma once
#include "vh.h"

namespace vh {
Shared* sh = nullptr;
bool muted = false;
u64 cur_case = 0;
bool thorough = false;
std::string workdir = ".";
std::string repo = "/repo";
std::atomic<long> live_blocks{0};
thread_local int nocount = 0;
sigjmp_buf abort_jmp;
volatile sig_atomic_t abort_armed = 0;

static FILE* g_viol = nullptr;
static u64 g_viol_case = 0;
static std::map<std::string, u64>* g_viol_keys;
static std::map<std::string, u64>* g_counts;
static std::unordered_set<u64>* g_distinct;
static std::vector<std::string>* g_samples;
static u64 g_distinct_overflow = 0;

std::string fmt(const char* f, ...)
{
	char b[4096];
	va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	return b;
}

void tr(const char* f, ...)
{
#if !VH_TSAN
	if (sh->trace_len + 400 > sizeof sh->trace) return;
	va_list a; va_start(a, f);
	int n = vsnprintf(sh->trace + sh->trace_len, 390, f, a);
	va_end(a);
	if (n > 389) n = 389;
	sh->trace_len += n;
	sh->trace[sh->trace_len++] = ';';
	sh->trace[sh->trace_len] = 0;
#endif
}

static void json_str(FILE* f, const char* s, size_t n)
{
	fputc('"', f);
	for (size_t i = 0; i < n; ++i)
	{
		unsigned char c = (unsigned char)s[i];
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (g_lock.test_and_set(std::memory_order_acquire)) {} } ~Lock() { g_lock.clear(std::memory_order_release); } };

void viol(const char* key, const char* f, ...)
{
	NoCount nc;
	char b[3000];
	va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	Lock l;
	++g_viol_case;
	if (muted) return;
	u64& n = (*g_viol_keys)[key];
	if (n++ >= 5) return;
	fprintf(g_viol, "{\"key\":"); json_str(g_viol, key, strlen(key));
	fprintf(g_viol, ",\"case\":%" PRIu64 ",\"detail\":", cur_case); json_str(g_viol, b, strlen(b));
	fprintf(g_viol, ",\"trace\":"); json_str(g_viol, sh->trace, std::min<u64>(sh->trace_len, 20000));
	fprintf(g_viol, "}\n");
	fflush(g_viol);
}
u64 violations_in_case() { return g_viol_case; }

void count(const char* name, u64 n)
{
	if (muted) return;
	NoCount nc;
	Lock l;
	(*g_counts)[name] += n;
}
void distinct(u64 h)
{
	if (muted) return;
	NoCount nc;
	Lock l;
	if (g_distinct->size() < 400000) g_distinct->insert(h); else ++g_distinct_overflow;
}
void sample(const std::string& s)
{
	if (muted) return;
	NoCount nc;
	Lock l;
	if (g_samples->size() < 4) g_samples->push_back(s.substr(0, 1500));
}

static u64 cpu_limit = 25;
static void on_prof(int)
{
	sh->hang = 1;
	_exit(97);
}
static void on_abort(int sig)
{
	if (abort_armed)
	{
		abort_armed = 0;
		siglongjmp(abort_jmp, sig == SIGABRT ? 1 : 2);
	}
	signal(sig, SIG_DFL);
	raise(sig);
}
static void arm(u64 sec)
{
	struct itimerval t = {};
	t.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &t, nullptr);
}

void extend(u64 sec) { if (sec > cpu_limit) arm(sec); }

#if VH_ASAN
static void mh(const volatile void*, size_t) { if (!nocount) live_blocks.fetch_add(1, std::memory_order_relaxed); }
static void fh(const volatile void* p) { if (p && !nocount) live_blocks.fetch_sub(1, std::memory_order_relaxed); }
#endif

static void one(u64 idx, u64 seed)
{
	cur_case = idx;
	sh->case_idx = idx; sh->trace_len = 0; sh->trace[0] = 0; sh->label[0] = 0; sh->in_case = 1;
	g_viol_case = 0;
	Rng r(hash2(hash_bytes(property, strlen(property)), hash2(seed, idx)));
	arm(cpu_limit);
	try { run_case(r, idx); }
	catch (const Stop&) {}
	catch (const std::exception& e) { viol(fmt("unexpected-exception:%s", sh->label).c_str(), "std::exception escaped: %s", e.what()); }
	catch (...) { viol(fmt("unexpected-exception:%s", sh->label).c_str(), "exception escaped"); }
	sh->in_case = 0;
}

int vh_main(int argc, char** argv)
{
	u64 seed = 1, shard = 0, nshards = 1, cases = 100, start = 0; long only = -1;
	double budget = 1e9;
	std::string out = "./shard", flavor;
	bool leaks = true;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i]; const char* v = argv[i + 1];
		if (a == "--seed") seed = strtoull(v, 0, 10);
		else if (a == "--shard") shard = strtoull(v, 0, 10);
		else if (a == "--nshards") nshards = strtoull(v, 0, 10);
		else if (a == "--cases") cases = strtoull(v, 0, 10);
		else if (a == "--start") start = strtoull(v, 0, 10);
		else if (a == "--only") only = strtol(v, 0, 10);
		else if (a == "--budget") budget = strtod(v, 0);
		else if (a == "--out") out = v;
		else if (a == "--thorough") thorough = atoi(v);
		else if (a == "--limit") cpu_limit = strtoull(v, 0, 10);
		else if (a == "--leaks") leaks = atoi(v);
		else if (a == "--repo") repo = v;
	}
	int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("cur"); return 98; }
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	sh->magic = 0x56484d4f4eull;
	g_viol = fopen((out + ".viol").c_str(), "a");
	g_viol_keys = new std::map<std::string, u64>; g_counts = new std::map<std::string, u64>;
	g_distinct = new std::unordered_set<u64>; g_samples = new std::vector<std::string>;
	signal(SIGPROF, on_prof);
	{ struct sigaction sa = {}; sa.sa_handler = on_abort; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, nullptr);
#if !VH_ASAN && !VH_TSAN
	sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
#endif
	}
#if VH_ASAN
	__sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
	struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	u64 done = 0; bool stopped = false;
	auto exec = [&](u64 idx)
	{
		long b = live_blocks.load();
		one(idx, seed);
		long d = live_blocks.load() - b;
		if (leaks && d > 0 && !VH_TSAN)
		{
			muted = true;
			long b2 = live_blocks.load(); one(idx, seed); long d2 = live_blocks.load() - b2;
			long b3 = live_blocks.load(); one(idx, seed); long d3 = live_blocks.load() - b3;
			muted = false;
			if (d2 > 0 && d3 > 0)
				viol("leak", "%ld allocated blocks are never released in this case (again %ld, %ld)", d, d2, d3);
		}
		++done;
	};
	if (only >= 0)
		exec((u64)only);
	else
		for (u64 i = shard; i < cases; i += nshards)
		{
			if (i < start) continue;
			exec(i);
			if ((done & 7) == 0)
			{
				struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
				if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > budget) { stopped = true; break; }
			}
		}
	arm(0);
	FILE* f = fopen(fmt("%s.stats.%d", out.c_str(), (int)getpid()).c_str(), "w");
	fprintf(f, "{\"done\":%" PRIu64 ",\"stopped\":%s,\"overflow\":%" PRIu64 ",\"counts\":{", done, stopped ? "true" : "false", g_distinct_overflow);
	bool first = true;
	for (auto& c : *g_counts) { if (!first) fputc(',', f); first = false; json_str(f, c.first.data(), c.first.size()); fprintf(f, ":%" PRIu64, c.second); }
	fprintf(f, "},\"samples\":[");
	first = true;
	for (auto& s : *g_samples) { if (!first) fputc(',', f); first = false; json_str(f, s.data(), s.size()); }
	fprintf(f, "]}\n");
	fclose(f);
	f = fopen(fmt("%s.hash.%d", out.c_str(), (int)getpid()).c_str(), "w");
	for (u64 h : *g_distinct) fwrite(&h, 8, 1, f);
	fclose(f);
	fclose(g_viol);
	fflush(nullptr);
	_exit(0);
}
}

#if !VH_ASAN && !VH_TSAN && !defined(VH_PLAIN_NEW)
// Allocation balance, and new memory is never zero: quiet NaNs / huge indices.
#ifndef VH_FILL
# define VH_FILL 0xFF
#endif
void* operator new(size_t n)
{
	if (n > ((size_t)1 << 33)) throw std::bad_alloc();
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	memset(p, VH_FILL, n);
	if (!vh::nocount) vh::live_blocks.fetch_add(1, std::memory_order_relaxed);
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
	if (!p) return;
	if (!vh::nocount) vh::live_blocks.fetch_sub(1, std::memory_order_relaxed);
	memset(p, VH_FILL, malloc_usable_size(p));
	asm volatile("" : : "r"(p) : "memory");
	free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

int main(int argc, char** argv) { return vh::vh_main(argc, argv); }
