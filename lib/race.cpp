// Happens-before race and use-after-free monitor for the race variant. The code under test is compiled with -fsanitize=thread but
// linked against this file instead of the sanitizer runtime; every load and store comes through __tsan_* below.
#pragma GCC optimize("no-tree-loop-distribute-patterns")
#include "sched.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
using sched::Rt; using sched::rt_depth;

namespace sched { bool thread_local_address(const void* p); }
namespace race {
static const int MAXT = 160; static const uintptr_t ABASE = 0x300000000000ull; static const size_t ASIZE = 64ull << 20, SBASE = 0x200000000000ull, SSTRIDE = (1 << 20) + 4096;
typedef uint32_t Clk; struct VC { Clk c[MAXT]; };
static VC vc[MAXT]; static int nthreads; static VC pend[MAXT], frel[MAXT]; static bool haspend[MAXT], hasfrel[MAXT];
static uint32_t gen = 1; static bool on = false; static bool dead[MAXT];
struct Cell { Clk clk; uint16_t tid; uint8_t mask, fl; uint64_t pc; };   // fl: 1 write, 2 atomic
struct Gran { uint32_t gen; uint8_t n; bool freed; uint16_t ftid; uint64_t fpc; Cell c[4]; };
struct Page { Gran g[512]; };
static Page** table; static uintptr_t* keys; static size_t tcap = 1 << 16, tn;
static std::unordered_map<const void*, VC>* sync_;
static size_t bump[MAXT];

static bool active() { return on && rt_depth == 0 && sched::managed(); }
static Page* page(uintptr_t k) {
	static uintptr_t lk = 0; static Page* lp; if (k == lk) return lp;
	size_t m = tcap - 1, i = (k * 0x9e3779b97f4a7c15ull >> 20) & m;
	while (keys[i] && keys[i] != k) i = (i + 1) & m;
	if (!keys[i]) {
		if (tn * 2 > tcap) { fprintf(stderr, "race: shadow table full\n"); abort(); }
		tn++; keys[i] = k; table[i] = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	lk = k; lp = table[i]; return lp;
}
// ordinary heap memory that is given back: what was known about it must not be held against its next user
static void forget(void* p, size_t n) {
	for (uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n; a < e;) {
		uintptr_t k = a >> 12, m = tcap - 1, i = (k * 0x9e3779b97f4a7c15ull >> 20) & m; while (keys[i] && keys[i] != k) i = (i + 1) & m;
		if (!keys[i]) { a = (k + 1) << 12; continue; }
		Page* g = table[i]; for (; a < e && a >> 12 == k; a += 8) g->g[(a >> 3) & 511].gen = 0;
	}
}
static Gran& gran(uintptr_t a) { Gran& g = page(a >> 12)->g[(a >> 3) & 511]; if (g.gen != gen) { g.gen = gen; g.n = 0; g.freed = false; } return g; }

static std::string where(uint64_t pc) {
	Dl_info i; if (!dladdr((void*)pc, &i)) return "?"; if (!i.dli_sname) { char t[32]; snprintf(t, 32, "exe+0x%lx", (long)(pc - (uint64_t)i.dli_fbase)); return t; }
	int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string s = d && !st ? d : i.dli_sname; free(d);
	char t[32]; snprintf(t, 32, "+0x%lx", (long)(pc - (uint64_t)i.dli_saddr)); if (s.size() > 160) s = s.substr(0, 160) + "..."; return s + t;
}
[[noreturn]] static void report(const char* kind, const std::string& m) { Rt g; mc::violate(kind, m); }
static std::string acc(bool w, bool at, int tid) { return std::string(at ? "atomic " : "") + (w ? "write" : "read") + " by thread " + std::to_string(tid); }

static void one(uintptr_t a, uint8_t mask, bool w, bool at, uint64_t pc, int t) {
	Gran& g = gran(a); Clk my = vc[t].c[t]; uint8_t fl = (w ? 1 : 0) | (at ? 2 : 0);
	if (g.freed) { Rt r; report("use-after-free", acc(w, at, t) + " at " + where(pc) + " hits memory freed by thread " + std::to_string(g.ftid) + " at " + where(g.fpc)); }
	for (int i = 0; i < g.n; i++) { Cell& c = g.c[i]; if (c.tid == t && c.clk == my && (c.mask & mask) == mask && (c.fl & 1) >= (fl & 1) && (c.fl & 2) == (fl & 2)) return; }
	for (int i = 0; i < g.n; i++) {
		Cell& c = g.c[i]; if (c.tid == t || !(c.mask & mask) || !((c.fl | fl) & 1) || ((c.fl & fl) & 2)) continue;
		if (c.clk > vc[t].c[c.tid]) { Rt r; report("data-race", acc(w, at, t) + " at " + where(pc) + " races with earlier " + acc(c.fl & 1, c.fl & 2, c.tid) + " at " + where(c.pc)); }
	}
	int n = 0;
	for (int i = 0; i < g.n; i++) {
		Cell& c = g.c[i]; bool cover = (c.mask & ~mask) == 0, ordered = c.tid == t || c.clk <= vc[t].c[c.tid];
		if (cover && ordered && (w || (c.tid == t && !(c.fl & 1)))) continue;
		g.c[n++] = c;
	}
	if (n == 4) { int v = 0; for (int i = 0; i < 4; i++) if (!(g.c[i].fl & 1)) { v = i; break; } for (int i = v; i < 3; i++) g.c[i] = g.c[i + 1]; n = 3; }
	g.c[n] = Cell{my, (uint16_t)t, mask, fl, pc}; g.n = n + 1;
}
static void access(const void* p, size_t n, bool w, bool at, uint64_t pc) {
	static bool busy; if (busy || !active() || !n) return; struct B { B() { busy = true; } ~B() { busy = false; } } b_;
	if (sched::thread_local_address(p)) return;
	uintptr_t a = (uintptr_t)p; int t = sched::self();
	if (a >= SBASE && a < SBASE + SSTRIDE * 512) { size_t f = (a - SBASE) / SSTRIDE; if (f == (size_t)t) { if (n <= 16) { } } else if (f < (size_t)MAXT && dead[f]) { Rt r; report("use-after-free", acc(w, at, t) + " at " + where(pc) + " hits the stack of a finished thread"); } }
	uintptr_t e = a + n;
	while (a < e) { uintptr_t b = a & ~7ull; size_t o = a - b, l = std::min<size_t>(8 - o, e - a); one(b, (uint8_t)(((1u << l) - 1) << o), w, at, pc, t); a = b + 8; }
}
void range(const void* p, size_t n, bool w) { if (on && sched::managed()) { int d = rt_depth; rt_depth = 0; access(p, n, w, false, (uint64_t)__builtin_return_address(0)); rt_depth = d; } }

static void joinvc(VC& a, const VC& b) { for (int i = 0; i < nthreads; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void begin() {
	if (!table) { table = (Page**)mmap(nullptr, tcap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); keys = (uintptr_t*)mmap(nullptr, tcap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sync_ = new std::unordered_map<const void*, VC>; mmap((void*)ABASE, ASIZE * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); }
	memset(vc, 0, sizeof vc); memset(dead, 0, sizeof dead); memset(haspend, 0, sizeof haspend); memset(hasfrel, 0, sizeof hasfrel); memset(bump, 0, sizeof bump); sync_->clear(); gen++; nthreads = 1; vc[0].c[0] = 1; on = true;
}
void end() { on = false; }
void thread_start(int p, int c) { if (c >= MAXT) { fprintf(stderr, "race: too many threads\n"); abort(); } nthreads = c + 1; vc[c] = vc[p]; vc[c].c[c] = 1; vc[p].c[p]++; }
void thread_join(int s, int c) { joinvc(vc[s], vc[c]); }
void acquire(int t, const void* o) { if (!on) return; auto i = sync_->find(o); if (i != sync_->end()) joinvc(vc[t], i->second); }
void release(int t, const void* o) { if (!on) return; auto i = sync_->find(o); if (i == sync_->end()) i = sync_->emplace(o, VC{}).first; joinvc(i->second, vc[t]); vc[t].c[t]++; }
void sync_access(int t, const void* o, const char* what) {
	if (!on) return; uintptr_t a = (uintptr_t)o; Gran& g = gran(a & ~7ull);
	if (g.freed) { Rt r; report("use-after-free", std::string(what) + " by thread " + std::to_string(t) + " on a synchronisation object freed by thread " + std::to_string(g.ftid) + " at " + where(g.fpc)); }
	if (a >= SBASE && a < SBASE + SSTRIDE * 512) { size_t f = (a - SBASE) / SSTRIDE; if (f != (size_t)t && f < (size_t)MAXT && dead[f]) { Rt r; report("use-after-free", std::string(what) + " on the stack of a finished thread"); } }
}
void thread_end(int t, void*, size_t) { if (t < MAXT) dead[t] = true; }

// ------------------------------------------------------------------ atomics
// mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static bool acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static bool rel(int mo) { return mo >= 3; }
static void before(const void* a, int kind, int mo, uint64_t pc, size_t n) { // kind 0 load 1 store 2 rmw
	if (!active()) return;
	bool refcount = kind == 2 && mo == 4; // the standard library's reference counts commute: not a point where switching matters
	if (!refcount) { const char* w = kind == 0 ? "atomic load" : kind == 1 ? "atomic store" : "atomic update"; Rt g; sched::point(w, a, kind != 0); }
	access(a, n, kind != 0, true, pc);
	int t = sched::self(); Rt g;
	if (kind != 1) { if (acq(mo)) acquire(t, a); else { auto i = sync_->find(a); if (i != sync_->end()) { if (!haspend[t]) { memset(&pend[t], 0, sizeof(VC)); haspend[t] = true; } joinvc(pend[t], i->second); } } }
	if (kind != 0) {
		auto i = sync_->find(a); if (i == sync_->end()) i = sync_->emplace(a, VC{}).first;
		if (kind == 1) memset(&i->second, 0, sizeof(VC));
		if (rel(mo)) { joinvc(i->second, vc[t]); vc[t].c[t]++; } else if (hasfrel[t]) joinvc(i->second, frel[t]);
	}
}
static void fence(int mo) { if (!active()) return; int t = sched::self(); Rt g; if (acq(mo) && haspend[t]) { joinvc(vc[t], pend[t]); haspend[t] = false; } if (rel(mo)) { frel[t] = vc[t]; hasfrel[t] = true; vc[t].c[t]++; } }

// ------------------------------------------------------------------ heap
struct Head { size_t size; uint32_t magic; uint32_t freed; };
static const uint32_t MAGIC = 0xA110CA7E;
static bool inarena(const void* p) { uintptr_t a = (uintptr_t)p; return a >= ABASE && a < ABASE + ASIZE * MAXT; }
static void* arena(size_t n, size_t al) {
	int t = sched::self(); uintptr_t base = ABASE + t * ASIZE, p = base + bump[t] + sizeof(Head); if (al < 16) al = 16; p = (p + al - 1) & ~(al - 1);
	if (p + n + 32 > base + ASIZE) { fprintf(stderr, "race: arena of thread %d full\n", t); abort(); }
	Head* h = (Head*)p - 1; h->size = n; h->magic = MAGIC; h->freed = 0; bump[t] = (p + ((n + 15) & ~15ull)) - base; return (void*)p;
}
static void afree(void* p, uint64_t pc) {
	Head* h = (Head*)p - 1; if (!on) return;
	if (h->magic != MAGIC) report("bad-free", "free of a pointer which is not the start of a block, at " + where(pc));
	if (h->freed) report("double-free", "memory freed twice, at " + where(pc));
	h->freed = 1; int t = sched::self();
	for (uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + h->size; a < e; a += 8) { Gran& g = gran(a); g.freed = true; g.ftid = t; g.fpc = pc; }
}
} // namespace race
using namespace race;

extern "C" size_t malloc_usable_size(void*) __THROW;
#define PC ((uint64_t)__builtin_return_address(0))
extern "C" {
void* malloc(size_t n) { return active() ? arena(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (inarena(p)) { afree(p, PC); return; } if (on) forget(p, malloc_usable_size(p)); __libc_free(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } if (!active()) return __libc_calloc(a, b); void* p = arena(n, 16); memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
	if (!p) return malloc(n);
	if (!inarena(p)) { if (!active()) return __libc_realloc(p, n); return __libc_realloc(p, n); }
	size_t o = ((Head*)p - 1)->size; void* q = malloc(n); memcpy(q, p, o < n ? o : n); afree(p, PC); return q;
}
void* memalign(size_t al, size_t n) { return active() ? arena(n, al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void* p) __THROW { if (!p) return 0; if (inarena(p)) return ((Head*)p - 1)->size; static auto r = (size_t (*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size"); return r(p); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* a) { access(a, n, false, false, PC); } \
	void __tsan_write##n(void* a) { access(a, n, true, false, PC); } \
	void __tsan_unaligned_read##n(void* a) { access(a, n, false, false, PC); } \
	void __tsan_unaligned_write##n(void* a) { access(a, n, true, false, PC); } \
	void __tsan_volatile_read##n(void* a) { access(a, n, false, true, PC); } \
	void __tsan_volatile_write##n(void* a) { access(a, n, true, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, false, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, false, PC); }
void __tsan_atomic_thread_fence(int mo) { fence(mo); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) { before((const void*)a, 0, mo, PC, sizeof(T)); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { before((const void*)a, 1, mo, PC, sizeof(T)); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { before((const void*)a, 2, mo, PC, sizeof(T)); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { before((const void*)a, 2, mo, PC, sizeof(T)); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_fetch_xor(a, v, 5); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_fetch_nand(a, v, 5); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { before((const void*)a, 2, mo == 4 ? 5 : mo, PC, sizeof(T)); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); void* __real_memchr(const void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active()) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active()) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active()) access(d, n, true, false, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (active()) { access(a, n, false, false, PC); access(b, n, false, false, PC); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (active()) access(s, n + 1, false, false, PC); return n; }
void* __wrap_memchr(const void* s, int c, size_t n) { void* r = __real_memchr(s, c, n); if (active()) access(s, r ? (char*)r - (char*)s + 1 : n, false, false, PC); return r; }

// reference counts of exceptions live in the C++ runtime library: give them their happens-before edges
static void* caught() { std::exception_ptr e = std::current_exception(); void* p; memcpy(&p, (void*)&e, sizeof p); return p; }
void __cxa_end_catch() {
	static auto r = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch");
	if (!active()) { r(); return; }
	void* p; { Rt g; p = caught(); if (p) release(sched::self(), p); acquire(sched::self(), p); }
	r();
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self) {
	static auto r = (void (*)(void**))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
	if (active() && *self) { Rt g; release(sched::self(), *self); acquire(sched::self(), *self); }
	r(self);
}
} // extern "C"
