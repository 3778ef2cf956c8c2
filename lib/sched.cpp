#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <cxxabi.h>

extern "C" {
void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old) __attribute__((weak));
int __asan_address_is_poisoned(void const volatile* addr) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile* addr, size_t size) __attribute__((weak));
}
// race monitor (only in the race variant)
namespace race {
void begin() __attribute__((weak));
void end() __attribute__((weak));
void thread_start(int parent, int child) __attribute__((weak));
void thread_join(int self, int child) __attribute__((weak));
void acquire(int tid, const void* obj) __attribute__((weak));
void release(int tid, const void* obj) __attribute__((weak));
void sync_access(int tid, const void* obj, const char* what) __attribute__((weak));
void thread_end(int tid, void* stack, size_t size) __attribute__((weak));
}

namespace sched {
bool thread_local_address(const void* p);

int rt_depth = 0;
int (*thread_create_hook)() = nullptr;

struct Fiber {
	int id = 0; uint64_t canon = 0; int children = 0;
	std::string name; bool harness = false;
	void* sp = nullptr; char* stack = nullptr; void* fake = nullptr;
	std::function<void()> fn; void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
	bool done = false, detached = false, joined = false;
	// pending operation
	const char* what = ""; const void* wobj = nullptr;
	std::function<bool()> pred; bool waiting = false; int64_t deadline = -1; bool timedout = false, on_real = false;
	uint64_t h = 0;      // history hash
	int err = 0; int rt = 0;
	void* eh[2] = {nullptr, nullptr}; void* once[2] = {nullptr, nullptr}; std::string tls;
	bool yielded = false; int guards = 0;
};
struct Obj { uint64_t w = 0, r = 0; };
struct Mutex { int owner = -1; int count = 0; };
struct RW { int writer = -1; std::vector<int> readers; };
struct Waiter { int tid; bool signalled; };

static const size_t STACK = 1 << 20, GUARD = 4096; static const int MAXF = 512;
static char* stackbase;
static bool g_on = false;
static void* sched_tp;   // thread pointer of the scheduler thread
static Options opt;
static std::vector<std::unique_ptr<Fiber>> fib;
static Fiber* cur; static void* root_sp; static void* root_fake; static const void* root_bottom; static size_t root_size;
static void* root_eh[2]; static void* root_once[2]; static std::string root_tls;
static std::unordered_map<uint64_t, Obj> objs;
static std::unordered_map<const void*, Mutex> mtx;
static std::unordered_map<const void*, RW> rws;
static std::unordered_map<const void*, std::vector<Waiter*>> conds;
static std::unordered_map<const void*, std::vector<Waiter*>> futs;
static int64_t vnow, stepped; static const int64_t T0 = 1000ll * 1000000000ll; static const int64_t REAL0 = 1709640000ll * 1000000000ll;
static long npoints, streak; static bool quiet_;
static std::string* g_capture; static bool g_swallow = true;

bool managed() { return g_on && cur && __builtin_thread_pointer() == sched_tp; }
int self() { return cur ? cur->id : -1; }
int64_t now_ns() { return vnow; }
int64_t now_ms() { return (vnow - T0) / 1000000; }
long points() { return npoints; }
void quiet(bool on) { quiet_ = on; }
void capture_output(std::string* o) { g_capture = o; }

static void* fn_real(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no %s\n", n); abort(); } return p; }
#define REAL(name, ...) ([&]() { static auto r = (decltype(&name))fn_real(#name); return r(__VA_ARGS__); }())

asm(R"(
.text
.globl mc_switch_stack
.type mc_switch_stack,@function
mc_switch_stack:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
extern "C" void mc_switch_stack(void** save, void* load);

static char* stack_of(int i) { return stackbase + (size_t)i * (STACK + GUARD) + GUARD; }
static void swap_eh(void** save, void** load) {
	void** g = (void**)abi::__cxa_get_globals();
	save[0] = g[0]; save[1] = g[1]; g[0] = load[0]; g[1] = load[1];
}
// thread-local variables of the program are per fiber
static char* tls_at; static size_t tls_n; static std::string tls_init;
static void find_tls() {
	if (tls_at) return;
	dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; k++) { auto& h = i->dlpi_phdr[k]; if (h.p_type == PT_TLS && h.p_memsz) { tls_at = (char*)i->dlpi_tls_data; tls_n = h.p_memsz; tls_init.assign((const char*)(i->dlpi_addr + h.p_vaddr), h.p_filesz); tls_init.resize(tls_n, 0); } } return 1; }, nullptr);
	if (!tls_at) tls_at = (char*)1;
}
static void swap_tls(std::string& save, std::string& load, void** so, void** lo) {
	so[0] = std::__once_callable; so[1] = (void*)std::__once_call; std::__once_callable = lo[0]; std::__once_call = (void (*)())lo[1];
	if (!tls_n) return;
	save.assign(tls_at, tls_n); const std::string& l = load.empty() ? tls_init : load; for (size_t i = 0; i < tls_n; i++) ((volatile char*)tls_at)[i] = l[i];
}
bool thread_local_address(const void* p) { static const void* const err = &errno; return p == err || (tls_n && p >= tls_at && p < tls_at + tls_n) || p == (void*)&std::__once_callable || p == (void*)&std::__once_call; }
[[noreturn]] static void fiber_main();
static void after_switch() {
	if (__sanitizer_finish_switch_fiber) { const void* b; size_t s; __sanitizer_finish_switch_fiber(cur ? cur->fake : root_fake, &b, &s); if (!root_bottom) { root_bottom = b; root_size = s; } }
}
static void switch_to(Fiber* to, bool dying = false) {
	Fiber* from = cur;
	if (to == from) return;
	void** savesp = from ? &from->sp : &root_sp; void** savefake = from ? &from->fake : &root_fake;
	swap_eh(from ? from->eh : root_eh, to ? to->eh : root_eh);
	if (from) { from->err = errno; from->rt = rt_depth; }
	swap_tls(from ? from->tls : root_tls, to ? to->tls : root_tls, from ? from->once : root_once, to ? to->once : root_once);
	cur = to;
	if (__sanitizer_start_switch_fiber) {
		if (to) __sanitizer_start_switch_fiber(dying ? nullptr : savefake, to->stack, STACK); else __sanitizer_start_switch_fiber(dying ? nullptr : savefake, root_bottom, root_size);
	}
	mc_switch_stack(savesp, to ? to->sp : root_sp);
	after_switch();
	if (cur) { errno = cur->err; rt_depth = cur->rt; } else rt_depth = 0;
}

static uint64_t state_hash() {
	uint64_t s = (uint64_t)vnow;
	for (auto& f : fib) s += mc::mix(f->canon, f->h + f->done);
	return s;
}
void event(const char* what, uint64_t o, bool write, uint64_t result) {
	if (!managed()) return;
	Rt g; Obj& x = objs[o];
	uint64_t k = mc::hash_bytes(what, strlen(what)); uint64_t n = mc::mix(mc::mix(mc::mix(cur->h, write ? x.w + x.r : x.w), k), result);
	cur->h = n; if (write) { x.w = n; x.r = 0; } else x.r += n;
}
void local(uint64_t v) { if (managed()) cur->h = mc::mix(cur->h, v + 0x55); }

static bool ready(Fiber* f) {
	if (f->done) return false;
	if (!f->waiting) return true;
	if (f->pred && f->pred()) return true;
	if (f->deadline >= 0 && f->deadline <= vnow) return true;
	return false;
}
std::string describe_live() {
	std::string s; for (auto& f : fib) if (!f->done) s += (s.empty() ? "" : "; ") + std::string("thread ") + std::to_string(f->id) + " (" + f->name + ") at " + f->what; return s;
}
int live_threads() { Rt g; int n = 0; for (auto& f : fib) if (!f->done && !f->harness) n++; return n; }

// picks who runs next; the current thread's pending operation has been recorded (or it is done)
static void schedule() {
	if (cur->guards && ready(cur)) return; // first use of a process-wide static: must look the same in every execution
	if (++npoints > opt.max_points) mc::violate("livelock", "execution did not end within " + std::to_string(npoints) + " scheduling points: " + describe_live());
	mc::beat();
	cur->h = mc::mix(cur->h, 3);
	static std::vector<Fiber*> en, tm; en.clear(); tm.clear(); // static: the last schedule() of a thread never returns
	while (true) {
		en.clear(); int n = fib.size(), c = cur->id;
		for (int i = 0; i < n; i++) { Fiber* f = fib[(c + i) % n].get(); if (ready(f)) en.push_back(f); }
		if (!en.empty()) break;
		int64_t d = INT64_MAX; bool alive = false;
		for (auto& f : fib) if (!f->done) { alive = true; if (f->deadline >= 0 && f->deadline < d) d = f->deadline; }
		if (!alive) { switch_to(nullptr, true); abort(); }
		if (d == INT64_MAX) mc::violate("deadlock", "no thread can run: " + describe_live());
		vnow = d;
		if (now_ms() > opt.max_virtual_ms) mc::violate("never-ends", "still waiting after " + std::to_string(now_ms() / 1000) + " virtual seconds: " + describe_live());
	}
	bool curok = en[0] == cur; Fiber* next = en[0];
	bool yielding = cur->yielded; cur->yielded = false;
	if (curok && (yielding || ++streak > 3000) && en.size() > 1) { next = en[1]; streak = 0; curok = false; en.erase(en.begin()); en.push_back(cur); }
	// timers that could fire early
	if (opt.early_timers && mc::budget_left() > 0) {
		for (auto& f : fib) if (!f->done && f->waiting && f->deadline > vnow && !(f->pred && f->pred())) tm.push_back(f.get());
		// only the earliest can fire
		if (tm.size() > 1) { Fiber* b = tm[0]; for (auto* f : tm) if (f->deadline < b->deadline) b = f; tm.assign(1, b); }
	}
	if (opt.prune) {
		uint64_t s = mc::mix(mc::mix(state_hash(), curok ? cur->canon : 1), mc::budget_left() + 77);
		if ((en.size() > 1 || !tm.empty()) && !quiet_ && mc::past_prefix() && mc::seen_state(s)) mc::set_prune(true);
		mc::step(s);
	}
	int total = en.size() + tm.size(), pick = 0;
	if (total > 1 && !quiet_) {
		if (curok) { if (opt.preempt) pick = mc::deviate(total); else if (!tm.empty()) { int k = mc::deviate(1 + tm.size()); pick = k ? (int)en.size() + k - 1 : 0; } }
		else if (opt.onblock == Free && tm.empty()) pick = mc::choose(total);
		else if (opt.onblock == Free) { pick = mc::choose(en.size()); if (pick == 0) { int k = mc::deviate(1 + tm.size()); if (k) pick = en.size() + k - 1; } }
		else if (opt.onblock == Deviate) pick = mc::deviate(total);
		else if (!tm.empty()) { int k = mc::deviate(1 + tm.size()); pick = k ? (int)en.size() + k - 1 : 0; }
	}
	if (pick < (int)en.size()) next = en[pick];
	else { next = tm[pick - en.size()]; vnow = next->deadline; }
	if (next != cur) streak = 0;
	if (mc::tracing() && next != cur) mc::note("  -> thread " + std::to_string(next->id) + " (" + next->name + ") at " + next->what);
	if (next != cur) switch_to(next, cur->done);
}

bool block(const char* what, uint64_t obj, const std::function<bool()>& pred, int64_t deadline) {
	Rt g;
	cur->what = what; cur->pred = pred; cur->waiting = true; cur->deadline = deadline; cur->timedout = false;
	(void)obj;
	schedule();
	cur->waiting = false; bool ok = !cur->pred || cur->pred();
	cur->pred = nullptr; cur->deadline = -1; cur->on_real = false;
	return ok;
}
// someone sets the system clock: what waits for a time of day waits for a shorter or longer time
void step_clock(int64_t ms) { Rt g; int64_t d = ms * 1000000; stepped += d; for (auto& f : fib) if (!f->done && f->on_real && f->deadline >= 0) f->deadline = std::max<int64_t>(f->deadline - d, vnow); }
static bool always() { return true; }
static void pt(const char* what, const void* obj) {
	Rt g; cur->what = what; cur->wobj = obj; cur->waiting = false; schedule();
}
void point(const char* what, const void* obj, bool write) { if (!managed()) return; pt(what, obj); event(what, (uint64_t)obj, write, 0); }
void yield() { if (!managed()) return; Rt g; cur->yielded = true; cur->what = "yield"; cur->waiting = false; schedule(); }
void sleep_ms(int64_t ms) { Rt g; block("sleep", 0, nullptr, vnow + ms * 1000000); }

static void poisoned(const void* p, const char* what) {
	if (__asan_address_is_poisoned && __asan_address_is_poisoned(p)) mc::violate("use-after-free", std::string(what) + " on a synchronisation object in freed memory");
	if (race::sync_access) race::sync_access(cur->id, p, what);
}

[[noreturn]] static void fiber_main() {
	after_switch();
	rt_depth = cur->harness ? 1 : 0;
	Fiber* f = cur;
	[&]() noexcept {
		if (f->start) f->ret = f->start(f->arg); else f->fn();
	}();
	++rt_depth;
	f->done = true; f->what = "ended";
	if (race::release) race::release(f->id, f);
	event("end", (uint64_t)f->canon, true, 0);
	if (race::thread_end) race::thread_end(f->id, f->stack, STACK);
	schedule();
	abort();
}

static Fiber* mk(const char* name, Fiber* parent) {
	if (fib.size() >= MAXF) { fprintf(stderr, "too many threads\n"); abort(); }
	auto f = std::make_unique<Fiber>(); Fiber* p = f.get();
	p->id = fib.size(); p->name = name;
	p->canon = parent ? mc::mix(parent->canon, ++parent->children) : 0x1111;
	p->h = p->canon;
	p->stack = stack_of(p->id);
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p->stack, STACK);
	void** sp = (void**)(p->stack + STACK - 64);
	*--sp = nullptr; // alignment and end of stack
	*--sp = (void*)fiber_main;
	for (int i = 0; i < 6; i++) *--sp = nullptr;
	p->sp = sp;
	fib.push_back(std::move(f));
	return p;
}
static Fiber* create(const char* name, void* (*start)(void*), void* arg, std::function<void()> fn, bool harness) {
	Fiber* f = mk(name, cur);
	f->start = start; f->arg = arg; f->fn = std::move(fn); f->harness = harness;
	if (race::thread_start) race::thread_start(cur->id, f->id);
	event("create", f->canon, true, 0); f->h = mc::mix(f->h, cur->h);
	return f;
}
int spawn(const char* name, std::function<void()> fn, bool harness) { Rt g; Fiber* f = create(name, nullptr, nullptr, std::move(fn), harness); return f->id; }
static void join_(Fiber* f) {
	block("join", f->canon, [f] { return f->done; });
	if (race::thread_join) race::thread_join(cur->id, f->id);
	event("join", f->canon, true, 0); cur->h = mc::mix(cur->h, f->h); f->joined = true;
}
void join(int id) { Rt g; join_(fib.at(id).get()); }

static void* dummy_thread(void*) { while (true) pause(); return nullptr; }

void run(const Options& o, const std::function<void()>& body) {
	if (!stackbase) {
		stackbase = (char*)mmap((void*)0x200000000000ull, MAXF * (STACK + GUARD), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (int i = 0; i < MAXF; i++) mprotect(stack_of(i), STACK, PROT_READ | PROT_WRITE);
	}
	static int dummypid = 0; // keeps the process multi-threaded for libstdc++
	if (dummypid != getpid()) { dummypid = getpid(); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 65536); pthread_t t; REAL(pthread_create, &t, &a, dummy_thread, nullptr); }
	static bool thrown = false; if (!thrown) { thrown = true; try { throw std::runtime_error("first"); } catch (const std::exception&) {} }
	find_tls(); opt = o; npoints = 0; streak = 0; quiet_ = false; vnow = T0; stepped = 0;
	objs.clear(); mtx.clear(); rws.clear(); conds.clear(); futs.clear(); fib.clear();
	cur = nullptr; rt_depth = 0;
	if (race::begin) race::begin();
	Fiber* m = mk("main", nullptr); m->harness = true;
	m->h = mc::mix(m->h, mc::path_hash());
	m->fn = [&] { body(); };
	g_on = true; sched_tp = __builtin_thread_pointer();
	memset(root_eh, 0, sizeof root_eh);
	switch_to(m);
	g_on = false; cur = nullptr;
	if (race::end) race::end();
	mc::note("points: " + std::to_string(npoints));
}
} // namespace sched

using namespace sched;

// ------------------------------------------------------------------ pthread
static pthread_t handle(int id) { return (pthread_t)(0x7f0000000000ull + id); }
static bool is_handle(pthread_t t) { return (uint64_t)t >= 0x7f0000000000ull && (uint64_t)t < 0x7f0000000000ull + MAXF; }
static Fiber* of(pthread_t t) { return fib.at((uint64_t)t - 0x7f0000000000ull).get(); }

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*start)(void*), void* arg) noexcept {
	if (!managed()) return REAL(pthread_create, t, a, start, arg);
	Rt g;
	if (thread_create_hook) { int e = thread_create_hook(); if (e) return e; }
	pt("pthread_create", nullptr);
	Fiber* f = create(("t" + std::to_string(fib.size())).c_str(), start, arg, nullptr, false);
	*t = handle(f->id); return 0;
}
int pthread_join(pthread_t t, void** ret) {
	if (!managed() || !is_handle(t)) return REAL(pthread_join, t, ret);
	Rt g; Fiber* f = of(t);
	if (f->joined || f->detached) mc::violate("double-join", "a thread was joined twice or after being detached");
	if (f == cur) return EDEADLK;
	join_(f); if (ret) *ret = f->ret; return 0;
}
int pthread_detach(pthread_t t) noexcept { if (!managed() || !is_handle(t)) return REAL(pthread_detach, t); of(t)->detached = true; return 0; }
pthread_t pthread_self() noexcept { if (!managed()) return REAL(pthread_self); return handle(cur->id); }
int pthread_setname_np(pthread_t t, const char* n) noexcept { if (!is_handle(t)) return REAL(pthread_setname_np, t, n); return 0; }

static int lock_(pthread_mutex_t* m, int64_t deadline, bool try_) {
	Rt g; poisoned(m, "mutex lock"); bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; bool ec = (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK;
	Fiber* me = cur;
	if (try_) {
		pt("mutex trylock", m); Mutex& x = mtx[m]; bool ok = x.owner < 0 || (rec && x.owner == me->id);
		event("trylock", (uint64_t)m, true, ok); if (!ok) return EBUSY;
	} else {
		{ Mutex& x = mtx[m]; if (x.owner == me->id && ec) return EDEADLK; }
		bool ok = block("mutex lock", (uint64_t)m, [m, rec, me] { Mutex& x = mtx[m]; return x.owner < 0 || (rec && x.owner == me->id); }, deadline);
		if (!ok) { event("locktimeout", (uint64_t)m, true, 1); return ETIMEDOUT; }
		poisoned(m, "mutex lock"); event("lock", (uint64_t)m, true, 0);
	}
	Mutex& x = mtx[m]; x.owner = me->id; x.count++;
	if (race::acquire) race::acquire(me->id, m);
	return 0;
}
static int unlock_(pthread_mutex_t* m) {
	Rt g; poisoned(m, "mutex unlock"); Mutex& x = mtx[m];
	if (x.owner != cur->id) mc::violate("bad-unlock", "a mutex is unlocked by a thread which does not hold it");
	if (race::release) race::release(cur->id, m);
	if (--x.count == 0) x.owner = -1;
	event("unlock", (uint64_t)m, true, 0); return 0;
}
static int64_t abs_to_v(clockid_t c, const struct timespec* ts) { int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec; if (c != CLOCK_REALTIME) return v; v = v - REAL0 - stepped + T0; if (v < 0) v = 0; if (cur) cur->on_real = true; return v; }

int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!managed()) return REAL(pthread_mutex_lock, m); return lock_(m, -1, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!managed()) return REAL(pthread_mutex_trylock, m); return lock_(m, -1, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { if (!managed()) return REAL(pthread_mutex_timedlock, m, ts); return lock_(m, abs_to_v(CLOCK_REALTIME, ts), false); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept { if (!managed()) return REAL(pthread_mutex_clocklock, m, c, ts); return lock_(m, abs_to_v(c, ts), false); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!managed()) return REAL(pthread_mutex_unlock, m); return unlock_(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (!managed()) return REAL(pthread_mutex_destroy, m); { Rt g; mtx.erase(m); }; return 0; }

static int rw_(pthread_rwlock_t* m, bool wr, bool try_, int64_t deadline) {
	Rt g; poisoned(m, "rwlock"); Fiber* me = cur;
	auto free_ = [m, wr] { RW& x = rws[m]; return x.writer < 0 && (!wr || x.readers.empty()); };
	if (try_) { pt("rwlock try", m); bool ok = free_(); event("rwtry", (uint64_t)m, true, ok); if (!ok) return EBUSY; }
	else { bool ok = block(wr ? "rwlock write lock" : "rwlock read lock", (uint64_t)m, free_, deadline); if (!ok) return ETIMEDOUT; poisoned(m, "rwlock"); event(wr ? "wrlock" : "rdlock", (uint64_t)m, wr, 0); }
	RW& x = rws[m]; if (wr) x.writer = me->id; else x.readers.push_back(me->id);
	if (race::acquire) { race::acquire(me->id, m); if (wr) race::acquire(me->id, (char*)m + 1); }
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (!managed()) return REAL(pthread_rwlock_rdlock, m); return rw_(m, false, false, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (!managed()) return REAL(pthread_rwlock_wrlock, m); return rw_(m, true, false, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (!managed()) return REAL(pthread_rwlock_tryrdlock, m); return rw_(m, false, true, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (!managed()) return REAL(pthread_rwlock_trywrlock, m); return rw_(m, true, true, -1); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
	if (!managed()) return REAL(pthread_rwlock_unlock, m);
	Rt g; poisoned(m, "rwlock unlock"); RW& x = rws[m];
	// a reader's release is ordered before a later writer, not before other readers
	if (race::release) race::release(cur->id, x.writer == cur->id ? (void*)m : (void*)((char*)m + 1));
	if (x.writer == cur->id) x.writer = -1;
	else { bool f = false; for (size_t i = 0; i < x.readers.size(); i++) if (x.readers[i] == cur->id) { x.readers.erase(x.readers.begin() + i); f = true; break; } if (!f) mc::violate("bad-unlock", "a rwlock is unlocked by a thread which does not hold it"); }
	event("rwunlock", (uint64_t)m, true, 0); return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept { if (!managed()) return REAL(pthread_rwlock_destroy, m); { Rt g; rws.erase(m); }; return 0; }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) noexcept { if (!managed()) return REAL(pthread_rwlock_init, m, a); memset(m, 0, sizeof *m); rws.erase(m); return 0; }

static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
	Rt g; poisoned(c, "condition wait");
	Waiter w{cur->id, false}; conds[c].push_back(&w);
	event("condwait", (uint64_t)c, true, 0);
	int cnt = mtx[m].count; (void)cnt;
	unlock_(m);
	bool spur = opt.spurious && mc::deviate(2);
	bool ok = spur || block("condition wait", (uint64_t)c, [&w] { return w.signalled; }, deadline);
	bool sig = w.signalled;
	auto& v = conds[c]; for (size_t i = 0; i < v.size(); i++) if (v[i] == &w) { v.erase(v.begin() + i); break; }
	event("condwake", (uint64_t)c, true, sig);
	lock_(m, -1, false);
	return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!managed()) return REAL(pthread_cond_wait, c, m); return cond_wait_(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!managed()) return REAL(pthread_cond_timedwait, c, m, ts); return cond_wait_(c, m, abs_to_v(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!managed()) return REAL(pthread_cond_clockwait, c, m, k, ts); return cond_wait_(c, m, abs_to_v(k, ts)); }
static int cond_sig(pthread_cond_t* c, bool all) {
	Rt g; poisoned(c, "condition signal"); pt(all ? "condition broadcast" : "condition signal", c); poisoned(c, "condition signal");
	int n = 0; for (auto* w : conds[c]) if (!w->signalled) { w->signalled = true; n++; if (!all) break; }
	event("condsignal", (uint64_t)c, true, n); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!managed()) return REAL(pthread_cond_signal, c); return cond_sig(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!managed()) return REAL(pthread_cond_broadcast, c); return cond_sig(c, true); }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (!managed()) return REAL(pthread_cond_destroy, c); { Rt g; conds.erase(c); }; return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { if (!managed()) return REAL(pthread_cond_init, c, a); memset(c, 0, sizeof *c); { Rt g; conds.erase(c); }; return 0; }

int pthread_once(pthread_once_t* o, void (*f)()) {
	if (!managed()) return REAL(pthread_once, o, f);
	Dl_info di; bool glob = dladdr(o, &di); // process-wide: what happens only the first time must not depend on the execution
	{ Rt g; poisoned(o, "once");
	if (glob) { if (*o == 1) block("once", (uint64_t)o, [o] { return *o != 1; }); }
	else if (*o != 2) { pt("once", o); if (*o == 1) block("once", (uint64_t)o, [o] { return *o != 1; }); }
	if (!glob) event("once", (uint64_t)o, *o != 2, *o);
	if (*o == 2) { if (race::acquire) race::acquire(cur->id, o); return 0; }
	*o = 1; }
	try { f(); } catch (...) { *o = 0; throw; }
	Rt g; *o = 2; if (race::release) race::release(cur->id, o); if (!glob) event("once", (uint64_t)o, true, 9); return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* gd) {
	volatile unsigned char* b = (volatile unsigned char*)gd;
	if (b[0]) { if (managed() && race::acquire) { Rt g; race::acquire(cur->id, gd); } return 0; }
	if (managed()) { Rt g; if (b[1]) block("static initialisation", (uint64_t)gd, [b] { return b[1] == 0; }); }
	if (b[0]) { if (managed() && race::acquire) { Rt g; race::acquire(cur->id, gd); } return 0; }
	b[1] = 1; if (managed()) { ++rt_depth; cur->guards++; } return 1;   // statics outlive the execution: use the normal heap
}
void __cxa_guard_release(long long* gd) noexcept { volatile unsigned char* b = (volatile unsigned char*)gd; b[1] = 0; b[0] = 1; if (managed()) { --rt_depth; cur->guards--; Rt g; if (race::release) race::release(cur->id, gd); } }
void __cxa_guard_abort(long long* gd) noexcept { volatile unsigned char* b = (volatile unsigned char*)gd; b[1] = 0; if (managed()) { --rt_depth; cur->guards--; } }

// ------------------------------------------------------------------ futex
long syscall(long n, ...) noexcept {
	va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
	if (!managed() || n != SYS_futex) {
		long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
		asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
		if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
	}
	Rt g; int* addr = (int*)a[0]; int op = a[1] & 127; int val = a[2]; const struct timespec* ts = (const struct timespec*)a[3];
	if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
		poisoned(addr, "futex wait");
		int64_t dl = -1; if (ts) { int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec; dl = op == FUTEX_WAIT ? vnow + v : abs_to_v((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
		pt("futex wait", addr);
		if (*(volatile int*)addr != val) { event("futexwait", (uint64_t)addr, true, 1); errno = EAGAIN; return -1; }
		Waiter w{cur->id, false}; futs[addr].push_back(&w); event("futexwait", (uint64_t)addr, true, 0);
		bool ok = block("futex wait", (uint64_t)addr, [&w] { return w.signalled; }, dl);
		auto& v = futs[addr]; for (size_t i = 0; i < v.size(); i++) if (v[i] == &w) { v.erase(v.begin() + i); break; }
		event("futexwoke", (uint64_t)addr, true, ok);
		if (!ok) { errno = ETIMEDOUT; return -1; }
		return 0;
	}
	if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
		pt("futex wake", addr); int k = 0; for (auto* w : futs[addr]) if (!w->signalled && k < val) { w->signalled = true; k++; }
		event("futexwake", (uint64_t)addr, true, k); return k;
	}
	errno = ENOSYS; return -1;
}

// ------------------------------------------------------------------ time
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
	if (!managed()) { long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"((long)c), "S"(ts) : "rcx", "r11", "memory"); if (r < 0) { errno = -r; return -1; } return 0; }
	int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? vnow - T0 + REAL0 + stepped : vnow;
	ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; cur->h = mc::mix(cur->h, vnow); return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec* ts, struct timespec* rem) {
	if (!managed()) return REAL(nanosleep, ts, rem);
	Rt g; block("sleep", 0, nullptr, vnow + ts->tv_sec * 1000000000ll + ts->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
	if (!managed()) return REAL(clock_nanosleep, c, flags, ts, rem);
	Rt g; block("sleep", 0, nullptr, (flags & TIMER_ABSTIME) ? abs_to_v(c, ts) : vnow + ts->tv_sec * 1000000000ll + ts->tv_nsec); return 0;
}
int usleep(useconds_t us) { if (!managed()) return REAL(usleep, us); Rt g; block("sleep", 0, nullptr, vnow + us * 1000ll); return 0; }
unsigned sleep(unsigned s) { if (!managed()) return REAL(sleep, s); Rt g; block("sleep", 0, nullptr, vnow + s * 1000000000ll); return 0; }
int sched_yield() noexcept { if (!managed()) return REAL(sched_yield); sched::yield(); return 0; }

// ------------------------------------------------------------------ log output
static bool logs(FILE* f) { return managed() && (f == stdout || f == stderr); }
static void logout(FILE* f, const void* p, size_t n) { Rt g; pt("log write", f); event("logwrite", (uint64_t)f, true, 0); if (g_capture) g_capture->append((const char*)p, n); }
size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) {
	if (logs(f)) { logout(f, p, sz * n); return n; }
	return REAL(fwrite, p, sz, n, f);
}
size_t fwrite_unlocked(const void* p, size_t sz, size_t n, FILE* f) { return fwrite(p, sz, n, f); }
int fputs(const char* s, FILE* f) { if (logs(f)) { logout(f, s, strlen(s)); return 1; } return REAL(fputs, s, f); }
int puts(const char* s) { if (managed()) { std::string t; { Rt g; t = std::string(s) + "\n"; } logout(stdout, t.data(), t.size()); Rt g; t = std::string(); return 1; } return REAL(puts, s); }
int fputc(int c, FILE* f) { if (logs(f)) { char k = c; logout(f, &k, 1); return c; } return REAL(fputc, c, f); }
#undef putc
int putc(int c, FILE* f) { if (logs(f)) { char k = c; logout(f, &k, 1); return c; } return REAL(fputc, c, f); }
#undef putchar
int putchar(int c) { return fputc(c, stdout); }
int vfprintf(FILE* f, const char* m, va_list ap) {
	if (!logs(f)) return REAL(vfprintf, f, m, ap);
	Rt g; va_list cp; va_copy(cp, ap); int n = vsnprintf(nullptr, 0, m, cp); va_end(cp); if (n < 0) return n; std::string s(n + 1, 0); vsnprintf(s.data(), n + 1, m, ap); logout(f, s.data(), n); return n;
}
int fprintf(FILE* f, const char* m, ...) { va_list ap; va_start(ap, m); int n = vfprintf(f, m, ap); va_end(ap); return n; }
int printf(const char* m, ...) { va_list ap; va_start(ap, m); int n = vfprintf(stdout, m, ap); va_end(ap); return n; }
int vprintf(const char* m, va_list ap) { return vfprintf(stdout, m, ap); }
int __fprintf_chk(FILE* f, int, const char* m, ...) { va_list ap; va_start(ap, m); int n = vfprintf(f, m, ap); va_end(ap); return n; }
int __printf_chk(int, const char* m, ...) { va_list ap; va_start(ap, m); int n = vfprintf(stdout, m, ap); va_end(ap); return n; }
int fflush(FILE* f) { if (managed() && rt_depth == 0) return 0; return REAL(fflush, f); }
} // extern "C"
