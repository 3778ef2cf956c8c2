#include "explore.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <algorithm>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t) __attribute__((weak));

namespace sched { extern int rt_depth __attribute__((weak)); }
namespace mc {
// the explorer's own memory must not come from the arena of the code under test
struct RtGuard { RtGuard() { if (&sched::rt_depth) ++sched::rt_depth; } ~RtGuard() { if (&sched::rt_depth) --sched::rt_depth; } };

static const int MAXW = 16, SLOT_CH = 500, QCAP = 4096, NSAMPLE = 6, MAXSCN = 4096, NKNOWN = 64, HISTCAP = 1 << 17;
enum { EXIT_VIOLATION = 77, EXIT_DIVERGED = 78 };

struct Item { uint32_t scn, len; uint16_t ch[SLOT_CH]; };
struct WorkerSlot {
	std::atomic<uint64_t> beat;
	uint32_t scn; uint32_t len; uint16_t ch[8192];
	std::atomic<uint32_t> running;
	char key[200]; char msg[4000]; char trace[12000]; uint32_t has_violation;
	uint64_t executions, transitions, nontrivial, maxlen, pruned, diverged;
	uint64_t devhist[8];
	uint32_t capped;
	int pid;
	uint32_t histlen; uint16_t hist[HISTCAP];   // the executions of this process so far (the latest ones): scenario, length, prefix
};
struct Shared {
	std::atomic<int> lock;
	std::atomic<uint32_t> stop, nextscn, idle, abandoned;
	uint32_t qhead, qlen;
	Item q[QCAP];
	WorkerSlot w[MAXW];
	std::atomic<uint64_t> scnexec[MAXSCN];
	char sample[NSAMPLE][3000]; std::atomic<uint32_t> nsample;
	std::atomic<uint32_t> knownhits[NKNOWN];
};
static Shared* sh;

static void lk() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; ::syscall(SYS_sched_yield); } }
static void ulk() { sh->lock.store(0); }

// open-addressing hash set of 64-bit values
struct HSet {
	std::vector<uint64_t> t; size_t n = 0; bool full = false;
	size_t maxn = 24u << 20;
	HSet() : t(1 << 12) {}
	bool ins(uint64_t h) {
		if (!h) h = 1;
		if (full) { return find(h) ? false : true; }
		size_t m = t.size() - 1, i = h & m;
		while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
		t[i] = h; n++;
		if (n * 2 > t.size()) {
			if (n >= maxn) { full = true; return true; }
			std::vector<uint64_t> o(t.size() * 2); o.swap(t); m = t.size() - 1;
			for (auto v : o) if (v) { size_t j = v & m; while (t[j]) j = (j + 1) & m; t[j] = v; }
		}
		return true;
	}
	bool find(uint64_t h) { size_t m = t.size() - 1, i = h & m; while (t[i]) { if (t[i] == h) return true; i = (i + 1) & m; } return false; }
};

static const Config* cfg;
static std::vector<Scenario>* scns;
static int me = 0;
static bool g_thorough = false; static uint64_t g_seed = 1;
static HSet *states, *outcomes, *visited;
static bool g_abandoned;
static bool is_replay = false, warming = false;
static std::map<std::string, int> known;    // known finding key -> index
static std::vector<std::string> knowntext;

struct Pt { uint16_t n, c; uint8_t dev, noexp; };
static std::vector<Pt> tr;
static const uint16_t* prefix; static size_t prefixlen;
static int devs, bound; static bool pruned_now, trace_on, nontriv;
static std::string* tracebuf;

bool thorough() { static bool t = [] { const char* e = getenv("VERIF_TIER"); return e && !strcmp(e, "thorough"); }(); return t; }
bool past_prefix() { return tr.size() >= prefixlen; }
uint64_t path_hash() { uint64_t h = 0x77 + sh->w[me].scn; for (auto& p : tr) h = mix(h, p.c + 1); return h; }
uint64_t seed() { return g_seed; }
void beat() { sh->w[me].beat.fetch_add(1, std::memory_order_relaxed); }
bool tracing() { return trace_on; }
void note(const std::string& s) { RtGuard g; if (trace_on && tracebuf->size() < 11000) { *tracebuf += s; *tracebuf += '\n'; if (is_replay) snprintf(sh->w[me].trace, sizeof sh->w[me].trace, "%s", tracebuf->c_str()); } }
void nontrivial() { nontriv = true; }
int budget_left() { return bound - devs; }
void set_prune(bool p) { pruned_now = pruned_now || p; }
bool seen_state(uint64_t h) { if (warming) return false; RtGuard g; return !visited->ins(h); }

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
	const unsigned char* b = (const unsigned char*)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
	uint64_t v = n + 0x100; while (n--) v = v * 257 + *b++ + 1;
	return mix(h, v);
}
std::string show(const std::string& s, size_t max) {
	std::string o; char t[8];
	for (size_t i = 0; i < s.size(); i++) {
		if (i >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		unsigned char c = s[i];
		if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\";
		else if (c < 32 || c > 126) { snprintf(t, 8, "\\x%02x", c); o += t; } else o += (char)c;
	}
	return o;
}
std::string show(const std::vector<uint8_t>& s, size_t max) { return show(std::string(s.begin(), s.end()), max); }

[[noreturn]] static void die(int code) {
	fflush(nullptr);
	_exit(code);
}

static int pick(int n, bool dev) {
	RtGuard g;
	if (n <= 0) n = 1;
	if (n > 65535) n = 65535;
	size_t i = tr.size(); int c = 0;
	if (i < prefixlen) {
		c = prefix[i];
		if (c >= n) {
			fprintf(stderr, "[mc] DIVERGENCE: replayed choice %d of %d at point %zu\n", c, n, i);
			die(EXIT_DIVERGED);
		}
	}
	tr.push_back(Pt{(uint16_t)n, (uint16_t)c, dev, (uint8_t)(pruned_now && i >= prefixlen)});
	if (dev && c) devs++;
	WorkerSlot& w = sh->w[me];
	if (i < 8192) { w.ch[i] = c; w.len = i + 1; }
	w.beat.fetch_add(1, std::memory_order_relaxed);
	return c;
}
int choose(int n) { if (n <= 1) return 0; return pick(n, false); }
int deviate(int n) { if (n <= 1) return 0; if (tr.size() >= prefixlen && devs >= bound) return 0;
	// a point with no budget left is not recorded; replays see the same budget, so stay in step
	if (devs >= bound) return 0;
	return pick(n, true); }

void step(uint64_t h) { if (warming) return; RtGuard g; WorkerSlot& w = sh->w[me]; w.transitions++; states->ins(h); w.beat.fetch_add(1, std::memory_order_relaxed); }
void outcome(uint64_t h) { if (warming) return; RtGuard g; outcomes->ins(h); }

void violate(const std::string& key, const std::string& msg) {
	if (&sched::rt_depth) ++sched::rt_depth;
	auto k = known.find(key);
	if (k != known.end()) {
		sh->knownhits[k->second].fetch_add(1);
		sh->abandoned.fetch_add(1);
		throw Abandon{};
	}
	WorkerSlot& w = sh->w[me];
	if (!w.has_violation) {
		snprintf(w.key, sizeof w.key, "%s", key.c_str());
		snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
		snprintf(w.trace, sizeof w.trace, "%s", tracebuf ? tracebuf->c_str() : "");
		w.has_violation = 1;
	}
	fprintf(stderr, "[mc] violation %s: %s\n", key.c_str(), msg.c_str());
	die(EXIT_VIOLATION);
}

static void remember(uint32_t scn, const uint16_t* p, size_t plen) {
	WorkerSlot& w = sh->w[me]; if (plen > 8192) return;
	if (w.histlen + plen + 2 > HISTCAP) { uint32_t i = 0; while (i < w.histlen / 2) i += w.hist[i + 1] + 2; memmove(w.hist, w.hist + i, (w.histlen - i) * 2); w.histlen -= i; }
	w.hist[w.histlen++] = scn; w.hist[w.histlen++] = plen; memcpy(w.hist + w.histlen, p, plen * 2); w.histlen += plen;
}
static void exec_once(uint32_t scn, const uint16_t* p, size_t plen, bool counted, bool traced) {
	WorkerSlot& w = sh->w[me];
	w.scn = scn; w.len = 0; w.running.store(1);
	tr.clear(); prefix = p; prefixlen = plen; devs = 0; bound = (*scns)[scn].bound;
	pruned_now = false; nontriv = false; g_abandoned = false;
	trace_on = traced; tracebuf->clear();
	w.beat.fetch_add(1);
	try { (*scns)[scn].body(); }
	catch (const Abandon&) { g_abandoned = true; }
	if (tr.size() < plen) { fprintf(stderr, "[mc] DIVERGENCE: execution ended after %zu of %zu replayed choices\n", tr.size(), plen); die(EXIT_DIVERGED); }
	w.running.store(0);
	if (counted) {
		w.executions++; sh->scnexec[scn].fetch_add(1);
		if (nontriv) w.nontrivial++;
		if (tr.size() > w.maxlen) w.maxlen = tr.size();
		w.devhist[std::min(devs, 7)]++;
	}
}

// first executions differ (function-local statics, lazily made tables): run the default path once before counting
static void warm(uint32_t scn) {
	static std::set<uint32_t> done; if (!cfg->warmup || !done.insert(scn).second) return;
	warming = true; exec_once(scn, nullptr, 0, false, is_replay); warming = false;
}

struct Local { uint32_t scn; std::vector<uint16_t> ch; };

static void expand(uint32_t scn, size_t plen, std::vector<Local>& out) {
	// children: flip each point at or after plen to each alternative, deepest last so that DFS keeps short prefixes for donation
	int b = (*scns)[scn].bound, d = 0;
	std::vector<uint16_t> cur; cur.reserve(tr.size());
	std::vector<Local> tmp;
	for (size_t i = 0; i < tr.size(); i++) {
		if (i >= plen && !tr[i].noexp) {
			if (!tr[i].dev || d < b) {
				for (int a = 1; a < tr[i].n; a++) {
					Local l; l.scn = scn; l.ch = cur; l.ch.push_back(a);
					out.push_back(std::move(l));
				}
			}
		}
		cur.push_back(tr[i].c);
		if (tr[i].dev && tr[i].c) d++;
		if (tr[i].noexp) { sh->w[me].pruned++; break; }
	}
}

static bool qpop(Local& o) {
	bool ok = false;
	lk();
	if (sh->qlen) {
		Item& it = sh->q[sh->qhead]; o.scn = it.scn; o.ch.assign(it.ch, it.ch + it.len);
		sh->qhead = (sh->qhead + 1) % QCAP; sh->qlen--; ok = true;
	}
	ulk();
	return ok;
}
static bool qpush(const Local& l) {
	if (l.ch.size() > SLOT_CH) return false;
	bool ok = false;
	lk();
	if (sh->qlen < QCAP) {
		Item& it = sh->q[(sh->qhead + sh->qlen) % QCAP]; it.scn = l.scn; it.len = l.ch.size();
		std::copy(l.ch.begin(), l.ch.end(), it.ch); sh->qlen++; ok = true;
	}
	ulk();
	return ok;
}

// on a confirmed leak: one more repetition with every allocation recorded, to say where the lost blocks come from
struct LeakRec { const volatile void* p; size_t n; void* pc[24]; int k; };
static LeakRec* lrec; static size_t lkn; static bool lkon, lkrec = true, lkin;
static void lk_malloc(const volatile void* p, size_t n) { if (!lkon || !lkrec || lkin || lkn >= 400000) return; lkin = true; auto& r = lrec[lkn++]; r.p = p; r.n = n; r.k = backtrace(r.pc, 24); lkin = false; }
static void lk_free(const volatile void* p) { if (!lkon || lkin) return; for (size_t i = lkn; i-- > 0;) if (lrec[i].p == p) { lrec[i] = lrec[--lkn]; return; } }
static void trace_leak(uint32_t scn, const Local& it) {
	if (!__sanitizer_install_malloc_and_free_hooks || !__sanitizer_symbolize_pc) return;
	void* warm[4]; backtrace(warm, 4);
	lrec = (LeakRec*)mmap(nullptr, sizeof(LeakRec) * 400000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); lkn = 0;
	__sanitizer_install_malloc_and_free_hooks(lk_malloc, lk_free);
	std::vector<Pt> keep; keep.swap(tr); lkon = true;
	exec_once(scn, it.ch.data(), it.ch.size(), false, false);
	lkrec = false;   // what is still there after two more repetitions is not just kept until the next one
	for (int r = 0; r < 2; r++) exec_once(scn, it.ch.data(), it.ch.size(), false, false);
	lkon = false;
	for (size_t i = 0; i < lkn && i < 12; i++) {
		fprintf(stderr, "left allocated: %zu bytes from\n", lrec[i].n);
		for (int j = 2; j < lrec[i].k; j++) { char b[400]; __sanitizer_symbolize_pc((char*)lrec[i].pc[j] - 1, "    %f %s:%l", b, sizeof b); fprintf(stderr, "%s\n", b); }
	}
	tr.swap(keep);
}
static void run_leakcheck(uint32_t scn, const Local& it, bool say = false) {
	if (!__sanitizer_get_current_allocated_bytes) return;
	size_t grow[3];
	for (int r = 0; r < 3; r++) {
		size_t a = __sanitizer_get_current_allocated_bytes();
		std::vector<Pt> keep; keep.swap(tr);
		size_t a2 = __sanitizer_get_current_allocated_bytes(); (void)a2;
		exec_once(scn, it.ch.data(), it.ch.size(), false, false);
		tr.swap(keep);
		{ std::vector<Pt> z; z.swap(keep); }
		size_t b = __sanitizer_get_current_allocated_bytes();
		grow[r] = b > a ? b - a : 0;
	}
	if (grow[0] && grow[1] && grow[2] && say) trace_leak(scn, it);
	if (grow[0] && grow[1] && grow[2])
		violate("leak", "every repetition of this execution leaves " + std::to_string(grow[2]) + " more bytes allocated");
}

static void worker(int nworkers) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	static std::string tb; tracebuf = &tb; tb.reserve(16384);
	states = new HSet; outcomes = new HSet; visited = new HSet; visited->maxn = 12u << 20;
	tr.reserve(4096);
	if (cfg->worker_init) cfg->worker_init();
	WorkerSlot& w = sh->w[me]; w.histlen = 0;
	std::vector<Local> st;
	bool idle = false;
	while (!sh->stop.load()) {
		if (st.empty()) {
			Local l;
			if (qpop(l)) { if (idle) { sh->idle.fetch_sub(1); idle = false; } st.push_back(std::move(l)); }
			else {
				uint32_t s = sh->nextscn.load();
				bool got = false;
				while (s < scns->size()) if (sh->nextscn.compare_exchange_weak(s, s + 1)) { got = true; break; }
				if (got) { if (idle) { sh->idle.fetch_sub(1); idle = false; } l.scn = s; l.ch.clear(); st.push_back(std::move(l)); }
				else {
					if (!idle) { idle = true; sh->idle.fetch_add(1); }
					if ((int)sh->idle.load() >= nworkers && sh->qlen == 0) break;
					w.beat.fetch_add(1);
					struct timespec ts = {0, 300000}; ::syscall(SYS_nanosleep, &ts, nullptr);
					continue;
				}
			}
		}
		if (st.size() > 1 && sh->qlen < (uint32_t)nworkers * 2) {
			size_t k = std::min<size_t>(st.size() / 2, 64), moved = 0;
			while (moved < k && qpush(st[moved])) moved++;
			st.erase(st.begin(), st.begin() + moved);
		}
		Local it = std::move(st.back()); st.pop_back();
		warm(it.scn);
		uint64_t ex = w.executions;
		bool sample = (ex == 0 || ex == 3 || (ex & (ex - 1)) == 0) && sh->nsample.load() < NSAMPLE;
		exec_once(it.scn, it.ch.data(), it.ch.size(), true, sample);
		remember(it.scn, it.ch.data(), it.ch.size());
		if (sample && !tb.empty() && (nontriv || ex > 64)) {
			uint32_t k = sh->nsample.fetch_add(1);
			if (k < NSAMPLE) snprintf(sh->sample[k], sizeof sh->sample[k], "[%s] %s", (*scns)[it.scn].name.c_str(), tb.c_str());
		}
		expand(it.scn, it.ch.size(), st);
		if (cfg->leak_check && !g_abandoned) { auto b = devs; run_leakcheck(it.scn, it); devs = b; }
	}
	w.capped = states->full || outcomes->full;
	auto dump = [&](const char* nm, HSet* s) {
		char fn[PATH_MAX]; snprintf(fn, sizeof fn, "%s.%s.%d", getenv("MC_TMP"), nm, me);
		FILE* f = fopen(fn, "wb"); if (!f) return;
		for (auto v : s->t) if (v) fwrite(&v, 8, 1, f);
		fclose(f);
	};
	dump("st", states); dump("oc", outcomes);
	die(0);
}

static double now() { struct timespec t; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void msleep(int ms) { struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L}; ::syscall(SYS_nanosleep, &ts, nullptr); }

static size_t rss_mb(int pid) {
	char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/statm", pid);
	FILE* f = fopen(fn, "r"); if (!f) return 0;
	unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f);
	return b * 4096 / (1 << 20);
}

static void redirect(const std::string& fn) {
	int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

static std::string jesc(const std::string& s) {
	std::string o; char t[8];
	for (unsigned char c : s) {
		if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
		else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); o += t; } else o += (char)c;
	}
	return o;
}

// Runs one execution in a child; returns 0 ok, else kind of failure. Fills key/msg/trace through slot MAXW-1.
static std::string fail_kind(int status, bool hang, bool mem, WorkerSlot& w) {
	if (hang) return "hang";
	if (mem) return "runaway-memory";
	if (WIFEXITED(status)) {
		int c = WEXITSTATUS(status);
		if (c == 0) return "";
		if (c == EXIT_VIOLATION && w.has_violation) return w.key;
		if (c == EXIT_DIVERGED) return "diverged";
		if (c == 99) return "memory-error";
		return "process-exit";
	}
	return "crash";
}

// prior: executions that go before it in the same process (behaviour may depend on what the process did earlier)
static std::string solo(uint32_t scn, const std::vector<uint16_t>& ch, int limit_s, const std::string& log, bool leakcheck, const std::vector<Local>& prior = {}) {
	WorkerSlot& w = sh->w[MAXW - 1];
	w.has_violation = 0; w.key[0] = w.msg[0] = w.trace[0] = 0; w.len = 0;
	fflush(nullptr);
	int pid = fork();
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (!log.empty()) redirect(log);
		me = MAXW - 1; is_replay = true;
		static std::string tb; tracebuf = &tb;
		states = new HSet; outcomes = new HSet; visited = new HSet;
		if (cfg->worker_init) cfg->worker_init();
		Local l; l.scn = scn; l.ch = ch;
		for (auto& b : prior) { warm(b.scn); exec_once(b.scn, b.ch.data(), b.ch.size(), false, false); }
		warm(scn);
		exec_once(scn, l.ch.data(), l.ch.size(), false, true);
		if (leakcheck) run_leakcheck(scn, l, true);
		snprintf(w.trace, sizeof w.trace, "%s", tb.c_str());
		die(0);
	}
	double t0 = now(); int status = 0; bool hang = false, mem = false;
	while (true) {
		int r = waitpid(pid, &status, WNOHANG);
		if (r == pid) break;
		if (now() - t0 > limit_s) hang = true;
		if (rss_mb(pid) > cfg->rss_limit_mb) mem = true;
		if (hang || mem) { kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
		msleep(5);
	}
	return fail_kind(status, hang, mem, w);
}

static std::string slurp(const std::string& fn, size_t max) {
	std::ifstream f(fn, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {});
	if (s.size() > max) s = s.substr(0, max);
	return s;
}

static std::string asan_summary(const std::string& log) {
	std::istringstream is(log); std::string line, out; int n = 0;
	while (std::getline(is, line)) {
		if (line.find("ERROR: ") != std::string::npos || line.find("runtime error:") != std::string::npos || line.find("SUMMARY:") != std::string::npos ||
			line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos ||
			(line.find("    #") == 0 && n < 14)) { out += line + "\n"; n++; }
	}
	return out;
}

int run(int argc, char** argv, const Config& c, std::vector<Scenario> sc) {
	cfg = &c; scns = &sc;
	std::string evidence, replay, knownfile, tmp = "/tmp/mc." + std::to_string(getpid()), replaydir = ".", only;
	int nw = 8;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
		if (a == "--evidence") evidence = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") knownfile = nx();
		else if (a == "--tmp") tmp = nx(); else if (a == "--replaydir") replaydir = nx(); else if (a == "-j") nw = atoi(nx().c_str());
		else if (a == "--only") only = nx();
	}
	if (nw > MAXW - 1) nw = MAXW - 1;
	if (const char* t = getenv("VERIF_TIER")) g_thorough = !strcmp(t, "thorough");
	if (const char* s = getenv("VERIF_SEED")) g_seed = strtoull(s, nullptr, 10);
	if (!only.empty()) { std::vector<Scenario> f; for (auto& s : sc) if (s.name.find(only) != std::string::npos) f.push_back(s); sc = f; }
	setenv("MC_TMP", tmp.c_str(), 1);
	if (sc.size() > MAXSCN) { fprintf(stderr, "too many scenarios\n"); return 2; }
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	// known findings: lines "property|key|text"
	if (!knownfile.empty()) {
		std::ifstream f(knownfile); std::string line;
		while (std::getline(f, line)) {
			auto a = line.find('|'), b = line.find('|', a + 1);
			if (a == std::string::npos || b == std::string::npos || line.substr(0, a) != c.property) continue;
			if (known.size() >= NKNOWN) break;
			known[line.substr(a + 1, b - a - 1)] = knowntext.size(); knowntext.push_back(line.substr(b + 1));
		}
	}
	double t0 = now();
	if (!replay.empty()) {
		std::ifstream f(replay); std::string name, w; std::vector<uint16_t> ch; uint32_t scn = ~0u; std::string line; std::vector<Local> prior;
		while (std::getline(f, line)) {
			if (line.rfind("scenario ", 0) == 0) name = line.substr(9);
			if (line == "message") break;
			if (line.rfind("prior ", 0) == 0) { size_t e = line.find(':'); Local l; l.scn = ~0u; for (size_t i = 0; i < sc.size(); i++) if (sc[i].name == line.substr(6, e - 6)) l.scn = i; if (l.scn == ~0u) continue; std::istringstream is(line.substr(e + 1)); int v; while (is >> v) l.ch.push_back(v); prior.push_back(l); }
			if (line.rfind("choices", 0) == 0) { std::istringstream is(line.substr(7)); int v; while (is >> v) ch.push_back(v); }
		}
		for (size_t i = 0; i < sc.size(); i++) if (sc[i].name == name) scn = i;
		if (scn == ~0u) { printf("replay: unknown scenario %s\n", name.c_str()); return 2; }
		std::string k = solo(scn, ch, prior.empty() ? 60 : 200, "", c.leak_check, prior);
		WorkerSlot& w2 = sh->w[MAXW - 1];
		printf("replay of %s: %s\n%s\n--- trace\n%s\n", name.c_str(), k.empty() ? "no violation" : k.c_str(), w2.msg, w2.trace);
		if (!k.empty()) printf("VIOLATION property=%s replay=%s\n", c.property.c_str(), replay.c_str());
		return k.empty() ? 0 : 1;
	}
	sh->nextscn = 0;
	std::vector<std::string> logs;
	std::vector<uint64_t> lastbeat(nw); std::vector<double> lastt(nw);
	auto spawn = [&](int i) {
		fflush(nullptr);
		int pid = fork();
		if (!pid) { me = i; redirect(tmp + ".log." + std::to_string(i)); worker(nw); }
		sh->w[i].pid = pid; lastbeat[i] = sh->w[i].beat.load(); lastt[i] = now();
	};
	for (int i = 0; i < nw; i++) { logs.push_back(tmp + ".log." + std::to_string(i)); spawn(i); }
	int alive = nw; bool violated = false, incomplete = false; int unconfirmed = 0, histtries = 0;
	std::string vpath, vkey, vmsg;
	std::vector<std::string> unconf;
	uint64_t rounds = 0;
	while (alive > 0) {
		msleep(5); rounds++;
		for (int i = 0; i < nw && !violated; i++) {
			WorkerSlot& w = sh->w[i];
			if (!w.pid) continue;
			int status; bool hang = false, mem = false;
			int r = waitpid(w.pid, &status, WNOHANG);
			if (r == 0) {
				uint64_t b = w.beat.load();
				if (b != lastbeat[i]) { lastbeat[i] = b; lastt[i] = now(); }
				else if (now() - lastt[i] > c.hang_s && w.running.load()) hang = true;
				if ((rounds & 31) == 0 && rss_mb(w.pid) > c.rss_limit_mb) mem = true;
				if (!hang && !mem) continue;
				kill(w.pid, SIGKILL); waitpid(w.pid, &status, 0);
			}
			w.pid = 0; alive--;
			std::string kind = fail_kind(status, hang, mem, w);
			if (kind.empty()) continue;
			// a worker failed: confirm by replaying the exact execution in a fresh process, twice
			std::vector<uint16_t> ch(w.ch, w.ch + std::min<uint32_t>(w.len, 8192));
			uint32_t scn = w.scn; bool leak = kind == "leak";
			std::string key1 = kind, msg1 = w.has_violation ? w.msg : "";
			std::string log = slurp(logs[i], 200000);
			std::string l1 = tmp + ".solo";
			std::string k1 = kind == "diverged" ? "diverged" : solo(scn, ch, std::max(60, 2 * c.hang_s), l1, leak);
			bool bad = !k1.empty() && k1 != "diverged";
			if (bad && kind != "hang") { std::string k2 = solo(scn, ch, std::max(60, 2 * c.hang_s), l1, leak); bad = !k2.empty() && k2 != "diverged"; if (bad) k1 = k2; }
			// or what the process did before matters: repeat (the latest part of) that too
			std::vector<Local> prior;
			if (!bad && kind != "diverged" && kind != "hang" && kind != "runaway-memory" && !leak && histtries++ < 6) {
				std::vector<Local> h; for (uint32_t j = 0; j + 2 <= w.histlen; j += w.hist[j + 1] + 2) { Local l; l.scn = w.hist[j]; l.ch.assign(w.hist + j + 2, w.hist + j + 2 + w.hist[j + 1]); h.push_back(l); }
				auto last = [&](size_t n) { return std::vector<Local>(h.end() - std::min(n, h.size()), h.end()); };
				for (size_t n : {(size_t)1, (size_t)8, (size_t)64, (size_t)512, (size_t)4096, h.size()}) {
					if (n > 1 && n / 8 >= h.size()) break;
					auto p = last(n); std::string a = solo(scn, ch, 100, l1, false, p); if (a != kind) continue;
					if (solo(scn, ch, 100, l1, false, p) == kind) { prior = p; bad = true; k1 = kind; break; }
				}
			}
			if (bad && known.count(k1)) { // crash-like known finding
				sh->knownhits[known[k1]].fetch_add(1); incomplete = true; w.has_violation = 0; spawn(i); alive++; continue;
			}
			if (!bad) {
				unconfirmed++; incomplete = true; unconf.push_back(sc[scn].name + ": " + key1 + " " + msg1);
				fprintf(stderr, "[mc] unconfirmed %s in scenario %s: %s\n%s\n", kind.c_str(), sc[scn].name.c_str(), msg1.c_str(), asan_summary(log).c_str());
				if (kind == "diverged") { // not deterministic: keep the choices so that it can be looked at
					std::ofstream f(replaydir + "/" + c.property + ".diverged"); f << "property " << c.property << "\nscenario " << sc[scn].name << "\nchoices"; for (auto v : ch) f << " " << v; f << "\nlog\n" << log;
				}
				w.has_violation = 0;
				if (unconfirmed < 20 && !violated) { spawn(i); alive++; }
				continue;
			}
			if (!violated) {
				violated = true; sh->stop = 1;
				// greedy simplification: zero choices from the end while the same failure persists
				int tries = 0; double ts = now();
				std::string klast = k1;
				if (k1 != "hang" && k1 != "runaway-memory" && prior.empty())
				for (int j = (int)ch.size() - 1; j >= 0 && tries < 40 && now() - ts < 15; j--) {
					if (!ch[j]) continue;
					auto c2 = ch; c2[j] = 0; tries++;
					while (!c2.empty() && c2.back() == 0) c2.pop_back();
					std::string k = solo(scn, c2, 20, l1, leak);
					if (k == klast) ch = c2;
				}
				std::string kf = k1 == "hang" ? k1 : solo(scn, ch, std::max(60, 2 * c.hang_s), l1, leak, prior);
				WorkerSlot& sw = sh->w[MAXW - 1];
				std::string slog = slurp(l1, 200000);
				vkey = kf.empty() ? k1 : kf; vmsg = sw.has_violation ? sw.msg : asan_summary(slog);
				mkdir(replaydir.c_str(), 0755);
				vpath = replaydir + "/" + c.property + ".replay";
				std::ofstream o(vpath);
				o << "property " << c.property << "\nscenario " << sc[scn].name << "\nkind " << vkey << "\n"; for (auto& b : prior) { o << "prior " << sc[b.scn].name << ":"; for (auto v : b.ch) o << ' ' << v; o << "\n"; } o << "choices";
				for (auto v : ch) o << ' ' << v;
				o << "\nmessage\n" << vmsg << "\ntrace\n" << sw.trace << "\nlog\n" << slog.substr(0, 20000) << "\n";
			}
		}
		if (now() - t0 > c.deadline_s && !sh->stop.load()) { sh->stop = 1; incomplete = true; fprintf(stderr, "[mc] time cap reached\n"); }
		if (sh->stop.load() && violated) for (int i = 0; i < nw; i++) if (sh->w[i].pid) { kill(sh->w[i].pid, SIGKILL); waitpid(sh->w[i].pid, nullptr, 0); sh->w[i].pid = 0; alive--; }
	}
	auto merge = [&](const char* nm) {
		std::vector<uint64_t> v;
		for (int i = 0; i < nw; i++) {
			std::string fn = tmp + "." + nm + "." + std::to_string(i);
			std::string s = slurp(fn, SIZE_MAX); size_t o = v.size(); v.resize(o + s.size() / 8); memcpy(v.data() + o, s.data(), s.size() / 8 * 8);
			unlink(fn.c_str());
		}
		std::sort(v.begin(), v.end()); return (size_t)(std::unique(v.begin(), v.end()) - v.begin());
	};
	size_t nst = merge("st"), noc = merge("oc");
	uint64_t ex = 0, trn = 0, nt = 0, ml = 0, pr = 0, dv[8] = {0}; bool capped = false;
	for (int i = 0; i < nw; i++) {
		auto& w = sh->w[i]; ex += w.executions; trn += w.transitions; nt += w.nontrivial; ml = std::max(ml, w.maxlen); pr += w.pruned; capped |= w.capped;
		for (int k = 0; k < 8; k++) dv[k] += w.devhist[k];
	}
	double wall = now() - t0;
	if (!evidence.empty()) {
		std::ofstream o(evidence);
		o << "{\n \"property\": \"" << c.property << "\", \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\", \"seed\": " << g_seed << ", \"level\": \"" << c.level << "\",\n \"coverage\": {\n";
		if (c.level == "model_checking") o << "  \"states\": " << nst << ", \"transitions\": " << trn << ", \"traces_validated_against_impl\": " << ex << ", \"distinct_outcomes\": " << noc << ",\n";
		else o << "  \"evaluations\": " << ex << ", \"distinct_nontrivial\": " << (noc ? noc : nt) << ", \"distinct_crash_states\": " << nst << ",\n";
		o << "  \"rule\": \"" << jesc(c.rule) << "\",\n";
		o << "  \"exhaustive\": " << ((violated || incomplete) ? "false" : "true") << ", \"state_count_is_lower_bound\": " << (capped ? "true" : "false") << ",\n";
		o << "  \"max_choice_points\": " << ml << ", \"points_pruned_as_already_explored\": " << pr << ", \"unconfirmed\": " << unconfirmed << ", \"abandoned_known\": " << sh->abandoned.load() << ",\n";
		o << "  \"executions_by_deviations\": ["; for (int k = 0; k < 8; k++) o << (k ? ", " : "") << dv[k]; o << "],\n";
		o << "  \"scenarios\": [";
		for (size_t i = 0; i < sc.size(); i++) { if (i < 400) o << (i ? ", " : "") << "{\"name\": \"" << jesc(sc[i].name) << "\", \"bound\": " << sc[i].bound << ", \"executions\": " << sh->scnexec[i].load() << "}"; }
		o << "],\n  \"scenario_count\": " << sc.size() << ",\n  \"samples\": [";
		for (uint32_t i = 0; i < std::min<uint32_t>(sh->nsample.load(), NSAMPLE); i++) o << (i ? ", " : "") << "\"" << jesc(sh->sample[i]) << "\"";
		o << "]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < c.assumptions.size(); i++) o << (i ? ", " : "") << "\"" << jesc(c.assumptions[i]) << "\"";
		o << "],\n \"wall_s\": " << wall << ", \"violations\": " << (violated ? 1 : 0) << "\n}\n";
	}
	for (auto& k : known) if (sh->knownhits[k.second].load()) printf("KNOWN-FINDING: property=%s %s\n", c.property.c_str(), knowntext[k.second].c_str());
	printf("[%s] executions=%llu states=%zu transitions=%llu outcomes=%zu nontrivial=%llu scenarios=%zu maxpoints=%llu pruned=%llu dev=[%llu,%llu,%llu,%llu] unconfirmed=%d%s wall=%.1fs\n",
		c.property.c_str(), (unsigned long long)ex, nst, (unsigned long long)trn, noc, (unsigned long long)nt, sc.size(), (unsigned long long)ml, (unsigned long long)pr,
		(unsigned long long)dv[0], (unsigned long long)dv[1], (unsigned long long)dv[2], (unsigned long long)dv[3], unconfirmed, incomplete ? " INCOMPLETE" : "", wall);
	for (int i = 0; i < nw; i++) unlink(logs[i].c_str());
	unlink((tmp + ".solo").c_str());
	if (violated) {
		printf("violation kind=%s\n%s\n", vkey.c_str(), vmsg.c_str());
		printf("VIOLATION property=%s replay=%s\n", c.property.c_str(), vpath.c_str());
		return 1;
	}
	return 0;
}

} // namespace mc
