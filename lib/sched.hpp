// Controlled scheduler: the library's threads run as fibers of one real thread; every synchronisation, socket, sleep and
// (race variant) atomic operation is a scheduling point whose outcome the explorer decides. Time is virtual.
#pragma once
#include "explore.hpp"
#include <functional>
#include <string>
#include <cstdint>

namespace sched {

enum OnBlock { RoundRobin, Free, Deviate };
struct Options {
	bool preempt = true;         // switching away from a runnable thread is a deviation
	OnBlock onblock = Deviate;   // what an other-than-default successor of a blocked thread costs
	bool early_timers = false;   // a timeout firing although others could run is a deviation
	bool spurious = false;       // spurious condition variable wake-ups are a deviation
	bool prune = false;          // do not branch in already visited states (happens-before hashing)
	long max_points = 300000;
	int64_t max_virtual_ms = 3600 * 1000;
};
void run(const Options& o, const std::function<void()>& body);   // runs body as thread 0 until every thread has ended
bool managed();                                                   // called from a managed thread?
int spawn(const char* name, std::function<void()> f, bool harness = true);
void join(int id);
int self();
int live_threads();            // threads created by the code under test which have not ended
std::string describe_live();
int64_t now_ms();              // virtual milliseconds since the start of the execution
void sleep_ms(int64_t ms);
void step_clock(int64_t ms);             // the system (not the monotonic) clock is set
void point(const char* what, const void* obj, bool write = true);  // plain scheduling point + event
void event(const char* what, uint64_t obj, bool write, uint64_t result);
// blocks until pred() holds; with deadline (virtual ns, <0: none) returns false when it passed first
bool block(const char* what, uint64_t obj, const std::function<bool()>& pred, int64_t deadline_ns = -1);
int64_t now_ns();
void yield();
void local(uint64_t v);        // folds an environment answer into the calling thread's history
long points();
void quiet(bool on);           // while on, no scheduling alternatives are explored (set-up phases)
void capture_output(std::string* out);   // collects what is written to stdout/stderr with fwrite (nullptr: swallow)
extern int (*thread_create_hook)();      // errno to fail pthread_create with, or 0

// runtime/harness region: allocations go to the normal heap and accesses are not checked for races
extern int rt_depth;
#define MC_UNCHECKED __attribute__((noinline, no_sanitize("thread")))
struct Rt { MC_UNCHECKED Rt() { ++rt_depth; } MC_UNCHECKED ~Rt() { --rt_depth; } Rt(const Rt&) = delete; };
// leave a runtime region again (when harness code calls into the library)
struct Lib { int d; MC_UNCHECKED Lib() : d(rt_depth) { rt_depth = 0; } MC_UNCHECKED ~Lib() { rt_depth = d; } Lib(const Lib&) = delete; };
}
