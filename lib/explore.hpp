// Exhaustive bounded explorer: depth-first enumeration of all choice sequences of a harness body.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace mc {

// ---- per-execution interface (there is one execution at a time per worker process) ----
int  choose(int n);            // free alternative: every value 0..n-1 is explored
int  deviate(int n);           // 0 is the default; any other value costs one deviation of the scenario's bound
int  budget_left();            // deviations still available in this execution
void step(uint64_t statehash); // one transition, arriving in a state with this hash
void outcome(uint64_t h);      // observable result of an execution (to count distinct outcomes)
bool tracing();                // true when notes of this execution are kept
void note(const std::string& s);
void nontrivial();             // marks the execution as non-trivial (something interesting happened)
[[noreturn]] void violate(const std::string& key, const std::string& msg);
// like violate(), but throws Abandon when `key` is listed as a known finding
struct Abandon {};
void beat();
void set_prune(bool prune);    // called at a choice point: do not branch from here on (already explored state)
bool seen_state(uint64_t h);   // true if h was visited before in this worker with this scenario; inserts it
bool past_prefix();            // true when no replayed choice is left
uint64_t path_hash();          // hash of the choices taken so far
bool thorough();
uint64_t seed();

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567);
inline uint64_t hash_str(const std::string& s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }
std::string show(const std::string& s, size_t max = 120);   // printable form
std::string show(const std::vector<uint8_t>& s, size_t max = 120);

#define MC_CHECK(cond, key, msg) do { if (!(cond)) ::mc::violate(key, msg); } while (0)

struct Scenario {
	std::string name;
	int bound = 0;                       // deviation bound
	std::function<void()> body;
};

struct Config {
	std::string property;
	std::string level = "model_checking";
	std::string rule;                    // how cases are made
	std::vector<std::string> assumptions;
	int hang_s = 30;                     // one execution without heartbeat
	int deadline_s = 700;
	bool warmup = false;                 // run the default path of a scenario once before counting (and before replays)
	bool leak_check = false;             // ASan builds: every execution must return all heap memory it took
	size_t rss_limit_mb = 3000;
	std::function<void()> worker_init;   // run once in each worker (and in replays)
};

int run(int argc, char** argv, const Config& cfg, std::vector<Scenario> scenarios);

} // namespace mc
