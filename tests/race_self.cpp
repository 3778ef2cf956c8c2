// self-test of the race monitor: scenarios named bad-* must be reported, good-* must not (tests/race_self.sh)
#include "sched.hpp"
#include <atomic>
#include <condition_variable>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>
#include <queue>
using sched::Lib;
static sched::Options o() { sched::Options o; o.prune = true; return o; }
template <class F> static mc::Scenario S(const char* n, int b, F f) { return {n, b, [f] { sched::run(o(), [&] { Lib l; f(); }); mc::nontrivial(); }}; }
int main(int argc, char** argv) {
	std::vector<mc::Scenario> s;
	s.push_back(S("bad-counter", 1, [] { auto x = std::make_shared<int>(0); std::thread t([x] { ++*x; }); ++*x; t.join(); }));
	s.push_back(S("bad-string", 1, [] { std::string x = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"; std::thread t([&] { x += "bbbbbbbbbbbbbbbbbbbbbbbbbbbbb"; }); std::string y = x; t.join(); }));
	s.push_back(S("good-mutex", 2, [] { std::mutex m; int x = 0; std::thread t([&] { std::lock_guard g(m); ++x; }); { std::lock_guard g(m); ++x; } t.join(); if (x != 2) mc::violate("lost", "x"); }));
	s.push_back(S("good-join", 2, [] { std::map<std::string, std::string> m; std::thread t([&] { m["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"] = "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"; }); t.join(); m["c"] = m.begin()->second; }));
	s.push_back(S("bad-shared", 2, [] { std::shared_mutex m; int x = 0; std::thread t([&] { std::shared_lock g(m); ++x; }); { std::shared_lock g(m); ++x; } t.join(); }));
	s.push_back(S("good-future", 2, [] { auto f = std::async(std::launch::async, [] { return std::string("hello hello hello hello hello hello"); }); std::string s = f.get(); s += "x"; }));
	s.push_back(S("good-exception", 2, [] { auto f = std::async(std::launch::async, []() -> int { throw std::runtime_error("some error text which is quite long"); }); try { f.get(); } catch (const std::exception& e) { std::string w = e.what(); } }));
	s.push_back(S("good-atomicflag", 2, [] { std::atomic<bool> r{false}; int x = 0; std::thread t([&] { x = 1; r = true; }); while (!r) std::this_thread::yield(); x++; t.join(); }));
	s.push_back(S("bad-relaxedflag", 2, [] { std::atomic<bool> r{false}; int x = 0; std::thread t([&] { x = 1; r.store(true, std::memory_order_relaxed); }); while (!r.load(std::memory_order_relaxed)) std::this_thread::yield(); x++; t.join(); }));
	s.push_back(S("bad-uaf", 2, [] { std::mutex m; auto* p = new std::string("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"); std::thread t([&] { std::lock_guard g(m); delete p; }); { std::lock_guard g(m); p->push_back('x'); } t.join(); }));
	s.push_back(S("good-cv", 2, [] { std::mutex m; std::condition_variable c; std::queue<std::string> q; std::thread t([&] { for (int i = 0; i < 2; i++) { std::lock_guard g(m); q.push(std::string(40, 'a')); c.notify_one(); } }); for (int i = 0; i < 2; i++) { std::unique_lock l(m); c.wait(l, [&] { return !q.empty(); }); q.pop(); } t.join(); }));
	s.push_back(S("bad-atomicity", 2, [] { std::atomic<int> x{0}; std::thread t([&] { int v = x; x = v + 1; }); int v = x; x = v + 1; t.join(); if (x != 2) mc::violate("lost-update", "x"); }));
	s.push_back(S("good-promise", 2, [] { std::promise<std::shared_ptr<std::string>> p; auto f = p.get_future(); std::thread t([&] { p.set_value(std::make_shared<std::string>(50, 'a')); }); auto v = f.get(); v->push_back('x'); t.join(); }));
	s.push_back(S("good-static", 2, [] { auto f = [] { static std::map<int, std::string> m{{1, std::string(40, 'a')}}; return m.at(1).size(); }; std::thread t([&] { f(); }); f(); t.join(); }));
	s.push_back(S("bad-deadlock", 2, [] { std::mutex a, b; std::thread t([&] { std::lock_guard g(a); std::lock_guard h(b); }); { std::lock_guard g(b); std::lock_guard h(a); } t.join(); }));
	mc::Config c; c.property = "TRACE"; c.rule = "self test"; c.warmup = true;
	return mc::run(argc, argv, c, s);
}
