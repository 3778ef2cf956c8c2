// fresh.hpp: compute something in a process in which nothing has happened before (a fork server started before the first execution)
#pragma once
#include <string>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
namespace fresh {
inline int req[2], res[2];
inline bool get(int fd, void* p, size_t n) { for (size_t o = 0; o < n;) { long r = ::syscall(SYS_read, fd, (char*)p + o, n - o); if (r <= 0) return false; o += r; } return true; }
inline void put(int fd, const void* p, size_t n) { for (size_t o = 0; o < n;) { long r = ::syscall(SYS_write, fd, (const char*)p + o, n - o); if (r <= 0) _exit(3); o += r; } }
// in cfg.worker_init; f gets what is passed to ask()
template <class A> void init(std::string (*f)(const A&)) {
	if (pipe(req) || pipe(res)) _exit(3);
	if (int p = fork()) { if (p < 0) _exit(3); close(req[0]); close(res[1]); return; }
	prctl(PR_SET_PDEATHSIG, SIGKILL); close(req[1]); close(res[0]);
	A a; while (get(req[0], &a, sizeof a)) {
		int p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); auto s = f(a); size_t n = s.size(); put(res[1], &n, sizeof n); put(res[1], s.data(), n); _exit(0); }
		int st = 0; waitpid(p, &st, 0); if (st) { size_t n = 0; put(res[1], &n, sizeof n); }
	}
	_exit(0);
}
template <class A> std::string ask(const A& a) { put(req[1], &a, sizeof a); size_t n = 0; if (!get(res[0], &n, sizeof n)) _exit(3); std::string s(n, 0); if (n && !get(res[0], s.data(), n)) _exit(3); return s; }
}
