#include "fsim.hpp"
#include "explore.hpp"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstddef>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <ucontext.h>

namespace fsim {
extern "C" long fsim_raw(long n, long a, long b, long c, long d, long e, long f);
extern "C" char fsim_raw_ret[];
asm(R"(
.text
.globl fsim_raw
.type fsim_raw,@function
fsim_raw:
	mov %rdi,%rax
	mov %rsi,%rdi
	mov %rdx,%rsi
	mov %rcx,%rdx
	mov %r8,%r10
	mov %r9,%r8
	mov 8(%rsp),%r9
	syscall
.globl fsim_raw_ret
fsim_raw_ret:
	ret
)");
static std::string root; static bool on, installed; static Fault fault; static std::vector<Ent> lg; static Image init;
struct Fd { std::string path; int ino; int flags; };
static std::map<int, Fd> fds; static std::map<std::string, int> inos; static int nextino;

static std::string rel(const char* p, int dirfd = AT_FDCWD) {   // path below the root, or empty
	if (!p) return "";
	std::string s = p;
	if (s.empty() || s[0] != '/') { if (dirfd != AT_FDCWD) { auto it = fds.find(dirfd); if (it == fds.end()) return ""; s = root + "/" + it->second.path + "/" + s; } else { char b[4096]; if (!getcwd(b, sizeof b)) return ""; s = std::string(b) + "/" + s; } }
	std::vector<std::string> parts; size_t i = 0;
	while (i < s.size()) { size_t e = s.find('/', i); if (e == std::string::npos) e = s.size(); std::string t = s.substr(i, e - i); i = e + 1; if (t.empty() || t == ".") continue; if (t == "..") { if (!parts.empty()) parts.pop_back(); continue; } parts.push_back(t); }
	std::string o; for (auto& t : parts) o += "/" + t;
	if (o.compare(0, root.size(), root) != 0 || (o.size() > root.size() && o[root.size()] != '/')) return "";
	return o.size() > root.size() ? o.substr(root.size() + 1) : ".";
}
static int ino_of(const std::string& p) { auto it = inos.find(p); return it == inos.end() ? -1 : it->second; }
static Ent ent(Kind k, const std::string& p, int ino) { Ent e; e.kind = k; e.path = p; e.ino = ino; return e; }
static long handle(long nr, long a, long b, long c, long d, long e, long f) {
	auto raw = [&] { return fsim_raw(nr, a, b, c, d, e, f); };
	if (!on) return raw();
	auto ask = [&](Kind k, const std::string& p, size_t n) -> long { if (!fault) return 0; on = false; long r = fault(k, p, n); on = true; return r; };
	switch (nr) {
		case SYS_open: case SYS_openat: case SYS_creat: {
			const char* path = (const char*)(nr == SYS_openat ? b : a); std::string p = rel(path, nr == SYS_openat ? (int)a : AT_FDCWD); if (p.empty()) return raw();
			int flags = nr == SYS_openat ? (int)c : nr == SYS_open ? (int)b : (O_CREAT | O_WRONLY | O_TRUNC);
			long x = ask(OPEN, p, 0); if (x < 0) return x;
			bool existed = fsim_raw(SYS_access, (long)path, F_OK, 0, 0, 0, 0) == 0; if (nr == SYS_openat) existed = fsim_raw(SYS_faccessat, a, b, F_OK, 0, 0, 0) == 0;
			long r = raw(); if (r < 0) return r;
			int ino = ino_of(p); Ent en = ent(OPEN, p, ino); struct stat st; 
			if (fstat(r, &st) == 0 && S_ISDIR(st.st_mode)) { fds[r] = {p, -1, flags}; return r; }
			if (!existed || ino < 0) { ino = nextino++; inos[p] = ino; en.ino = ino; en.created = true; lg.push_back(en); }
			else { lg.push_back(en); if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { Ent t = ent(TRUNC, p, ino); lg.push_back(t); } }
			fds[r] = {p, ino, flags}; return r;
		}
		case SYS_close: { auto it = fds.find((int)a); if (it == fds.end()) return raw(); Fd w = it->second; long x = w.ino < 0 ? 0 : ask(CLOSE, w.path, 0); fds.erase((int)a); long r = raw(); if (w.ino >= 0) lg.push_back(ent(CLOSE, w.path, w.ino)); return x < 0 ? x : r; }
		case SYS_dup: case SYS_dup2: case SYS_dup3: { auto it = fds.find((int)a); long r = raw(); if (it != fds.end() && r >= 0) fds[r] = it->second; return r; }
		case SYS_fcntl: { auto it = fds.find((int)a); long r = raw(); if (it != fds.end() && r >= 0 && (b == F_DUPFD || b == F_DUPFD_CLOEXEC)) fds[r] = it->second; return r; }
		case SYS_read: case SYS_readv: case SYS_pread64: {
			auto it = fds.find((int)a); if (it == fds.end() || it->second.ino < 0) return raw();
			size_t n = nr == SYS_readv ? 0 : (size_t)c; if (nr == SYS_readv) for (long i = 0; i < c; i++) n += ((iovec*)b)[i].iov_len;
			long x = ask(READ, it->second.path, n); if (x < 0) return x; if (x > 0 && nr != SYS_readv && (size_t)x < n) { return fsim_raw(nr, a, b, x, d, e, f); }
			return raw();
		}
		case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_pwritev: {
			auto it = fds.find((int)a); if (it == fds.end() || it->second.ino < 0) return raw(); Fd& w = it->second;
			std::string data; if (nr == SYS_write || nr == SYS_pwrite64) data.assign((const char*)b, (size_t)c); else for (long i = 0; i < c; i++) data.append((const char*)((iovec*)b)[i].iov_base, ((iovec*)b)[i].iov_len);
			long x = ask(WRITE, w.path, data.size()); if (x < 0) return x; if (x > 0 && (size_t)x < data.size()) data.resize(x);
			struct stat st; fstat((int)a, &st); uint64_t off = (nr == SYS_pwrite64 || nr == SYS_pwritev) ? (uint64_t)d : (w.flags & O_APPEND) ? (uint64_t)st.st_size : (uint64_t)fsim_raw(SYS_lseek, a, 0, SEEK_CUR, 0, 0, 0);
			long r = (nr == SYS_pwrite64 || nr == SYS_pwritev) ? fsim_raw(SYS_pwrite64, a, (long)data.data(), data.size(), d, 0, 0) : fsim_raw(SYS_write, a, (long)data.data(), data.size(), 0, 0, 0);
			if (r > 0) { Ent en = ent(WRITE, w.path, w.ino); en.off = off; data.resize(r); en.data = std::move(data); lg.push_back(std::move(en)); }
			return r;
		}
		case SYS_ftruncate: { auto it = fds.find((int)a); if (it == fds.end()) return raw(); long x = ask(TRUNC, it->second.path, 0); if (x < 0) return x; long r = raw(); if (r == 0) { Ent en = ent(TRUNC, it->second.path, it->second.ino); en.off = b; lg.push_back(en); } return r; }
		case SYS_truncate: { std::string p = rel((const char*)a); if (p.empty()) return raw(); long x = ask(TRUNC, p, 0); if (x < 0) return x; long r = raw(); if (r == 0) { Ent en = ent(TRUNC, p, ino_of(p)); en.off = b; lg.push_back(en); } return r; }
		case SYS_rename: case SYS_renameat: case SYS_renameat2: {
			std::string p = nr == SYS_rename ? rel((const char*)a) : rel((const char*)b, (int)a), q = nr == SYS_rename ? rel((const char*)b) : rel((const char*)d, (int)c); if (p.empty() || q.empty()) return raw();
			long x = ask(RENAME, p, 0); if (x < 0) return x; long r = raw(); if (r == 0) { Ent en = ent(RENAME, p, ino_of(p)); en.path2 = q; lg.push_back(en); inos[q] = ino_of(p); inos.erase(p); } return r;
		}
		case SYS_unlink: case SYS_unlinkat: { std::string p = nr == SYS_unlink ? rel((const char*)a) : rel((const char*)b, (int)a); if (p.empty()) return raw(); long x = ask(UNLINK, p, 0); if (x < 0) return x; long r = raw(); if (r == 0) { lg.push_back(ent(UNLINK, p, ino_of(p))); inos.erase(p); } return r; }
		case SYS_mkdir: case SYS_mkdirat: { std::string p = nr == SYS_mkdir ? rel((const char*)a) : rel((const char*)b, (int)a); if (p.empty()) return raw(); long x = ask(MKDIR, p, 0); if (x < 0) return x; long r = raw(); if (r == 0) lg.push_back(ent(MKDIR, p, -1)); return r; }
		case SYS_fsync: case SYS_fdatasync: { auto it = fds.find((int)a); if (it == fds.end()) return raw(); long x = ask(SYNC, it->second.path, 0); if (x < 0) return x; lg.push_back(ent(SYNC, it->second.path, it->second.ino)); return 0; }
		case SYS_copy_file_range: case SYS_sendfile: return -ENOSYS;       // makes callers fall back to read and write
		case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: return -EPERM;
		default: return raw();
	}
}
static void sigsys(int, siginfo_t*, void* u) {
	auto* g = ((ucontext_t*)u)->uc_mcontext.gregs; int er = errno;
	g[REG_RAX] = handle(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
	errno = er;
}
void install(const std::string& dir) {
	if (installed) return; installed = true;
	fsim_raw(SYS_mkdir, (long)dir.c_str(), 0700, 0, 0, 0, 0);
	char b[4096]; if (!realpath(dir.c_str(), b)) abort(); root = b;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	if (sigaction(SIGSYS, &sa, nullptr)) abort();
	static const int NR[] = {SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl, SYS_read, SYS_readv, SYS_pread64, SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_ftruncate, SYS_truncate, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_fsync, SYS_fdatasync, SYS_copy_file_range, SYS_sendfile, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat};
	std::vector<sock_filter> p; uint64_t ip = (uint64_t)(uintptr_t)fsim_raw_ret; const int n = sizeof NR / sizeof *NR;
	auto ld = [&](size_t off) { p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (uint32_t)off)); };
	ld(offsetof(seccomp_data, instruction_pointer)); p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3));
	ld(offsetof(seccomp_data, instruction_pointer) + 4); p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1));
	p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	ld(offsetof(seccomp_data, nr));
	for (int i = 0; i < n; i++) p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)NR[i], (uint8_t)(n - i), 0));
	p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	sock_fprog fp{(unsigned short)p.size(), p.data()};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp, 0, 0)) { fprintf(stderr, "seccomp is not available: %s\n", strerror(errno)); _exit(3); }
}
static void walk(const std::string& d, const std::string& r, Image& im) {
	DIR* dir = opendir(d.c_str()); if (!dir) return;
	while (auto* e = readdir(dir)) {
		std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n, q = r.empty() ? n : r + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { im.dirs.insert(q); walk(p, q, im); continue; }
		std::string& s = im.files[q]; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) continue; s.resize(st.st_size); ssize_t k = st.st_size ? read(fd, s.data(), s.size()) : 0; s.resize(k < 0 ? 0 : k); ::close(fd);
	}
	closedir(dir);
}
Image scan() { bool was = on; on = false; Image i; walk(root, "", i); on = was; return i; }
void put(const Image& want) {
	bool was = on; on = false; Image have = scan();
	for (auto& f : have.files) if (!want.files.count(f.first)) ::unlink((root + "/" + f.first).c_str());
	for (auto it = have.dirs.rbegin(); it != have.dirs.rend(); ++it) if (!want.dirs.count(*it)) ::rmdir((root + "/" + *it).c_str());
	for (auto& d : want.dirs) if (!have.dirs.count(d)) ::mkdir((root + "/" + d).c_str(), 0700);
	for (auto& f : want.files) { auto it = have.files.find(f.first); if (it != have.files.end() && it->second == f.second) continue; int fd = open((root + "/" + f.first).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) abort(); if (!f.second.empty() && ::write(fd, f.second.data(), f.second.size()) != (ssize_t)f.second.size()) abort(); ::close(fd); }
	on = was;
}
void start(const Fault& f) { init = scan(); lg.clear(); fds.clear(); inos.clear(); nextino = 0; for (auto& x : init.files) inos[x.first] = nextino++; fault = f; on = true; }
std::vector<Ent> stop() { on = false; fault = nullptr; return std::move(lg); }
void mark(int id) { Ent e = ent(MARK, "", -1); e.mark = id; lg.push_back(e); }
const Image& initial() { return init; }
Image rebuild(const Image& from, const std::vector<Ent>& log, size_t n, long torn) {
	std::map<std::string, int> names; std::map<int, std::string> data; Image r; r.dirs = from.dirs; int k = 0;
	for (auto& f : from.files) { names[f.first] = k; data[k++] = f.second; }
	for (size_t i = 0; i < log.size() && (i < n || (i == n && torn >= 0)); i++) {
		auto& e = log[i];
		switch (e.kind) {
			case OPEN: if (e.created) { names[e.path] = e.ino; data[e.ino] = ""; } break;
			case WRITE: { auto& s = data[e.ino]; std::string d = i == n ? e.data.substr(0, torn) : e.data; if (s.size() < e.off + d.size()) s.resize(e.off + d.size()); memcpy(s.data() + e.off, d.data(), d.size()); break; }
			case TRUNC: data[e.ino].resize(e.off); break;
			case RENAME: names[e.path2] = e.ino; names.erase(e.path); break;
			case UNLINK: names.erase(e.path); break;
			case MKDIR: r.dirs.insert(e.path); break;
			default: break;
		}
	}
	for (auto& x : names) r.files[x.first] = data[x.second];
	return r;
}
std::string Image::show() const { std::string s; for (auto& d : dirs) s += d + "/ "; for (auto& f : files) s += f.first + "(" + std::to_string(f.second.size()) + " bytes " + mc::show(f.second, 60) + ") "; return s; }
std::string show(const Ent& e) {
	static const char* N[] = {"open", "read", "write", "truncate", "rename", "unlink", "mkdir", "close", "sync", "mark"};
	std::string s = N[e.kind]; if (e.kind == MARK) return s + " " + std::to_string(e.mark);
	s += " " + e.path; if (e.kind == RENAME) s += " -> " + e.path2; if (e.created) s += " (created)"; if (e.kind == WRITE) s += " " + std::to_string(e.data.size()) + " bytes at " + std::to_string(e.off); if (e.kind == TRUNC) s += " to " + std::to_string(e.off);
	return s;
}
}
