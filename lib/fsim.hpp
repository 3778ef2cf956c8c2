// File system layer under test: every system call which changes or reads files below one scratch directory is trapped (seccomp),
// logged, and can be made to fail. The log allows rebuilding the directory as it was at any point in between.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <cstdint>

namespace fsim {
struct Image { std::map<std::string, std::string> files; std::set<std::string> dirs; std::string show() const; };   // paths relative to the directory
enum Kind { OPEN, READ, WRITE, TRUNC, RENAME, UNLINK, MKDIR, CLOSE, SYNC, MARK };
struct Ent { Kind kind; std::string path, path2; int ino = -1; uint64_t off = 0; std::string data; bool created = false; int mark = 0; long result = 0; };
// consulted before a call is carried out: 0 proceed, -errno fail, n > 0: only n bytes of a read or write
typedef std::function<long(Kind, const std::string& path, size_t len)> Fault;

void install(const std::string& dir);    // once per process
void start(const Fault& f = nullptr);    // begins logging; the directory's present content is the initial image
std::vector<Ent> stop();                 // ends logging (calls pass through again)
void mark(int id);                       // a note between the operations
const Image& initial();
Image rebuild(const Image& from, const std::vector<Ent>& log, size_t n, long torn = -1);  // after n entries, plus the first torn bytes of entry n
Image scan();                            // what is in the directory now
void put(const Image& i);                // makes the directory look like that
std::string show(const Ent& e);
}
