// In-memory file system behind interposed libc calls, for paths under /vfs/.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vfs {
using u64 = std::uint64_t;

struct Page { unsigned char b[4096]; mutable u64 h = 0; mutable bool hv = false; };

// Sparse copy-on-write byte sequence.
class Content {
public:
    u64 size = 0;
    std::map<u64, std::shared_ptr<Page>> pages;
    void read(u64 off, void* dst, std::size_t n) const;     // holes read zero
    void write(u64 off, void const* src, std::size_t n);    // extends
    void trunc(u64 n);
    std::string str(u64 off = 0, u64 n = ~0ull) const;
    u64 hash() const;
    bool operator==(Content const& o) const;
private:
    Page& own(u64 pn);
};

struct Image {
    std::map<std::string, Content> files;
    u64 hash() const;
    bool has(std::string const& p) const { return files.count(p) != 0; }
    bool operator==(Image const& o) const;
};

enum class Sys { open, creat, close, unlink, stat, read, write, sync, trunc, rename, advise, other };
char const* name(Sys);
inline bool mutating(Sys s)
{ return s==Sys::creat||s==Sys::unlink||s==Sys::write||s==Sys::sync||s==Sys::trunc||s==Sys::rename; }

struct Call {           // what the hook sees before the call takes effect
    Sys sys;
    int fd;             // -1 for path calls
    int ino;            // -1 if none
    std::string const* path;
    u64 off; u64 len;   // off: the flags, for open and creat
    u64 seq;            // number of the call since reset_seq
};
struct Action {
    int err = 0;                // fail with this errno
    std::int64_t shortTo = -1;  // transfer at most this many bytes (>=0)
    bool partialThenErr = false;// write shortTo bytes, then fail with err
};

enum class OpKind { create, unlink, write, trunc, sync, mark };
struct Op {
    OpKind kind; int ino = -1; u64 off = 0; std::string data; std::string path; u64 len = 0; int tag = 0;
};

// a disk being reconstructed from operations
struct Disk {
    std::map<std::string,int> names;
    std::map<int,Content> inodes;
    void apply(Op const& op, u64 torn = ~0ull);   // torn: bytes of a write applied
    Image image() const;
};

// live system -------------------------------------------------------------
void reset();                       // remove everything, close all
void load(Image const&);            // replace the live file system (drops open fds)
Image snapshot();
Disk disk();                        // live state with inode numbers
Content* file(std::string const& path);   // live content, or null
void put(std::string const& path, std::string const& bytes);
bool exists(std::string const& path);
u64 size_of(std::string const& path);      // 0 if missing
void remove(std::string const& path);
int  open_fds();
std::string open_fd_paths();
void drop_fds();

extern std::function<Action(Call const&)> hook;     // may be empty
extern std::function<void(Call const&)> after;      // after a successful call
extern bool logging;
extern std::vector<Op> log;
extern u64 seq;                     // calls so far
extern u64 total_calls;             // never reset
void mark(int tag);                 // user marker in the log
extern void (*sched_point)(Call const&, int phase);   // scheduler integration
// phase 0 = before, 1 = middle of a split transfer
extern u64 split_min;               // transfers of at least this many bytes are split in two (0 = never)
extern void (*region_access)(int ino, u64 off, u64 len, bool write); // race detector

// set when code calls something the VFS does not support
extern std::string unsupported;
extern int inside;                  // > 0 while one of its functions runs
void random_state_reset();
}
