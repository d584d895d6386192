#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vfs.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <random>

namespace vfs {

static constexpr u64 PS = 4096;

Page& Content::own(u64 pn)
{
    auto& p = pages[pn];
    if(!p){ p = std::make_shared<Page>(); std::memset(p->b,0,PS); }
    else if(p.use_count() > 1) p = std::make_shared<Page>(*p);
    p->hv = false;
    return *p;
}
void Content::read(u64 off, void* dst, std::size_t n) const
{
    auto d = static_cast<unsigned char*>(dst);
    while(n)
    {
        u64 pn = off / PS, po = off % PS; std::size_t k = std::min<u64>(n, PS - po);
        auto it = pages.find(pn);
        if(it == pages.end()) std::memset(d, 0, k); else std::memcpy(d, it->second->b + po, k);
        d += k; off += k; n -= k;
    }
}
void Content::write(u64 off, void const* src, std::size_t n)
{
    auto s = static_cast<unsigned char const*>(src);
    if(n && off + n > size) size = off + n;
    while(n)
    {
        u64 pn = off / PS, po = off % PS; std::size_t k = std::min<u64>(n, PS - po);
        if(k == PS && !s[0] && !std::memcmp(s, s + 1, PS - 1)) pages.erase(pn);      // a page of zeros is a hole
        else std::memcpy(own(pn).b + po, s, k);
        s += k; off += k; n -= k;
    }
}
void Content::trunc(u64 n)
{
    if(n < size)
    {
        u64 pn = (n + PS - 1) / PS;
        pages.erase(pages.lower_bound(pn), pages.end());
        if(n % PS)
        {
            auto it = pages.find(n / PS);
            if(it != pages.end()){ Page& p = own(n / PS); std::memset(p.b + n % PS, 0, PS - n % PS); }
        }
    }
    size = n;
}
std::string Content::str(u64 off, u64 n) const
{
    if(off >= size) return {};
    n = std::min(n, size - off);
    std::string s(n, '\0'); read(off, &s[0], n); return s;
}
static u64 mix(u64 h, u64 v){ h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h; }
u64 Content::hash() const
{
    u64 h = mix(1, size);
    for(auto& p : pages)
    {
        if(p.second->hv){ if(p.second->h) h = mix(mix(h, p.first), p.second->h); continue; }
        auto w = reinterpret_cast<u64 const*>(p.second->b);
        u64 a = 0; bool z = true;
        for(unsigned i = 0; i < PS/8; ++i){ u64 v; std::memcpy(&v, w + i, 8); if(v) z = false; a = (a ^ v) * 0x9E3779B97F4A7C15ull; a ^= a >> 31; }
        if(z) a = 0; else a |= 1;
        p.second->h = a; p.second->hv = true;
        if(!z) h = mix(mix(h, p.first), a);
    }
    return h;
}
bool Content::operator==(Content const& o) const
{
    if(size != o.size) return false;
    auto chk = [](Content const& x, Content const& y){
        for(auto& p : x.pages)
        {
            auto it = y.pages.find(p.first);
            if(it != y.pages.end()){ if(it->second != p.second && std::memcmp(it->second->b, p.second->b, PS)) return false; }
            else for(auto c : p.second->b) if(c) return false;
        }
        return true; };
    return chk(*this,o) && chk(o,*this);
}
u64 Image::hash() const
{
    u64 h = 7;
    for(auto& f : files){ for(char c : f.first) h = mix(h, (unsigned char)c); h = mix(h, f.second.hash()); }
    return h;
}
bool Image::operator==(Image const& o) const
{
    if(files.size() != o.files.size()) return false;
    for(auto& f : files){ auto it = o.files.find(f.first); if(it == o.files.end() || !(it->second == f.second)) return false; }
    return true;
}
char const* name(Sys s)
{
    static char const* n[] = {"open","create","close","unlink","stat","read","write","sync","trunc","rename","advise","other"};
    return n[(int)s];
}
void Disk::apply(Op const& op, u64 torn)
{
    switch(op.kind)
    {
    case OpKind::create: names[op.path] = op.ino; inodes[op.ino]; break;
    case OpKind::unlink: names.erase(op.path); break;
    case OpKind::write: inodes[op.ino].write(op.off, op.data.data(), std::min<u64>(torn, op.data.size())); break;
    case OpKind::trunc: inodes[op.ino].trunc(op.len); break;
    default: break;
    }
}
Image Disk::image() const
{
    Image m;
    for(auto& n : names){ auto it = inodes.find(n.second); m.files[n.first] = it == inodes.end() ? Content{} : it->second; }
    return m;
}

// ---------------------------------------------------------------- live state
struct Inode { int id; Content c; };
struct Fd { std::shared_ptr<Inode> ino; int flags = 0; u64 pos = 0; std::string path; bool used = false; };
static std::map<std::string, std::shared_ptr<Inode>> names_;
static std::vector<Fd> fds_;
static int next_ino = 1;
static constexpr int FDBASE = 1 << 20;

std::function<Action(Call const&)> hook;
std::function<void(Call const&)> after;
bool logging = false;
std::vector<Op> log;
u64 seq = 0, total_calls = 0;
void (*sched_point)(Call const&, int) = nullptr;
u64 split_min = 0;
void (*region_access)(int, u64, u64, bool) = nullptr;
std::string unsupported;
int inside = 0;
struct In { In(){ ++inside; } ~In(){ --inside; } };

void reset(){ names_.clear(); fds_.clear(); next_ino = 1; log.clear(); seq = 0; }
void load(Image const& m)
{
    names_.clear(); fds_.clear();
    for(auto& f : m.files){ auto p = std::make_shared<Inode>(); p->id = next_ino++; p->c = f.second; names_[f.first] = p; }
}
Image snapshot(){ Image m; for(auto& n : names_) m.files[n.first] = n.second->c; return m; }
Disk disk()
{
    Disk d; for(auto& n : names_){ d.names[n.first] = n.second->id; d.inodes[n.second->id] = n.second->c; }
    return d;
}
Content* file(std::string const& p){ auto it = names_.find(p); return it == names_.end() ? nullptr : &it->second->c; }
void put(std::string const& p, std::string const& b)
{
    auto& n = names_[p]; if(!n){ n = std::make_shared<Inode>(); n->id = next_ino++; }
    n->c = Content{}; n->c.write(0, b.data(), b.size());
}
u64 size_of(std::string const& p){ auto f = file(p); return f ? f->size : 0; }
bool exists(std::string const& p){ return names_.count(p) != 0; }
void remove(std::string const& p){ names_.erase(p); }
int open_fds(){ int n = 0; for(auto& f : fds_) n += f.used; return n; }
std::string open_fd_paths(){ std::string s; for(auto& f : fds_) if(f.used) s += f.path + " "; return s; }
void drop_fds(){ fds_.clear(); }
void mark(int tag){ if(logging){ Op o; o.kind = OpKind::mark; o.tag = tag; log.push_back(std::move(o)); } }

static bool isv(char const* p){ return p && !std::strncmp(p, "/vfs/", 5); }
static bool isfd(int fd){ return fd >= FDBASE; }
static Fd* get(int fd)
{
    unsigned i = fd - FDBASE;
    if(i >= fds_.size() || !fds_[i].used) return nullptr;
    return &fds_[i];
}
static Action pre(Sys s, int fd, int ino, std::string const* path, u64 off, u64 len, Call* out = nullptr)
{
    ++total_calls;
    Call c{s, fd, ino, path, off, len, seq++};
    if(out) *out = c;
    if(sched_point && s != Sys::advise) sched_point(c, 0);
    if(hook) return hook(c);
    return {};
}
static int fail(int e){ errno = e; return -1; }

static int v_open(char const* path, int flags)
{
    In in;
    std::string p(path);
    bool cr = flags & O_CREAT;
    auto it0 = names_.find(p);
    Call c;
    auto a = pre(cr ? Sys::creat : Sys::open, -1, it0 == names_.end() ? -1 : it0->second->id, &p, (u64)flags, 0, &c);
    if(a.err) return fail(a.err);
    auto it = names_.find(p);
    std::shared_ptr<Inode> n;
    if(it == names_.end())
    {
        if(!cr) return fail(ENOENT);
        n = std::make_shared<Inode>(); n->id = next_ino++; names_[p] = n;
        if(logging){ Op o; o.kind = OpKind::create; o.ino = n->id; o.path = p; log.push_back(std::move(o)); }
    }
    else
    {
        if(cr && (flags & O_EXCL)) return fail(EEXIST);
        n = it->second;
        if(flags & O_TRUNC)
        {
            n->c.trunc(0);
            if(logging){ Op o; o.kind = OpKind::trunc; o.ino = n->id; log.push_back(std::move(o)); }
        }
    }
    unsigned i = 0; while(i < fds_.size() && fds_[i].used) ++i;
    if(i == fds_.size()) fds_.emplace_back();
    fds_[i].ino = n; fds_[i].flags = flags; fds_[i].pos = 0; fds_[i].path = p; fds_[i].used = true;
    if(after) after(c);
    return FDBASE + i;
}
static ssize_t v_pread(int fd, void* buf, size_t n, u64 off, bool seqpos = false)
{
    In in;
    auto f = get(fd); if(!f) return fail(EBADF);
    if((f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
    if((std::int64_t)off < 0) return fail(EINVAL);
    Call c;
    auto ino = f->ino;
    auto a = pre(Sys::read, fd, ino->id, &f->path, off, n, &c);
    if(a.err) return fail(a.err);
    u64 sz = ino->c.size;
    if(off >= sz){ if(region_access) region_access(ino->id, off, n, false); return 0; }
    u64 k = std::min<u64>(n, sz - off);
    if(a.shortTo >= 0) k = std::min<u64>(k, a.shortTo);
    if(split_min && k >= split_min && sched_point)
    {
        u64 h = k / 2;
        ino->c.read(off, buf, h);
        if(region_access) region_access(ino->id, off, h, false);
        sched_point(c, 1);
        u64 sz2 = ino->c.size;
        u64 k2 = sz2 > off + h ? std::min<u64>(k - h, sz2 - off - h) : 0;
        ino->c.read(off + h, (char*)buf + h, k2);
        if(region_access) region_access(ino->id, off + h, k2, false);
        k = h + k2;
    }
    else
    {
        ino->c.read(off, buf, k);
        if(region_access) region_access(ino->id, off, k, false);
    }
    if(seqpos){ if(auto g = get(fd)) g->pos = off + k; }
    if(after) after(c);
    return k;
}
static ssize_t v_pwrite(int fd, void const* buf, size_t n, u64 off, bool seqpos = false)
{
    In in;
    auto f = get(fd); if(!f) return fail(EBADF);
    if((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    if((std::int64_t)off < 0) return fail(EINVAL);
    auto ino = f->ino;
    int flags = f->flags;
    if(flags & O_APPEND) off = ino->c.size;       // Linux: pwrite appends
    Call c;
    auto a = pre(Sys::write, fd, ino->id, &f->path, off, n, &c);
    if(flags & O_APPEND) off = ino->c.size;
    if(a.err && !a.partialThenErr) return fail(a.err);
    u64 k = n;
    if(a.shortTo >= 0) k = std::min<u64>(k, a.shortTo);
    auto put = [&](u64 o, char const* b, u64 m){
        ino->c.write(o, b, m);
        if(region_access) region_access(ino->id, o, m, true);
        if(logging && m){ Op op; op.kind = OpKind::write; op.ino = ino->id; op.off = o; op.data.assign(b, m); log.push_back(std::move(op)); } };
    if(split_min && k >= split_min && sched_point)
    {
        u64 h = k / 2;
        put(off, (char const*)buf, h);
        sched_point(c, 1);
        put(off + h, (char const*)buf + h, k - h);
    }
    else put(off, (char const*)buf, k);
    if(a.err) return fail(a.err);
    if(seqpos){ if(auto g = get(fd)) g->pos = off + k; }
    if(after) after(c);
    return k;
}
static int v_sync(int fd)
{
    In in;
    auto f = get(fd); if(!f) return fail(EBADF);
    Call c; auto ino = f->ino;
    auto a = pre(Sys::sync, fd, ino->id, &f->path, 0, 0, &c);
    if(a.err) return fail(a.err);
    if(logging){ Op o; o.kind = OpKind::sync; o.ino = ino->id; log.push_back(std::move(o)); }
    if(after) after(c);
    return 0;
}
static int v_trunc(int fd, u64 len)
{
    In in;
    auto f = get(fd); if(!f) return fail(EBADF);
    if((f->flags & O_ACCMODE) == O_RDONLY) return fail(EINVAL);
    if((std::int64_t)len < 0) return fail(EINVAL);
    Call c; auto ino = f->ino;
    auto a = pre(Sys::trunc, fd, ino->id, &f->path, len, 0, &c);
    if(a.err) return fail(a.err);
    u64 old = ino->c.size;
    ino->c.trunc(len);
    if(region_access && len < old) region_access(ino->id, len, old - len, true);
    if(logging){ Op o; o.kind = OpKind::trunc; o.ino = ino->id; o.len = len; log.push_back(std::move(o)); }
    if(after) after(c);
    return 0;
}
static int v_unlink(char const* path)
{
    In in;
    std::string p(path);
    auto it0 = names_.find(p);
    Call c;
    auto a = pre(Sys::unlink, -1, it0 == names_.end() ? -1 : it0->second->id, &p, 0, 0, &c);
    if(a.err) return fail(a.err);
    auto it = names_.find(p);
    if(it == names_.end()) return fail(ENOENT);
    int id = it->second->id;
    names_.erase(it);
    if(logging){ Op o; o.kind = OpKind::unlink; o.path = p; o.ino = id; log.push_back(std::move(o)); }
    if(after) after(c);
    return 0;
}
static void fillstat(struct stat* st, Inode const& n)
{
    std::memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_ino = n.id; st->st_size = n.c.size; st->st_blksize = 4096;
    st->st_blocks = (n.c.size + 511) / 512; st->st_dev = 0x7676;
}
static int v_fstat(int fd, struct stat* st)
{
    In in;
    auto f = get(fd); if(!f) return fail(EBADF);
    Call c; auto ino = f->ino;
    auto a = pre(Sys::stat, fd, ino->id, &f->path, 0, 0, &c);
    if(a.err) return fail(a.err);
    fillstat(st, *ino);
    if(after) after(c);
    return 0;
}
static int v_stat(char const* path, struct stat* st)
{
    In in;
    std::string p(path);
    Call c; auto a = pre(Sys::stat, -1, -1, &p, 0, 0, &c);
    if(a.err) return fail(a.err);
    auto it = names_.find(p); if(it == names_.end()) return fail(ENOENT);
    fillstat(st, *it->second);
    return 0;
}
static int v_close(int fd)
{
    In in;
    auto f = get(fd); if(!f){ return fail(EBADF); }
    Call c; std::string p = f->path; int id = f->ino->id;
    pre(Sys::close, fd, id, &p, 0, 0, &c);
    if(auto g = get(fd)){ g->used = false; g->ino.reset(); }
    if(after) after(c);
    return 0;
}
static int nope(char const* what){ if(unsupported.empty()) unsupported = what; return fail(ENOSYS); }

} // vfs

using namespace vfs;

// ------------------------------------------------------- interposed functions
extern "C" {
#define PASS(...) syscall(__VA_ARGS__)
#define VX __attribute__((visibility("default")))
VX int open(char const* p, int fl, ...)
{
    mode_t m = 0;
    if(fl & (O_CREAT | O_TMPFILE)){ va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if(isv(p)) return v_open(p, fl);
    return PASS(SYS_openat, AT_FDCWD, p, fl, m);
}
VX int open64(char const* p, int fl, ...)
{
    mode_t m = 0;
    if(fl & (O_CREAT | O_TMPFILE)){ va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if(isv(p)) return v_open(p, fl);
    return PASS(SYS_openat, AT_FDCWD, p, fl, m);
}
VX int openat(int d, char const* p, int fl, ...)
{
    mode_t m = 0;
    if(fl & (O_CREAT | O_TMPFILE)){ va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if(isv(p)) return v_open(p, fl);
    return PASS(SYS_openat, d, p, fl, m);
}
VX int creat(char const* p, mode_t m)
{
    if(isv(p)) return v_open(p, O_CREAT | O_WRONLY | O_TRUNC);
    return PASS(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
VX int close(int fd){ return isfd(fd) ? v_close(fd) : PASS(SYS_close, fd); }
VX ssize_t read(int fd, void* b, size_t n)
{
    if(isfd(fd)){ auto f = get(fd); if(!f) return fail(EBADF); return v_pread(fd, b, n, f->pos, true); }
    return PASS(SYS_read, fd, b, n);
}
VX ssize_t write(int fd, void const* b, size_t n)
{
    if(isfd(fd)){ auto f = get(fd); if(!f) return fail(EBADF); return v_pwrite(fd, b, n, f->pos, true); }
    return PASS(SYS_write, fd, b, n);
}
VX ssize_t pread(int fd, void* b, size_t n, off_t o){ return isfd(fd) ? v_pread(fd, b, n, o) : PASS(SYS_pread64, fd, b, n, o); }
VX ssize_t pread64(int fd, void* b, size_t n, off64_t o){ return isfd(fd) ? v_pread(fd, b, n, o) : PASS(SYS_pread64, fd, b, n, o); }
VX ssize_t pwrite(int fd, void const* b, size_t n, off_t o){ return isfd(fd) ? v_pwrite(fd, b, n, o) : PASS(SYS_pwrite64, fd, b, n, o); }
VX ssize_t pwrite64(int fd, void const* b, size_t n, off64_t o){ return isfd(fd) ? v_pwrite(fd, b, n, o) : PASS(SYS_pwrite64, fd, b, n, o); }
static ssize_t iov_loop(int fd, const struct iovec* v, int n, u64 off, bool wr, bool seqpos)
{
    ssize_t t = 0;
    for(int i = 0; i < n; ++i)
    {
        if(!v[i].iov_len) continue;
        ssize_t k = wr ? v_pwrite(fd, v[i].iov_base, v[i].iov_len, off + t, seqpos) : v_pread(fd, v[i].iov_base, v[i].iov_len, off + t, seqpos);
        if(k < 0) return t ? t : -1;
        t += k; if((size_t)k < v[i].iov_len) break;
    }
    return t;
}
VX ssize_t preadv(int fd, const struct iovec* v, int n, off_t o){ return isfd(fd) ? iov_loop(fd, v, n, o, false, false) : PASS(SYS_preadv, fd, v, n, o, 0); }
VX ssize_t pwritev(int fd, const struct iovec* v, int n, off_t o){ return isfd(fd) ? iov_loop(fd, v, n, o, true, false) : PASS(SYS_pwritev, fd, v, n, o, 0); }
VX ssize_t readv(int fd, const struct iovec* v, int n)
{ if(isfd(fd)){ auto f = get(fd); if(!f) return fail(EBADF); return iov_loop(fd, v, n, f->pos, false, true); } return PASS(SYS_readv, fd, v, n); }
VX ssize_t writev(int fd, const struct iovec* v, int n)
{ if(isfd(fd)){ auto f = get(fd); if(!f) return fail(EBADF); return iov_loop(fd, v, n, f->pos, true, true); } return PASS(SYS_writev, fd, v, n); }
static off_t do_lseek(int fd, off_t o, int w)
{
    if(!isfd(fd)) return PASS(SYS_lseek, fd, o, w);
    auto f = get(fd); if(!f) return fail(EBADF);
    off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)f->pos : (off_t)f->ino->c.size;
    if(base + o < 0) return fail(EINVAL);
    f->pos = base + o; return f->pos;
}
VX off_t lseek(int fd, off_t o, int w) noexcept { return do_lseek(fd, o, w); }
VX off64_t lseek64(int fd, off64_t o, int w) noexcept { return do_lseek(fd, o, w); }
VX int fsync(int fd){ return isfd(fd) ? v_sync(fd) : PASS(SYS_fsync, fd); }
VX int fdatasync(int fd){ return isfd(fd) ? v_sync(fd) : PASS(SYS_fdatasync, fd); }
VX int ftruncate(int fd, off_t n) noexcept { return isfd(fd) ? v_trunc(fd, n) : PASS(SYS_ftruncate, fd, n); }
VX int ftruncate64(int fd, off64_t n) noexcept { return isfd(fd) ? v_trunc(fd, n) : PASS(SYS_ftruncate, fd, n); }
VX int truncate(char const* p, off_t n) noexcept
{
    if(!isv(p)) return PASS(SYS_truncate, p, n);
    int fd = v_open(p, O_RDWR); if(fd < 0) return -1; int r = v_trunc(fd, n); int e = errno; v_close(fd); errno = e; return r;
}
VX int fstat(int fd, struct stat* st) noexcept { return isfd(fd) ? v_fstat(fd, st) : PASS(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
VX int fstat64(int fd, struct stat64* st) noexcept { return isfd(fd) ? v_fstat(fd, (struct stat*)st) : PASS(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
VX int stat(char const* p, struct stat* st) noexcept { return isv(p) ? v_stat(p, st) : PASS(SYS_newfstatat, AT_FDCWD, p, st, 0); }
VX int stat64(char const* p, struct stat64* st) noexcept { return isv(p) ? v_stat(p, (struct stat*)st) : PASS(SYS_newfstatat, AT_FDCWD, p, st, 0); }
VX int lstat(char const* p, struct stat* st) noexcept { return isv(p) ? v_stat(p, st) : PASS(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
VX int access(char const* p, int m) noexcept
{
    if(!isv(p)) return PASS(SYS_faccessat, AT_FDCWD, p, m);
    struct stat st; return v_stat(p, &st);
}
VX int unlink(char const* p) noexcept { return isv(p) ? v_unlink(p) : PASS(SYS_unlinkat, AT_FDCWD, p, 0); }
VX int unlinkat(int d, char const* p, int f) noexcept { return isv(p) ? v_unlink(p) : PASS(SYS_unlinkat, d, p, f); }
VX int remove(char const* p) noexcept { if(isv(p)) return v_unlink(p); int r = PASS(SYS_unlinkat, AT_FDCWD, p, 0); if(r && errno == EISDIR) r = PASS(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); return r; }
VX int rename(char const* a, char const* b) noexcept { if(isv(a) || isv(b)) return nope("rename"); return PASS(SYS_rename, a, b); }
static int v_advise(int fd)     // returns the error
{
    In in;
    auto f = get(fd); if(!f) return EBADF;
    Call c; auto a = pre(Sys::advise, fd, f->ino->id, &f->path, 0, 0, &c);
    if(a.err) return a.err;
    if(after) after(c);
    return 0;
}
VX int posix_fadvise(int fd, off_t o, off_t n, int adv) noexcept { if(isfd(fd)) return v_advise(fd); return PASS(SYS_fadvise64, fd, o, n, adv) ? errno : 0; }
VX int posix_fadvise64(int fd, off64_t o, off64_t n, int adv) noexcept { if(isfd(fd)) return v_advise(fd); return PASS(SYS_fadvise64, fd, o, n, adv) ? errno : 0; }
VX int fallocate(int fd, int m, off_t o, off_t n){ if(isfd(fd)) return nope("fallocate"); return PASS(SYS_fallocate, fd, m, o, n); }
VX int posix_fallocate(int fd, off_t o, off_t n)
{
    if(!isfd(fd)) return PASS(SYS_fallocate, fd, 0, o, n) ? errno : 0;
    auto f = get(fd); if(!f) return EBADF;
    if((u64)(o + n) > f->ino->c.size) return v_trunc(fd, o + n) ? errno : 0;
    return 0;
}
} // extern C

// Deterministic std::random_device: make_salt and make_uid draw from it.
namespace vfs { static u64 random_state = 0x1234567; void random_state_reset(){ random_state = 0x1234567; } }
unsigned int std::random_device::_M_getval()
{
    vfs::random_state = vfs::random_state * 6364136223846793005ull + 1442695040888963407ull;
    return (unsigned)(vfs::random_state >> 33);
}
