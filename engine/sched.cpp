#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <cerrno>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>
#include <sched.h>

// ---------------------------------------------------------------- fibers
extern "C" void sch_switch(void** save, void* load);
asm(R"(
.text
.globl sch_switch
.type sch_switch,@function
sch_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sch_switch,.-sch_switch
)");

extern void (*g_assert_hook)(std::string const&);
namespace sch {
using u64 = std::uint64_t; using u32 = std::uint32_t;

struct VC { u32 c[MAXT] = {}; void join(VC const& o){ for(int i = 0; i < MAXT; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; } };

enum class P { run, lock, rdlock, wrlock, cwait, cready, sleep, join, done, yield };
struct Fiber {
    int id = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    P st = P::run;
    void* obj = nullptr;        // mutex / rwlock / cond
    void* mtx = nullptr;        // mutex of a condition wait
    u64 deadline = 0; bool timed = false; bool timedout = false; bool spur = false;
    int target = -1;
    int err = 0;
    int ign = 0, held = 0;
    VC vc;
    std::vector<void*> calls;
};
struct Mx { int owner = -1; int count = 0; VC vc; };
struct Rw { int writer = -1; int readers = 0; VC wvc, rvc; };

static bool active_ = false;
static Fiber fib[MAXT];
static int nf = 0, cur = -1;
static void* main_sp;
static constexpr std::size_t STK = 512 * 1024;
static char* stacks[MAXT];
static std::unordered_map<void*, Mx> mxs;
static std::unordered_map<void*, Rw> rws;
static std::unordered_map<void const*, VC> atoms;
static u64 vnow;
static Opts opt;
static Result* res;
static std::vector<unsigned char> const* prefix_;
static int budget, timers;
static bool finished_;
static std::function<void()> const* mainfn;
static std::vector<void*> deferred;
std::function<bool(int)> suspended;
std::function<void(int, vfs::Call const&)> on_file;
unsigned long long total_steps, total_execs, total_accesses;

bool active(){ return active_; }
int self(){ return cur; }
unsigned now(){ return res ? res->steps : 0; }

// ---------------------------------------------------------------- race detector
struct Slot { u32 clk = 0; unsigned char mask = 0; void* pc = nullptr; };
struct Cell { u64 key = 0; u32 epoch = 0; bool freed = false; Slot r[MAXT], w[MAXT]; };
static constexpr unsigned TB = 1u << 16;
static Cell* table = nullptr;
static u32 epoch = 0;
static unsigned used;
static std::vector<u32> usedIdx;
static std::vector<std::pair<u64,u64>> freedRanges;     // granules
struct Reg { int ino; u64 off, len; int t; u32 clk; bool wr; void* pc; };
static std::vector<Reg> regs;

static std::vector<std::pair<u64, std::string>> syms;
static u64 base_;
static void load_syms()
{
    if(!syms.empty()) return;
    Dl_info i{}; dladdr((void*)&load_syms, &i); base_ = (u64)i.dli_fbase;
    char exe[4096]; auto n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    syms.push_back({0, "?"});
    if(FILE* f = popen((std::string("nm -C --defined-only '") + exe + "' 2>/dev/null").c_str(), "r"))
    {
        static char l[1 << 16];
        while(std::fgets(l, sizeof l, f))
        {
            char* e; u64 a = std::strtoull(l, &e, 16);
            if(*e != ' ' || !e[1] || !std::strchr("tTwW", e[1])) continue;
            std::string s = e + 3; while(!s.empty() && s.back() == '\n') s.pop_back();
            syms.push_back({a, s});
        }
        pclose(f);
    }
    std::stable_sort(syms.begin(), syms.end(), [](auto& a, auto& b){ return a.first < b.first; });
}
static std::string fname(void* pc)
{
    u64 a = (u64)pc - base_ - 1;
    auto it = std::upper_bound(syms.begin(), syms.end(), a, [](u64 v, auto& x){ return v < x.first; });
    std::string s = it == syms.begin() ? "?" : (it - 1)->second;
    // drop template arguments and parameters
    std::string o; int depth = 0;
    for(std::size_t k = 0; k < s.size(); ++k)
    {
        char c = s[k];
        if(!s.compare(k, 8, "{lambda(")){ o += "{lambda}"; while(k < s.size() && s[k] != '}') ++k; continue; }
        if(!s.compare(k, 10, "operator()")){ o += "operator()"; k += 9; continue; }
        if(c == '<') ++depth; else if(c == '>') --depth; else if(c == '('  && !depth) { int d = 0; for(; k < s.size(); ++k){ if(s[k] == '(') ++d; if(s[k] == ')' && !--d) break; } if(k + 1 < s.size() && s[k + 1] != ':') break; } else if(!depth) o += c;
    }
    auto sp = o.rfind(' '); if(sp != std::string::npos && o.find("[clone") == std::string::npos) o = o.substr(sp + 1);
    return o;
}
static Cell* cell(u64 g)
{
    u32 i = (u32)((g * 0x9E3779B97F4A7C15ull) >> 48);
    for(;; i = (i + 1) & (TB - 1))
    {
        Cell& c = table[i];
        if(c.epoch != epoch){ c.key = g; c.epoch = epoch; c.freed = false; for(auto& s : c.r) s = Slot{}; for(auto& s : c.w) s = Slot{};
            for(auto& f : freedRanges) if(g >= f.first && g < f.second){ c.freed = true; break; }
            usedIdx.push_back(i);
            if(++used > TB * 7 / 8){ std::fprintf(stderr, "shadow table full\n"); gH->fatal("internal: shadow table full"); _exit(77); }
            return &c; }
        if(c.key == g) return &c;
    }
}
static void report(char const* what, void* a, void* b, bool wa, bool wb)
{
    if(res->races.size() > 8) return;
    std::string x = fname(a), y = fname(b);
    std::string sg = std::string(what) + ": " + std::min(x, y) + " / " + std::max(x, y);
    for(auto& r : res->races) if(r.first == sg) return;
    res->races.push_back({sg, std::string(what) + " between " + (wa ? "write" : "read") + " in " + x + " and " + (wb ? "write" : "read") + " in " + y});
}
static bool instack(u64 a){ for(int i = 0; i < MAXT; ++i) if(a >= (u64)stacks[i] && a < (u64)stacks[i] + STK) return true; return false; }
static void access(void const* p, std::size_t n, bool wr, void* pc, bool freeing = false)
{
    if(!active_ || cur < 0 || !opt.races || !n) return;
    Fiber& f = fib[cur];
    if(f.ign) return;
    u64 a = (u64)p;
    if(a < 4096) return;
    if(instack(a)) return;
    ++total_accesses;
    u64 e = a + n;
    if(freeing)
    {
        // cells that exist are checked, the others are poisoned when first touched
        u64 g0 = a >> 3, g1 = (e + 7) >> 3;
        auto one = [&](Cell& c){
            for(int u = 0; u < nf; ++u)
            {
                if(u == cur) continue;
                if(c.w[u].mask && c.w[u].clk > f.vc.c[u]) report("memory freed while in use", pc, c.w[u].pc, true, true);
                if(c.r[u].mask && c.r[u].clk > f.vc.c[u]) report("memory freed while in use", pc, c.r[u].pc, true, false);
            }
            c.freed = true; c.w[0].pc = pc; };
        if(g1 - g0 < usedIdx.size()) { for(u64 g = g0; g < g1; ++g){ u32 i = (u32)((g * 0x9E3779B97F4A7C15ull) >> 48); for(; table[i].epoch == epoch; i = (i + 1) & (TB - 1)) if(table[i].key == g){ one(table[i]); break; } } }
        else for(auto i : usedIdx) if(table[i].key >= g0 && table[i].key < g1) one(table[i]);
        freedRanges.push_back({g0, g1});
        return;
    }
    for(u64 g = a >> 3; g <= (e - 1) >> 3; ++g)
    {
        unsigned lo = g == (a >> 3) ? a & 7 : 0, hi = g == ((e - 1) >> 3) ? ((e - 1) & 7) : 7;
        unsigned char m = (unsigned char)(((1u << (hi + 1)) - 1) & ~((1u << lo) - 1));
        Cell& c = *cell(g);
        if(c.freed){ report("use after free", pc, c.w[0].pc, wr, true); continue; }
        for(int u = 0; u < nf; ++u)
        {
            if(u == cur) continue;
            if((c.w[u].mask & m) && c.w[u].clk > f.vc.c[u]) report("data race", pc, c.w[u].pc, wr, true);
            if(wr && (c.r[u].mask & m) && c.r[u].clk > f.vc.c[u]) report("data race", pc, c.r[u].pc, wr, false);
        }
        Slot& s = wr ? c.w[cur] : c.r[cur];
        u32 k = f.vc.c[cur];
        if(s.clk == k) s.mask |= m; else { s.clk = k; s.mask = m; }
        s.pc = pc;
    }
}
static void region(int ino, u64 off, u64 len, bool wr)
{
    if(!active_ || cur < 0 || !opt.races || !len) return;
    Fiber& f = fib[cur];
    void* pc = nullptr;
    // innermost library frame
    if(!f.calls.empty()) pc = f.calls.back();
    for(auto& r : regs)
        if(r.t != cur && r.ino == ino && (wr || r.wr) && off < r.off + r.len && r.off < off + len && r.clk > f.vc.c[r.t])
            report("file region race", pc, r.pc, wr, r.wr);
    u32 k = f.vc.c[cur];
    for(auto& r : regs) if(r.t == cur && r.ino == ino && r.off == off && r.len == len && r.wr == wr){ r.clk = k; r.pc = pc; return; }
    regs.push_back({ino, off, len, cur, k, wr, pc});
}
static void tick(){ fib[cur].vc.c[cur]++; }
static void acquire(VC const& v){ fib[cur].vc.join(v); }
static void release(VC& v){ v.join(fib[cur].vc); tick(); }
void ignore(bool on){ if(cur >= 0) fib[cur].ign += on ? 1 : -1; }

// ---------------------------------------------------------------- scheduling
static bool en(Fiber& f)        // can take its step now, without timers
{
    switch(f.st)
    {
    case P::run: case P::yield: return true;
    case P::lock: { auto& m = mxs[f.obj]; return m.owner < 0; }
    case P::wrlock: { auto& r = rws[f.obj]; return r.writer < 0 && r.readers == 0; }
    case P::rdlock: { auto& r = rws[f.obj]; return r.writer < 0; }
    case P::cready: { auto& m = mxs[f.mtx]; return m.owner < 0; }
    case P::join: return f.target < 0 || fib[f.target].st == P::done;
    default: return false;
    }
}
static void grant(Fiber& f, bool timer, bool spur)
{
    // perform the synchronisation the fiber was waiting for
    auto lockit = [&](void* mo){ auto& m = mxs[mo]; m.owner = f.id; m.count = 1; ++f.held; f.vc.join(m.vc); };
    if(timer){ if(f.deadline > vnow) vnow = f.deadline; f.timedout = true; }
    switch(f.st)
    {
    case P::lock: lockit(f.obj); break;
    case P::rdlock: { auto& r = rws[f.obj]; ++r.readers; f.vc.join(r.wvc); break; }
    case P::wrlock: { auto& r = rws[f.obj]; r.writer = f.id; f.vc.join(r.wvc); f.vc.join(r.rvc); break; }
    case P::cready: lockit(f.mtx); break;
    case P::cwait: // timeout or spurious wakeup: needs the mutex
    { f.st = P::cready; f.spur = spur; auto& m = mxs[f.mtx]; if(m.owner >= 0) return; lockit(f.mtx); break; }
    case P::join: if(f.target >= 0) f.vc.join(fib[f.target].vc); break;
    default: break;
    }
    f.st = P::run;
}
[[noreturn]] static void leave(Out o, std::string const& why)
{
    res->out = o; res->why = why; finished_ = true;
    void* dummy; int c = cur; cur = -1;
    sch_switch(c >= 0 ? &fib[c].sp : &dummy, main_sp);
    std::abort();
}
void abandon(std::string const& why){ leave(Out::abandoned, why); }

static std::string status()
{
    static char const* n[] = {"running","lock","rdlock","wrlock","cond wait","cond ready","sleep","join","done","yield"};
    std::string s;
    for(int i = 0; i < nf; ++i){ s += "thread " + std::to_string(i) + ": " + n[(int)fib[i].st];
        if(!fib[i].calls.empty()){ s += " in"; for(int k = (int)fib[i].calls.size() - 1, j = 0; k >= 0 && j < 5; --k, ++j) s += " < " + fname(fib[i].calls[k]); } s += "; "; }
    return s;
}
struct Opt { int t; bool timer, spur; int cost; };
// Decide who runs next.  Called on the current fiber, whose st tells what it waits for.
static void pick()
{
    if(res->steps > opt.max_steps) leave(Out::livelock, "step limit: " + status());
    Opt o[4 * MAXT]; int n = 0;
    int me = cur;
    for(;;)
    {
        n = 0;
        bool mine = me >= 0 && fib[me].st != P::done && fib[me].st != P::yield && en(fib[me]) && !(suspended && suspended(me));
        if(mine) o[n++] = {me, false, false, 0};
        int base = n;
        for(int i = 0; i < nf; ++i) if(i != me && fib[i].st != P::done && en(fib[i]) && !(suspended && suspended(i))) o[n++] = {i, false, false, mine ? 1 : 0};
        (void)base;
        if(!n && me >= 0 && fib[me].st == P::yield && !(suspended && suspended(me))) o[n++] = {me, false, false, 0};
        bool any = n > 0;
        // timers
        u64 best = ~0ull;
        for(int i = 0; i < nf; ++i) if((fib[i].st == P::cwait || fib[i].st == P::sleep) && fib[i].timed && !(suspended && suspended(i))) best = std::min(best, fib[i].deadline);
        for(int i = 0; i < nf; ++i) if((fib[i].st == P::cwait || fib[i].st == P::sleep) && fib[i].timed && !(suspended && suspended(i)))
        {
            if(any){ if(opt.early_timers || fib[i].deadline <= vnow) o[n++] = {i, true, false, 1}; }
            else if(fib[i].deadline == best) o[n++] = {i, true, false, 0};
        }
        if(!any && n == 0) leave(Out::deadlock, "deadlock: " + status());
        if(!any && ++timers > opt.max_timers) leave(Out::livelock, "no progress, only timeouts: " + status());
        if(any && opt.spurious)
            for(int i = 0; i < nf; ++i) if(fib[i].st == P::cwait && !(suspended && suspended(i))) o[n++] = {i, false, true, 1};
        // within the budget
        int k = 0; for(int i = 0; i < n; ++i) if(o[i].cost <= budget) o[k++] = o[i];
        n = k;
        if(!n) leave(Out::deadlock, "internal: no option");
        int c = 0;
        if(n > 1)
        {
            std::size_t pos = res->choices.size();
            if(pos < prefix_->size()) c = (*prefix_)[pos];
            if(c >= n){ gH->fatal("internal: schedule replay diverged"); _exit(77); }
            res->choices.push_back({(unsigned char)n, (unsigned char)c});
        }
        ++res->steps; ++total_steps;
        Opt ch = o[c];
        budget -= ch.cost; if(ch.cost) ++res->preemptions;
        Fiber& f = fib[ch.t];
        grant(f, ch.timer, ch.spur);
        if(f.st != P::run) continue;    // woke up but the mutex is taken
        if(ch.t == me) return;
        ++res->switches;
        if(me >= 0) fib[me].err = errno;
        cur = ch.t;
        void* dummy;
        sch_switch(me >= 0 ? &fib[me].sp : &dummy, f.sp);
        errno = fib[cur].err;
        return;
    }
}
static void point(){ fib[cur].st = P::run; pick(); }
void yield_point(){ if(active_ && cur >= 0) point(); }
static void vfspoint(vfs::Call const& c, int ph)
{
    if(!active_ || cur < 0) return;
    if(!ph && on_file) on_file(cur, c);
    if(c.sys != vfs::Sys::close && opt.file_points) point();
}
void yield(){ fib[cur].st = P::yield; pick(); }

static void entry()
{
    Fiber& f = fib[cur];
    errno = 0;
    if(f.id == 0) (*mainfn)(); else f.ret = f.fn(f.arg);
    f.st = P::done;
    bool alldone = true; for(int i = 0; i < nf; ++i) if(fib[i].st != P::done) alldone = false;
    if(f.id == 0)
    {
        if(!alldone) leave(Out::ok, "threads left");
        leave(Out::ok, "");
    }
    pick();
    std::abort();
}
static void start(Fiber& f)
{
    int i = f.id;
    if(!stacks[i]){ stacks[i] = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(stacks[i], 4096, PROT_NONE); }
    f.stack = stacks[i];
    void** sp = (void**)(f.stack + STK - 64);
    *--sp = nullptr;                // fake return address of entry
    *--sp = (void*)&entry;
    for(int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = sp;
}
Result run(Opts const& o, std::vector<unsigned char> const& prefix, std::function<void()> const& main)
{
    load_syms();
    Result r; res = &r; opt = o; prefix_ = &prefix; budget = o.bound; timers = 0; vnow = 1000000000000ull;
    if(!table) table = (Cell*)mmap(nullptr, sizeof(Cell) * TB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ++epoch; used = 0; usedIdx.clear(); freedRanges.clear(); regs.clear(); mxs.clear(); rws.clear(); atoms.clear(); finished_ = false;
    for(auto& f : fib){ auto c = std::move(f.calls); c.clear(); f = Fiber{}; f.calls = std::move(c); }
    nf = 1; fib[0].id = 0; fib[0].vc.c[0] = 1; mainfn = &main;
    start(fib[0]);
    vfs::sched_point = vfspoint; vfs::region_access = region;
    g_assert_hook = [](std::string const& w){ if(active_) leave(Out::abandoned, "assertion failed: " + w); };
    cur = 0; active_ = true; ++total_execs;
    sch_switch(&main_sp, fib[0].sp);
    active_ = false; cur = -1; g_assert_hook = nullptr;
    vfs::sched_point = nullptr; vfs::region_access = nullptr;
    for(auto p : deferred) ::operator delete(p);
    deferred.clear();
    r.threads = nf; res = nullptr;
    return r;
}

// ---------------------------------------------------------------- pthread
static void lock(void* m, int kind)
{
    Fiber& f = fib[cur];
    { auto& x = mxs[m]; if(x.owner == cur){ if(kind == 1){ ++x.count; return; } leave(Out::deadlock, "deadlock: mutex locked twice by one thread: " + status()); } }
    f.st = P::lock; f.obj = m; pick();
}
static void unlock(void* m)
{
    auto& x = mxs[m];
    if(x.owner != cur) leave(Out::abandoned, "mutex unlocked by a thread that does not hold it: " + status());
    if(--x.count > 0) return;
    x.owner = -1; --fib[cur].held; release(x.vc);
}
static int cwait(void* c, void* m, bool timed, u64 dl)
{
    Fiber& f = fib[cur];
    point();
    unlock(m);
    f.st = P::cwait; f.obj = c; f.mtx = m; f.timed = timed; f.deadline = dl; f.timedout = false; f.spur = false;
    pick();
    f.timed = false;
    return f.timedout ? ETIMEDOUT : 0;
}
static void notify(void* c, bool all)
{
    if(!fib[cur].held) point();
    int w[MAXT], n = 0;
    for(int i = 0; i < nf; ++i) if(fib[i].st == P::cwait && fib[i].obj == c) w[n++] = i;
    if(!n) return;
    if(all){ for(int i = 0; i < n; ++i) fib[w[i]].st = P::cready; return; }
    int k = 0;
    if(n > 1)
    {
        std::size_t pos = res->choices.size();
        if(pos < prefix_->size()) k = (*prefix_)[pos];
        if(k >= n){ gH->fatal("internal: schedule replay diverged"); _exit(77); }
        res->choices.push_back({(unsigned char)n, (unsigned char)k});
    }
    fib[w[k]].st = P::cready;
}
static void vsleep(u64 ns)
{
    Fiber& f = fib[cur]; f.st = P::sleep; f.timed = true; f.deadline = vnow + ns; f.timedout = false; pick(); f.timed = false;
}
static u64 tons(timespec const* t){ return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }

void explore(H& h, Opts const& o, Prog const& p, unsigned long long maxexec)
{
    std::unordered_map<std::string, int> seen;
    auto exec = [&](std::vector<unsigned char> const& pre){
        h.alive();
        if(p.setup) p.setup();
        auto r = run(o, pre, p.body);
        h.count("schedules"); h.count("transitions", r.steps); h.count("traces");
        u64 hs = 1469598103934665603ull; for(auto& c : r.choices){ hs ^= c.chosen; hs *= 1099511628211ull; }
        for(char ch : p.name){ hs ^= (unsigned char)ch; hs *= 1099511628211ull; }
        h.state(hs);
        for(std::size_t i = 0; i < pre.size() && i < r.choices.size(); ++i) if(r.choices[i].chosen != pre[i]) std::abort();
        if(getenv("SCH_DET"))
        {
            if(p.setup) p.setup();
            auto r2 = run(o, pre, p.body); bool same = r2.choices.size() == r.choices.size();
            for(std::size_t i = 0; same && i < r.choices.size(); ++i) same = r.choices[i].n == r2.choices[i].n;
            if(!same) { std::fprintf(stderr, "NONDETERMINISTIC %s: %zu %zu steps %u %u why %s / %s\n", describe(pre).c_str(), r.choices.size(), r2.choices.size(), r.steps, r2.steps, r.why.c_str(), r2.why.c_str()); _exit(3); }
        }
        if(r.preemptions) h.nontrivial(hs);
        h.describe("program " + p.name + " schedule [" + describe(pre) + "]");
        if(p.check) p.check(r);
        return r;
    };
    h.next(p.name);
    std::string onlyp = h.arg("program");
    if(!onlyp.empty() && p.name.find(onlyp) == std::string::npos) return;
    std::vector<unsigned char> empty;
    if(!h.arg("schedule").empty())
    {
        std::vector<unsigned char> pre; std::string s = h.arg("schedule");
        // compact form: pos=choice,pos=choice
        std::size_t i = 0; while(i < s.size()){ std::size_t q; int pos = std::stoi(s.substr(i), &q); i += q + 1; int c = std::stoi(s.substr(i), &q); i += q + 1; if((int)pre.size() <= pos) pre.resize(pos + 1, 0); pre[pos] = c; }
        exec(pre); return;
    }
    // default schedule (every worker runs it to know the choice points)
    // after one warm-up, which initialises function local statics
    if(p.setup) p.setup();
    run(o, empty, p.body);
    if(p.setup) p.setup();
    auto base = run(o, empty, p.body);
    if(h.next()) exec(empty);
    std::vector<std::vector<unsigned char>> stack;
    unsigned long long n = 0;
    struct Prof { std::string const& nm; unsigned long long& n; double t0 = now_s(); ~Prof(){ if(getenv("SCH_PROF")) std::fprintf(stderr, "PROF %8llu %7.1f %s\n", n, now_s() - t0, nm.c_str()); } } prof{p.name, n};
    auto children = [](Result const& r, std::size_t from, std::vector<std::vector<unsigned char>>& to){
        for(std::size_t k = from; k < r.choices.size(); ++k)
            for(unsigned char a = 1; a < r.choices[k].n; ++a)
            {
                std::vector<unsigned char> q(k + 1);
                for(std::size_t z = 0; z < k; ++z) q[z] = r.choices[z].chosen;
                q[k] = a; to.push_back(std::move(q));
            }
    };
    // everything below the schedules on the stack; false if the time is used up
    auto below = [&]{
        while(!stack.empty())
        {
            if((n & 255) == 0 && now_s() > h.deadline){ h.complete = false; return false; }
            if(++n > maxexec){ h.complete = false; h.count("capped_programs"); return false; }
            auto cp = std::move(stack.back()); stack.pop_back();
            auto r = exec(cp);
            if(r.choices.size() >= cp.size()) children(r, cp.size(), stack);
        }
        return true;
    };
    std::vector<std::vector<unsigned char>> l1, l2;
    children(base, 0, l1);
    for(auto& pre : l1)
    {
        bool mine = h.next();
        if(h.stop()) return;
        stack.clear();
        if(o.bound <= 1){ if(mine){ stack.push_back(pre); if(!below()) return; } continue; }
        // work is divided by the first two deviations: every worker needs the choices of the first
        Result r;
        if(mine) r = exec(pre); else { if(p.setup) p.setup(); r = run(o, pre, p.body); h.count("repeated_schedules"); }
        if(r.choices.size() < pre.size()) continue;
        l2.clear(); children(r, pre.size(), l2);
        for(auto& q : l2)
        {
            if(!h.next()){ if(h.stop()) return; continue; }
            stack.push_back(std::move(q));
            if(!below()) return;
        }
    }
}
std::string describe(std::vector<unsigned char> const& prefix)
{
    std::string s; for(std::size_t i = 0; i < prefix.size(); ++i) if(prefix[i]) s += (s.empty() ? "" : ",") + std::to_string(i) + "=" + std::to_string(prefix[i]);
    return s;
}
} // sch

using namespace sch;
#define ACT (active_ && cur >= 0)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if(ACT) lock(m, m->__data.__kind & 3); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if(ACT) unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if(!ACT) return 0;
    point(); auto& x = mxs[m];
    if(x.owner == cur && (m->__data.__kind & 3) == 1){ ++x.count; return 0; }
    if(x.owner >= 0) return EBUSY;
    x.owner = cur; x.count = 1; ++fib[cur].held; acquire(x.vc); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){ if(!ACT) std::abort(); return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t){ if(!ACT) std::abort(); return cwait(c, m, true, tons(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t){ if(!ACT) std::abort(); return cwait(c, m, true, tons(t)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if(ACT) notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if(ACT) notify(c, true); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* r) noexcept { if(ACT){ fib[cur].st = P::rdlock; fib[cur].obj = r; pick(); } return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) noexcept { if(ACT){ fib[cur].st = P::wrlock; fib[cur].obj = r; pick(); } return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) noexcept
{ if(!ACT) return 0; point(); auto& r = rws[p]; if(r.writer >= 0) return EBUSY; ++r.readers; acquire(r.wvc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) noexcept
{ if(!ACT) return 0; point(); auto& r = rws[p]; if(r.writer >= 0 || r.readers) return EBUSY; r.writer = cur; acquire(r.wvc); acquire(r.rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) noexcept
{
    if(!ACT) return 0;
    auto& r = rws[p];
    if(r.writer == cur){ r.writer = -1; release(r.wvc); }
    else { if(!r.readers) leave(Out::abandoned, "rwlock unlocked by a thread that does not hold it"); --r.readers; release(r.rvc); }
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* a) noexcept
{
    if(!ACT) std::abort();
    point();
    if(nf >= MAXT) leave(Out::abandoned, "internal: too many threads");
    Fiber& f = fib[nf]; f.id = nf; f.fn = fn; f.arg = a; f.st = P::run;
    f.vc = fib[cur].vc; f.vc.c[nf] = 1; tick();
    sch::start(f); ++nf;
    *t = (pthread_t)(0x5C000000 + f.id);
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    if(!ACT) std::abort();
    int i = (int)(t - 0x5C000000);
    fib[cur].st = P::join; fib[cur].target = i; pick();
    if(r) *r = fib[i].ret;
    return 0;
}
int pthread_detach(pthread_t) noexcept { return 0; }
pthread_t pthread_self() noexcept
{
    if(ACT) return (pthread_t)(0x5C000000 + cur);
    static pthread_t (*real)() = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
    return real();
}
int sched_yield() noexcept { if(ACT){ fib[cur].st = P::yield; pick(); } return 0; }
int nanosleep(const timespec* t, timespec*){ if(ACT){ vsleep(tons(t)); return 0; } return syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r)
{ if(ACT){ u64 d = tons(t); vsleep(fl & TIMER_ABSTIME ? (d > vnow ? d - vnow : 0) : d); return 0; } return syscall(SYS_clock_nanosleep, c, fl, t, r) ? errno : 0; }
int usleep(useconds_t u){ if(ACT){ vsleep((u64)u * 1000); return 0; } timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); }
int clock_gettime(clockid_t c, timespec* t) noexcept
{
    if(ACT){ vnow += 1000; t->tv_sec = vnow / 1000000000ull; t->tv_nsec = vnow % 1000000000ull; return 0; }
    return syscall(SYS_clock_gettime, c, t);
}

// ------------------------------------------------------------ instrumentation
#define PC __builtin_return_address(0)
void __tsan_init(){}
void __tsan_func_entry(void* pc){ (void)pc; if(ACT) fib[cur].calls.push_back(__builtin_return_address(0)); }
void __tsan_func_exit(){ if(ACT && !fib[cur].calls.empty()) fib[cur].calls.pop_back(); }
#define RW(n) \
void __tsan_read##n(void* p){ access(p, n, false, PC); } \
void __tsan_write##n(void* p){ access(p, n, true, PC); } \
void __tsan_unaligned_read##n(void* p){ access(p, n, false, PC); } \
void __tsan_unaligned_write##n(void* p){ access(p, n, true, PC); } \
void __tsan_volatile_read##n(void* p){ access(p, n, false, PC); } \
void __tsan_volatile_write##n(void* p){ access(p, n, true, PC); } \
void __tsan_read_write##n(void* p){ access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n){ access(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n){ access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v){ if(*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p){ access(p, 8, false, PC); }
void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
static void aload(void const* p, int mo){ if(ACT){ point(); if(mo != __ATOMIC_RELAXED) acquire(atoms[p]); } }
static void astore(void const* p, int mo){ if(ACT){ point(); if(mo != __ATOMIC_RELAXED){ atoms[p] = VC{}; release(atoms[p]); } else atoms[p] = VC{}; } }
static void armw(void const* p, int mo)
{
    if(!ACT) return;
    point();
    if(mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) acquire(atoms[p]);
    if(mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release(atoms[p]);
}
#define AT(T, n) \
T __tsan_atomic##n##_load(T const volatile* p, int mo){ aload((void const*)p, mo); return *p; } \
void __tsan_atomic##n##_store(T volatile* p, T v, int mo){ astore((void const*)p, mo); *p = v; } \
T __tsan_atomic##n##_exchange(T volatile* p, T v, int mo){ armw((void const*)p, mo); T o = *p; *p = v; return o; } \
T __tsan_atomic##n##_fetch_add(T volatile* p, T v, int mo){ armw((void const*)p, mo); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(T volatile* p, T v, int mo){ armw((void const*)p, mo); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(T volatile* p, T v, int mo){ armw((void const*)p, mo); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(T volatile* p, T v, int mo){ armw((void const*)p, mo); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(T volatile* p, T v, int mo){ armw((void const*)p, mo); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##n##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int){ armw((void const*)p, mo); if(*p == *e){ *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int){ armw((void const*)p, mo); if(*p == *e){ *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(T volatile* p, T e, T v, int mo, int){ armw((void const*)p, mo); T o = *p; if(o == e) *p = v; return o; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int){ if(ACT) point(); }
void __tsan_atomic_signal_fence(int){}

// Called instead of memcpy etc. by instrumented objects (objcopy renames them).
void* mc_memcpy(void* d, void const* s, std::size_t n){ access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void* mc_memmove(void* d, void const* s, std::size_t n){ access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* mc_memset(void* d, int c, std::size_t n){ access(d, n, true, PC); return memset(d, c, n); }
int mc_memcmp(void const* a, void const* b, std::size_t n){ access(a, n, false, PC); access(b, n, false, PC); return memcmp(a, b, n); }
} // extern C

// Frees in instrumented objects are deferred to the end of the execution and
// poison the shadow (objcopy renames operator delete there).
static void del(void* p, void* pc)
{
    if(!p) return;
    if(ACT && opt.races){ access(p, malloc_usable_size(p), true, pc, true); deferred.push_back(p); return; }
    ::operator delete(p);
}
static void* nw(std::size_t n)
{
    void* p = ::operator new(n);
    if(ACT && opt.races && n)
    {
        // fresh memory has no history
        u64 g0 = (u64)p >> 3, g1 = ((u64)p + n + 7) >> 3;
        auto one = [&](Cell& c){ c.freed = false; for(auto& s : c.r) s = Slot{}; for(auto& s : c.w) s = Slot{}; };
        if(g1 - g0 < usedIdx.size()) { for(u64 g = g0; g < g1; ++g){ u32 i = (u32)((g * 0x9E3779B97F4A7C15ull) >> 48); for(; table[i].epoch == epoch; i = (i + 1) & (TB - 1)) if(table[i].key == g){ one(table[i]); break; } } }
        else for(auto i : usedIdx) if(table[i].key >= g0 && table[i].key < g1) one(table[i]);
    }
    return p;
}
extern "C" {
void* mc_Znwm(std::size_t n){ return nw(n); }
void* mc_Znam(std::size_t n){ return nw(n); }
void mc_ZdlPv(void* p) noexcept { del(p, PC); }
void mc_ZdaPv(void* p) noexcept { del(p, PC); }
void mc_ZdlPvm(void* p, std::size_t) noexcept { del(p, PC); }
void mc_ZdaPvm(void* p, std::size_t) noexcept { del(p, PC); }
}
