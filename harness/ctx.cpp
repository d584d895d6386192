// C15 the flush context; C03 and C04 for its calls: every schedule within the
// preemption bound of programs with flush threads and one to three stores.
#include "db.hpp"
#include "../engine/sched.hpp"
#include <thread>
using vfs::Image; using vfs::u64;
using Store = nudb::basic_store<MHash, nudb::native_file>;

static std::string path(int s, int f){ static char const* d[] = {"/vfs/a/db", "/vfs/b/db", "/vfs/c/db"}; static char const* e[] = {".dat", ".key", ".log"}; return std::string(d[f]) + std::to_string(s) + e[f]; }
static int storeof(std::string const& p){ auto i = p.find("/db"); return i == std::string::npos ? -1 : p[i + 3] - '0'; }

static std::string P[3][3];
static std::string K[20], V[20];

// Everything the monitors know; touched only with race recording off.
struct Mon {
    int committer[3]; bool open[3]; bool opened[3]; bool stoppedAll = false; int stopsActive = 0;
    int inrun = 0; unsigned ncommits[3]; int failstore = -1; int failafter = 0;
    std::string bad;
    bool busy[9][3];        // thread t is inside open/close/create of store s
    bool nobg = false;      // no background file operation allowed now
    int who_ok = -1, silent = -1;
    int stallstore = -1, stalled = -1;     // the flush of this store stops at its first file operation
    void reset(){ for(int i = 0; i < 3; ++i){ committer[i] = -1; open[i] = opened[i] = false; ncommits[i] = 0; } for(auto& b : busy) for(auto& x : b) x = false; stoppedAll = false; stopsActive = 0; inrun = 0; failstore = -1; failafter = 0; bad.clear(); nobg = false; who_ok = silent = stallstore = stalled = -1; }
};
static Mon M;
static void bad(std::string const& s){ if(M.bad.empty()) M.bad = s; }

static void onfile(int t, vfs::Call const& c)
{
    sch::Quiet q;
    if(!c.path) return;
    int s = storeof(*c.path); if(s < 0 || s > 2) return;
    if(!vfs::mutating(c.sys)) return;
    if(M.busy[t][s]){ M.committer[s] = -1; }
    bool islog = c.path->compare(c.path->size() - 4, 4, ".log") == 0;
    if(M.busy[t][s]) { if(M.committer[s] >= 0 && M.committer[s] != t) bad("close commits while thread " + std::to_string(M.committer[s]) + " is still flushing"); return; }
    // a flush
    if(M.stallstore == s && M.stalled < 0) M.stalled = t;
    if(t == M.silent) bad("explicit flush wrote files although flush threads run");
    if(!M.open[s]) bad("store " + std::to_string(s) + " flushed by thread " + std::to_string(t) + " after close returned");
    if(M.nobg && t != M.who_ok) bad("background thread " + std::to_string(t) + " writes files after stop returned");
    for(int u = 0; u < 9; ++u) if(u != t && M.busy[u][s] && M.committer[s] != t) bad("flush started while close or open is running");
    if(M.committer[s] >= 0 && M.committer[s] != t) bad("two threads flush store " + std::to_string(s) + " at once");
    M.committer[s] = t;
    if(islog && c.sys == vfs::Sys::trunc) M.ncommits[s]++;
    if(islog && c.sys == vfs::Sys::sync && vfs::size_of(*c.path) == 0 && M.ncommits[s]) M.committer[s] = -1;   // end of commit
}

struct Env {
    nudb::context* ctx = nullptr; Store* st[3] = {}; error_code ec; std::string err;
    std::set<int> in[3];        // keys inserted with success
    void fail(std::string const& s){ sch::Quiet q; if(err.empty()) err = s; }
    void make(int s){ st[s] = new Store(*ctx); }
    void open(int s)
    {
        error_code e; { sch::Quiet q; M.busy[sch::self()][s] = true; }
        st[s]->open(P[s][0], P[s][1], P[s][2], e);
        { sch::Quiet q; M.busy[sch::self()][s] = false; if(!e) M.open[s] = M.opened[s] = true; }
        if(e) fail("open failed");
    }
    void insert(int s, int k)
    {
        error_code e; st[s]->insert(K[k].data(), V[k].data(), V[k].size(), e);
        if(e){ if(M.failstore != s) fail("insert failed"); } else { sch::Quiet q; in[s].insert(k); }
    }
    void fetch(int s, int k, bool want)
    {
        error_code e; int n = 0; bool eq = false;
        st[s]->fetch(K[k].data(), [&](void const* p, std::size_t z){ ++n; eq = z == V[k].size() && !std::memcmp(p, V[k].data(), z); }, e);
        if(want ? (e || n != 1 || !eq) : e != nudb::error::key_not_found) if(M.failstore != s) fail("fetch wrong for key " + std::to_string(k));
    }
    void close(int s, bool expectErr = false)
    {
        error_code e; { sch::Quiet q; M.busy[sch::self()][s] = true; }
        // a flush still running when close starts is waited for, so its thread stays the committer
        { sch::Quiet q; M.busy[sch::self()][s] = false; }
        closing[sch::self()] = s;
        st[s]->close(e);
        closing[sch::self()] = -1;
        { sch::Quiet q; M.open[s] = false; }
        if(bool(e) != expectErr && !(expectErr && in[s].empty())) fail(e ? "close failed" : "close reported no error");
    }
    void drop(int s){ delete st[s]; st[s] = nullptr; }
    // wait until store s has been committed n times, at most `tries` sleeps of a second
    bool await(int s, unsigned n, int tries = 14)
    {
        for(int i = 0; i < tries; ++i){ bool d; { sch::Quiet q; d = M.ncommits[s] >= n; } if(d) return true; std::this_thread::sleep_for(std::chrono::milliseconds(1000)); }
        return M.ncommits[s] >= n;
    }
    static int closing[9];
};
int Env::closing[9];

int main(int argc, char** argv)
{
    H h(argc, argv, "C15");
    bool T = h.thorough();
    Cfg cfg; cfg.lf = 0.3f; cfg.use();
    for(int s = 0; s < 3; ++s) for(int f = 0; f < 3; ++f) P[s][f] = path(s, f);
    for(int i = 0; i < 20; ++i){ K[i] = orc::mkkey(i); V[i] = mkval(i, 4 + i % 5); }
    vfs::reset();
    for(int s = 0; s < 3; ++s){ error_code ec; nudb::create<MHash>(P[s][0], P[s][1], P[s][2], 7, 100 + s, 55 + s, 4, 104, 0.3f, ec); if(ec) h.fail("create", "create failed"); }
    Image img = vfs::snapshot();
    Env e;
    std::vector<char> done;

    auto run = [&](std::string const& name, int bound, std::function<void()> body, bool fp = true){
        sch::Prog p; p.name = name;
        p.setup = [&]{ vfs::load(img); vfs::seq = 0; vfs::split_min = 0; M.reset(); e = Env{}; done.clear(); for(auto& c : Env::closing) c = -1;
            vfs::hook = [&](vfs::Call const& c){ sch::Quiet q; vfs::Action a; if(M.failstore >= 0 && c.path && storeof(*c.path) == M.failstore && c.sys == vfs::Sys::write && M.failafter-- <= 0) a.err = EIO; return a; }; };
        p.body = body;
        p.check = [&](sch::Result const& r){
            vfs::hook = nullptr;
            if(r.out != sch::Out::ok || !r.why.empty()){ if(h.prop != "C03") h.fail(sig((r.why.empty() ? "?" : r.why).substr(0, 60)), r.why); return; }
            if(h.prop == "C03"){ for(auto& q : r.races) h.fail(q.first, q.second); return; }
            if(h.prop == "C04"){ if(e.err.find("was not flushed") != std::string::npos) h.fail(sig(e.err), e.err); return; }
            if(!e.err.empty()) h.fail(sig(e.err), e.err);
            if(!M.bad.empty()) h.fail(sig(M.bad), M.bad);
            for(auto& q : r.races) h.fail(q.first, q.second);
            // what was inserted is there
            auto im = vfs::snapshot();
            for(int s = 0; s < 3; ++s)
            {
                if(M.failstore == s || !M.opened[s]) continue;
                if(!im.has(P[s][2]))
                {
                    auto v = orc::decode(getf(im, P[s][0]), getf(im, P[s][1]));
                    if(!v.err.empty()) h.fail("files: " + sig(v.err), "store " + std::to_string(s) + ": " + v.err);
                    Map want; for(int k : e.in[s]) want[K[k]] = V[k];
                    if(v.map != want) h.fail("contents", "store " + std::to_string(s) + " holds the wrong records after close");
                }
                else h.fail("log left", "log file left after close of store " + std::to_string(s));
            }
        };
        sch::Opts o; o.bound = bound < 0 ? 0 : bound; o.file_points = fp; o.races = h.prop != "C04"; o.max_timers = 120;
        sch::on_file = [&](int t, vfs::Call const& c){
            sch::Quiet q;
            // the closing thread commits and removes the log itself
            int s = c.path ? storeof(*c.path) : -1;
            if(s >= 0 && Env::closing[t] == s){ if(vfs::mutating(c.sys) && M.committer[s] >= 0 && M.committer[s] != t) bad("close commits while thread " + std::to_string(M.committer[s]) + " is still flushing"); return; }
            if(s >= 0) for(int u = 0; u < 9; ++u) if(u != t && Env::closing[u] == s && vfs::mutating(c.sys) && M.committer[s] == u) bad("flush while close commits");
            onfile(t, c); };
        sch::suspended = [](int t){ return M.stallstore >= 0 && M.stalled == t; };
        sch::explore(h, o, p);
        sch::on_file = nullptr; sch::suspended = nullptr; vfs::hook = nullptr;
    };
    auto C = [&]{ e.ctx = new nudb::context; };
    auto D = [&]{ delete e.ctx; e.ctx = nullptr; };
    auto need = [&](int s, unsigned n){ if(!e.await(s, n)) e.fail("store " + std::to_string(s) + " was not flushed by the context"); };
    using thr = std::thread;
    // A thread in run() that has not registered yet is not known to stop_all: a user repeats the call until run returned.
    auto runner = [&]{ std::size_t i; { sch::Quiet q; i = done.size(); done.push_back(0); } return thr([&, i]{ e.ctx->run(); sch::Quiet q; done[i] = 1; }); };
    auto stopRun = [&]{ for(;;){ e.ctx->stop_all(); bool d = true; { sch::Quiet q; for(char c : done) d = d && c; } if(d) return; std::this_thread::sleep_for(std::chrono::seconds(1)); } };
    int const B = (T ? 3 : 2) - (h.prop != "C15");
    // programs with many threads: the last preemption is only placed at synchronization calls
    auto heavy = [&](std::string const& name, std::function<void()> body){ run(name, B - 1, body); run(name + " (no points at file calls)", B, body, false); };

    // one store, own background thread, repeated flushes
    run("own context", B, [&]{ e.st[0] = new Store; e.open(0); e.insert(0,1); e.insert(0,2); need(0,1); e.insert(0,3); need(0,2); e.fetch(0,1,true); e.fetch(0,9,false); e.close(0); e.drop(0); });
    run("own context, destroyed open", B, [&]{ e.st[0] = new Store; e.open(0); e.insert(0,1); { sch::Quiet q; Env::closing[0] = 0; } e.drop(0); });
    run("two stores one thread", B, [&]{ C(); e.ctx->start(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); e.insert(1,2); need(0,1); need(1,1); e.close(0); e.insert(1,3); need(1,2); e.close(1); e.drop(0); e.drop(1); D(); });
    run("two stores closed while flushing", B, [&]{ C(); e.ctx->start(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); e.insert(1,2); std::this_thread::sleep_for(std::chrono::seconds(1)); e.close(0); e.close(1); e.drop(0); e.drop(1); D(); });
    run("three stores", B - 1, [&]{ C(); e.ctx->start(); for(int s = 0; s < 3; ++s){ e.make(s); e.open(s); e.insert(s, s); } for(int s = 0; s < 3; ++s) need(s,1); e.close(1); e.insert(0,5); e.insert(2,5); need(0,2); need(2,2); e.close(0); e.close(2); for(int s = 0; s < 3; ++s) e.drop(s); D(); });
    run("three stores closed in the middle of a pass", B, [&]{ C(); e.ctx->start(); for(int s = 0; s < 3; ++s){ e.make(s); e.open(s); e.insert(s, s); } std::this_thread::sleep_for(std::chrono::seconds(1)); e.close(1); e.close(2); e.close(0); for(int s = 0; s < 3; ++s) e.drop(s); D(); });
    // user supplied flush threads
    run("two run threads, one store", B, [&]{ C(); e.make(0); e.open(0); thr a = runner(); thr b = runner(); e.insert(0,1); need(0,1); e.close(0); stopRun(); a.join(); b.join(); e.drop(0); D(); }, false);
    run("two run threads", B - 1, [&]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); thr a = runner(); thr b = runner(); e.insert(0,1); e.insert(1,2); need(0,1); need(1,1); e.insert(0,3); need(0,2); e.close(0); e.close(1); stopRun(); a.join(); b.join(); e.drop(0); e.drop(1); D(); });
    heavy("start and one run thread", [&]{ C(); e.make(0); e.open(0); e.ctx->start(); thr a = runner(); e.insert(0,1); need(0,1); e.insert(0,2); e.close(0); stopRun(); a.join(); e.drop(0); D(); });
    run("three run threads", B - 1, [&]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); thr a = runner(); thr b = runner(); thr c = runner(); e.insert(0,1); e.insert(1,2); need(0,1); need(1,1); stopRun(); a.join(); b.join(); c.join(); e.insert(0,4); e.ctx->flush(); if(M.ncommits[0] < 2) e.fail("explicit flush after stop did nothing"); e.close(0); e.close(1); e.drop(0); e.drop(1); D(); });
    run("run threads and a closing user thread, one store", B, [&]{ C(); e.make(0); e.open(0); e.insert(0,1); thr a = runner(); thr b = runner(); std::this_thread::sleep_for(std::chrono::seconds(1)); e.close(0); stopRun(); a.join(); b.join(); e.drop(0); D(); }, false);
    run("run threads and a closing user thread", B - 1, [&]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); e.insert(1,2); thr a = runner(); thr b = runner(); thr c([&]{ e.close(0); }); std::this_thread::sleep_for(std::chrono::seconds(1)); e.insert(1,3); c.join(); need(1,1); e.close(1); stopRun(); a.join(); b.join(); e.drop(0); e.drop(1); D(); });
    run("reopen under a running context", B, [&]{ C(); e.ctx->start(); e.make(0); e.open(0); e.insert(0,1); e.close(0); e.open(0); e.insert(0,2); need(0,1); e.fetch(0,1,true); e.fetch(0,2,true); e.close(0); e.drop(0); D(); });
    heavy("open and close in two threads", [&]{ C(); e.ctx->start(); e.make(0); e.make(1); thr a([&]{ e.open(0); e.insert(0,1); e.close(0); }); thr b([&]{ e.open(1); e.insert(1,2); e.close(1); }); a.join(); b.join(); e.drop(0); e.drop(1); D(); });
    // explicit flush
    run("two explicit flushers", B, [&]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); e.insert(1,2); thr a([&]{ e.ctx->flush(); e.insert(0,3); e.ctx->flush(); }); thr b([&]{ e.ctx->flush(); e.insert(1,4); e.ctx->flush(); }); a.join(); b.join(); e.ctx->flush(); e.close(0); e.close(1); e.drop(0); e.drop(1); D(); });
    run("explicit flush against close", B, [&]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); e.insert(1,2); thr a([&]{ e.ctx->flush(); }); e.close(0); e.insert(1,5); a.join(); e.ctx->flush(); e.close(1); e.drop(0); e.drop(1); D(); });
    run("explicit flush against start and stop", B, [&]{ C(); e.make(0); e.open(0); e.insert(0,1); thr a([&]{ e.ctx->flush(); e.ctx->flush(); }); e.ctx->start(); e.insert(0,2); e.ctx->stop_all(); a.join(); e.insert(0,3); unsigned n = M.ncommits[0]; e.ctx->flush(); if(M.ncommits[0] == n) e.fail("explicit flush after stop did nothing"); e.close(0); e.drop(0); D(); });
    // flush() is ignored while flush threads run
    auto noop = [&](int s){ int me; { sch::Quiet q; me = sch::self(); M.silent = me; } e.ctx->flush(); sch::Quiet q; M.silent = -1; (void)s; };
    run("explicit flush while started", B, [&]{ C(); e.ctx->start(); e.make(0); e.open(0); e.insert(0,1); need(0,1); e.insert(0,2); noop(0); need(0,2); e.close(0); e.drop(0); D(); });
    run("explicit flush while a run thread runs", B, [&]{ C(); thr a = runner(); e.make(0); e.open(0); e.insert(0,1); need(0,1); e.insert(0,2); noop(0); e.close(0); stopRun(); a.join(); e.drop(0); D(); });
    // stores moved to the flush list by several passes while the flush of another store is slow
    auto sec = []{ std::this_thread::sleep_for(std::chrono::seconds(1)); };
    for(int nb : {1, 2}) for(int order = 0; order < 4; ++order)
    run("passes behind a slow flush, " + std::to_string(nb) + " flushing threads, order " + std::to_string(order), B - nb, [&, nb, order]{ C(); for(int i = 0; i < 3; ++i) e.make(i); e.open(0); e.insert(0,0); { sch::Quiet q; M.stallstore = 0; }
        thr a = runner(), b = runner(), c; if(nb == 2) c = runner(); sec();
        e.open(1); e.insert(1,1); sec(); e.open(2); e.insert(2,2); sec();
        auto release = [&]{ sch::Quiet q; M.stallstore = -1; };
        auto cl = [&](int i){ e.close(i); e.drop(i); };
        if(order == 0){ cl(2); release(); need(1,1); cl(1); cl(0); }
        else if(order == 1){ cl(1); release(); need(2,1); cl(2); cl(0); }
        else if(order == 2){ release(); need(1,1); need(2,1); cl(0); cl(1); cl(2); }
        else { cl(1); e.make(1); e.open(1); e.insert(1,3); sec(); release(); need(1,1); need(2,1); cl(2); cl(0); cl(1); }
        stopRun(); a.join(); b.join(); if(nb == 2) c.join(); D(); });
    // stop returns with no flush thread running
    auto quiesce = [&](std::function<void()> f){ f(); sch::Quiet q; M.nobg = true; M.who_ok = sch::self(); };
    run("stop while flushing", B, [&]{ C(); e.ctx->start(); e.make(0); e.open(0); e.insert(0,1); std::this_thread::sleep_for(std::chrono::seconds(1)); quiesce([&]{ e.ctx->stop_all(); }); e.insert(0,2); unsigned n = M.ncommits[0]; e.ctx->flush(); if(M.ncommits[0] == n) e.fail("explicit flush after stop did nothing"); e.close(0); e.drop(0); D(); });
    run("stop from two threads", B, [&]{ C(); e.ctx->start(); e.make(0); e.open(0); e.insert(0,1); std::this_thread::sleep_for(std::chrono::seconds(1)); thr a([&]{ e.ctx->stop_all(); }); quiesce([&]{ e.ctx->stop_all(); }); e.insert(0,2); a.join(); { sch::Quiet q; M.who_ok = 0; } unsigned n = M.ncommits[0]; e.ctx->flush(); if(M.ncommits[0] == n) e.fail("explicit flush after stop did nothing"); e.close(0); e.drop(0); D(); });
    run("stop of two run threads while flushing", B, [&]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); e.insert(1,1); thr a = runner(); thr b = runner(); std::this_thread::sleep_for(std::chrono::seconds(1)); stopRun(); a.join(); b.join(); { sch::Quiet q; M.nobg = true; M.who_ok = 0; } e.insert(0,2); e.ctx->flush(); e.close(0); e.close(1); e.drop(0); e.drop(1); D(); });
    // stop waits for a flush that runs on a user's thread, whether or not the context has its own thread
    for(int own = 0; own < 3; ++own)
    run("stop while a slow flush runs, own thread " + std::to_string(own), B - 1, [&, own]{ C(); e.make(0); e.make(1); e.open(0); e.open(1); e.insert(0,1); { sch::Quiet q; M.stallstore = 0; }
        if(own == 1) e.ctx->start(); thr a = runner(); if(own == 2) e.ctx->start();
        bool st = false; for(int i = 0; i < 6 && !st; ++i){ sec(); sch::Quiet q; st = M.stalled >= 0; }
        if(!st) e.fail("store was not flushed by the context");
        e.insert(1,2);
        thr r([&]{ sec(); sch::Quiet q; M.stallstore = -1; });
        e.ctx->stop_all();
        { sch::Quiet q; if(M.stallstore >= 0) bad("stop returned while a flush was running"); M.nobg = done[0]; M.who_ok = sch::self(); }
        r.join(); stopRun(); a.join(); { sch::Quiet q; M.nobg = true; M.who_ok = sch::self(); }
        e.insert(0,3); e.ctx->flush(); e.fetch(0,3,true); e.close(0); e.close(1); e.drop(0); e.drop(1); D(); });
    // an error in one store leaves the other alone
    for(int after : {0, 1, 2, 3, 5})
    run("error in one store, failing after " + std::to_string(after) + " writes", after ? B - 1 : B, [&]{ C(); e.ctx->start(); e.make(0); e.make(1); e.open(0); e.open(1); { sch::Quiet q; M.failafter = after; M.failstore = 0; } e.insert(0,1); e.insert(1,2); need(1,1); e.insert(1,3); need(1,2); e.insert(0,5); e.fetch(1,2,true);
        { error_code x; { sch::Quiet q; Env::closing[0] = 0; } e.st[0]->close(x); { sch::Quiet q; Env::closing[0] = -1; M.open[0] = false; } if(!x) e.fail("close of the failed store reported no error"); }
        e.insert(1,4); need(1,3); e.close(1); e.drop(0); e.drop(1); D(); });
    // call sequences: start, stop, flush, insert in any order
    {
        int L = (T ? 6 : 5) - (h.prop != "C15");
        std::uint64_t n = 1; for(int i = 0; i < L; ++i) n *= 4;
        for(std::uint64_t x = 0; x < n; ++x)
        {
            std::string sq; std::uint64_t y = x; for(int i = 0; i < L; ++i){ sq += "SPFI"[y % 4]; y /= 4; }
            if(sq.find("S") == std::string::npos && sq.find("P") == std::string::npos && x) continue;
            // each sequence as one case with bound 0, the interesting ones deeper
            bool deep = sq.find("S") != std::string::npos && sq.find("P") != std::string::npos && sq.find("I") != std::string::npos && sq.find("F") != std::string::npos && (T || x % 3 == 0);
            run("seq " + sq, h.prop != "C15" ? (T ? 1 : 0) : deep ? (T ? 2 : 1) : (T ? 1 : 0), [&, sq]{
                C(); e.make(0); e.open(0); int k = 0; bool started = false; u64 want = 92;
                for(char c : sq)
                {
                    if(c == 'S'){ e.ctx->start(); started = true; { sch::Quiet q; M.nobg = false; } }
                    if(c == 'P'){ e.ctx->stop_all(); started = false; { sch::Quiet q; M.nobg = true; M.who_ok = 0; } }
                    if(c == 'I'){ e.insert(0, ++k); want += 10 + V[k].size(); }
                    if(c == 'F'){ e.ctx->flush(); if(!started && vfs::size_of(P[0][0]) < want) e.fail("explicit flush without flush threads did nothing"); }
                }
                unsigned n0 = M.ncommits[0];
                e.insert(0, ++k);
                if(started) need(0, n0 + 1);
                else { e.ctx->flush(); if(M.ncommits[0] != n0 + 1) e.fail("explicit flush without flush threads did nothing"); }
                e.ctx->stop_all();
                e.close(0); e.drop(0); D(); });
            if(h.stop()) return 0;
        }
    }
    return 0;
}
