// C05 (process crash), C06 (power loss), C07 (nested recovery).
#include "crash.hpp"
#include "hist.hpp"
#include "post.hpp"
#include <deque>
using namespace crash;

static H* g; static std::string prop;
enum { BEGIN = 1, END = 2 };

// Snapshots of completed commits.
struct Snap { Map map; std::string dat, key; u64 h = 0; };
struct Run { Disk base; std::vector<Op> log; std::vector<Snap> snaps; };

// Execute a history; every call that may commit is bracketed by marks.
static bool record(H& h, Hist const& t, Run& r, bool withCreate)
{
    bool ok = true;
    guarded(h, "history", [&]{
        vfs::reset(); vfs::hook = {}; error_code ec;
        t.cfg.use();
        if(withCreate){ r.base = vfs::disk(); vfs::logging = true; vfs::log.clear(); vfs::mark(BEGIN); }
        docreate(t.cfg, ec); if(ec){ ok = false; h.fail("create", "create failed: " + ec.message()); return; }
        if(withCreate) vfs::mark(END);
        else { vfs::logging = true; vfs::log.clear(); r.base = vfs::disk(); }
        Map m; auto snap = [&]{ auto img = vfs::snapshot(); r.snaps.push_back({m, getf(img, DP), getf(img, KP), img.files[DP].hash() * 3 + img.files[KP].hash()}); };
        snap();
        std::unique_ptr<DB<>> db(new DB<>); db->open(ec); if(ec){ ok = false; h.fail("open", "open failed: " + ec.message()); return; }
        bool dirty = false;
        auto commit = [&](bool close){
            if(!dirty){ if(close) db->close(ec); else db->flush(); return; }
            vfs::mark(BEGIN); if(close) db->close(ec); else db->flush(); snap(); vfs::mark(END); dirty = false;
        };
        for(auto& o : t.ops)
        {
            if(o.t == 'I')
            {
                auto k = orc::mkkey(o.k), v = mkval(o.k, o.sz, m.size());
                db->insert(k, v, ec);
                if(!ec){ if(m.count(k)){ ok = false; return; } m[k] = v; dirty = true; }
                else if(ec != nudb::error::key_exists){ ok = false; return; }
                ec = {};
            }
            else if(o.t == 'F') commit(false);
            else { commit(true); if(ec){ ok = false; return; } db.reset(new DB<>); db->open(ec); if(ec){ ok = false; return; } }
        }
        commit(true); if(ec) ok = false;
        db.reset();
    });
    vfs::logging = false; r.log = std::move(vfs::log); vfs::log.clear(); vfs::drop_fds();
    return ok;
}

// Allowed outcomes at a point of the log: number of completed commits, and
// whether one is in progress.
struct Pt { int done; bool inprog; };
static std::vector<Pt> points(Run const& r, bool withCreate)
{
    std::vector<Pt> p(r.log.size() + 1); int done = withCreate ? -1 : 0; bool in = false;
    for(std::size_t i = 0; i <= r.log.size(); ++i)
    {
        p[i] = {done, in};
        if(i < r.log.size() && r.log[i].kind == OpKind::mark){ if(r.log[i].tag == BEGIN) in = true; else { in = false; ++done; } }
    }
    return p;
}

// Open the crashed image through the store.
static std::unordered_map<u64, int> slCount;
static void second_level(H& h, Hist const& t, Image const& img, Map const& expect, u64 cfgh, std::string const& where);
static std::unordered_map<u64, u64> openMemo;      // image+config -> post hash (0: failed)
static void judge(H& h, Hist const& t, Run const& r, Image const& img, Pt pt, u64 cfgh, std::string const& where)
{
    h.count("images");
    u64 ih = img.hash() ^ cfgh;
    u64 key = ih * 31 + pt.done * 2 + pt.inprog;
    static std::unordered_set<u64> seen;          // per worker, cleared per case
    static std::uint64_t lastCase = ~0ull;
    if(lastCase != h.caseno){ lastCase = h.caseno; seen.clear(); }
    if(!seen.insert(key).second) return;
    h.state(ih); if((h.counters["images"] & 255) == 0) h.alive();
    vfs::load(img); h.count("transitions");
    Post p; bool opened = false; std::string operr; bool noDb = false;
    auto mit = openMemo.find(ih);
    u64 ph;
    if(mit != openMemo.end() && mit->second){ ph = mit->second; opened = true; p = postMemo[ph]; }
    else
    {
        bool ok = guarded(h, "open after crash", [&]{
            DB<> db; error_code ec; db.open(ec);
            if(ec)
            {
                operr = ec.message();
                // before create returned: no database yet is fine
                noDb = true; return;
            }
            opened = true;
            auto now = vfs::snapshot();
            ph = now.hash() ^ cfgh;
            auto it = postMemo.find(ph);
            if(it == postMemo.end()) it = postMemo.emplace(ph, post_check(h, t.cfg, t.nkeys, db, now)).first;
            p = it->second;
            openMemo[ih] = ph;
        });
        vfs::drop_fds();
        if(!ok){ h.append(where); return; }
    }
    auto bad = [&](std::string const& s, std::string const& m){ auto d = h.desc(); h.append(where); h.fail(s, m); h.describe(d); };
    if(!opened){ if(pt.done < 0 && noDb) return; bad("crash:open:" + operr, "open fails after the crash: " + operr); return; }
    if(!p.err.empty()){ if(pt.done < 0) return; bad("crash:post:" + sig(p.err), p.err); return; }
    bool a = pt.done >= 0 && p.map == r.snaps[pt.done].map;
    bool b = pt.inprog && p.map == r.snaps[pt.done + 1].map;
    if(pt.done < 0) b = p.map.empty();
    if(!a && !b)
    {
        std::size_t n = p.map.size(), lo = pt.done >= 0 ? r.snaps[pt.done].map.size() : 0;
        bad(n < lo ? "crash:lost" : "crash:partial", "contents after recovery are neither the last completed commit nor the one in progress: " + std::to_string(n) + " keys, last commit has " + std::to_string(lo));
        return;
    }
    if(pt.inprog) h.nontrivial(key);
    if(prop == "C06" && pt.done >= 0)
    {
        auto l = img.files.find(LP);
        if(l != img.files.end() && l->second.size >= 62 && slCount[ph * 2 + (getf(img, KP) != r.snaps[pt.done].key)]++ < (h.thorough() ? 16 : 1)) second_level(h, t, img, p.map, cfgh, where);
    }
}

// C06: power loss during or after the recovery of a crashed image and the use
// that follows it.
static void second_level(H& h, Hist const& t, Image const& img, Map const& expect, u64 cfgh, std::string const& where)
{
    vfs::load(img); auto base = vfs::disk();
    Map m = expect; std::vector<Op> log; bool ok = true;
    std::vector<Map> maps{expect};
    guarded(h, "recovery and use", [&]{
        vfs::log.clear(); vfs::logging = true; error_code ec;
        DB<> db; db.open(ec); if(ec){ ok = false; return; }
        for(int round = 0; round < 2; ++round)
        {
            for(int i = 0; i < 2; ++i){ auto k = orc::mkkey(200 + round * 2 + i), v = mkval(i + 3, 6 + i); db.insert(k, v, ec); m[k] = v; if(ec){ ok = false; return; } }
            vfs::mark(BEGIN); if(round) db.close(ec); else db.flush(); vfs::mark(END); maps.push_back(m);
        }
    });
    vfs::logging = false; log = std::move(vfs::log); vfs::log.clear(); vfs::drop_fds();
    if(!ok) return;
    h.count("second_level");
    int done = 0; bool in = false; std::size_t at = 0; u64 capped = 0;
    std::vector<std::pair<int,bool>> pts; for(std::size_t i = 0; i <= log.size(); ++i){ pts.push_back({done, in}); if(i < log.size() && log[i].kind == OpKind::mark){ if(log[i].tag == BEGIN) in = true; else { in = false; ++done; } } }
    (void)at; std::unordered_set<u64> seen;
    power_images(base, log, 0, 64, capped, [&](Image const& x, std::size_t i){
        auto pt = pts[i];
        u64 xh = x.hash() ^ cfgh; if(!seen.insert(xh * 31 + pt.first * 2 + pt.second).second) return;
        h.count("transitions"); h.count("second_images"); h.state(xh);
        vfs::load(x); error_code ec; Map got; std::string err;
        guarded(h, "second recovery", [&]{ DB<> db; db.open(ec); if(ec) return; auto now = vfs::snapshot(); auto v = orc::decode(getf(now, DP), getf(now, KP)); err = v.err; got = v.map; });
        vfs::drop_fds();
        auto d = h.desc(); h.append(where + " then recovery, use, power loss after op " + std::to_string(i));
        if(ec) h.fail("crash2:open:" + ec.message(), "open fails after a second power loss: " + ec.message());
        else if(!err.empty()) h.fail("crash2:decode:" + sig(err), "after a second power loss: " + err);
        else if(got != maps[pt.first] && !(pt.second && got == maps[pt.first + 1])) h.fail("crash2:content", "after a second power loss the contents are neither the last completed commit nor the one in progress");
        h.describe(d);
    });
}
// C07: graph of disk states reachable by interrupting recovery
static u64 g_capped = 0;
static int faultsDone;
static void nested(H& h, Hist const& t, Run const& r, Image const& img, Pt pt, u64 cfgh, std::string const& where, bool power)
{
    // two allowed results
    auto accept = [&](Image const& m) -> int {
        auto d = getf(m, DP), k = getf(m, KP);
        if(pt.done >= 0 && d == r.snaps[pt.done].dat && k == r.snaps[pt.done].key) return 0;
        if(pt.inprog && d == r.snaps[pt.done + 1].dat && k == r.snaps[pt.done + 1].key) return 1;
        return -1;
    };
    // explored (image, allowed results) pairs, shared by all histories of this worker
    static std::unordered_map<u64, signed char> seen; if(seen.size() > 4000000) seen.clear();
    u64 ah = cfgh;
    if(pt.done >= 0) ah = ah * 31 + r.snaps[pt.done].h; if(pt.inprog) ah = ah * 37 + r.snaps[pt.done + 1].h;
    struct N { Image img; int depth; std::string path; u64 key; };
    std::deque<N> work;
    struct Edge { u64 to; int a; std::string path; };       // results still to be compared
    std::vector<Edge> edges;
    auto push = [&](Image const& m, int depth, int pin, std::string const& path, long x, long y){
        h.count("images"); u64 key = m.hash() ^ ah;
        auto it = seen.emplace(key, 2);
        auto P = [&]{ return depth ? path + std::to_string(x) + (y >= 0 ? "/" + std::to_string(y) : "") : path; };
        if(it.second) work.push_back({m, depth, P(), key});
        if(pin >= 0)
        {
            if(it.first->second == 2) edges.push_back({key, pin, P()});
            else if(it.first->second != pin && it.first->second >= 0) edges.push_back({key, pin, P()});
        }
    };
    push(img, 0, -1, where, 0, 0);
    auto bad = [&](N const& n, std::string const& s, std::string const& m){ auto d = h.desc(); h.append(n.path); h.fail(s, m); h.describe(d); };
    while(!work.empty())
    {
        N n = std::move(work.front()); work.pop_front();
        if((h.counters["recoveries"] & 255) == 0) h.alive();
        h.state(n.img.hash() ^ cfgh); h.count("recoveries"); h.count("transitions");
        if(h.counters["maxdepth"] < (u64)n.depth) h.counters["maxdepth"] = n.depth;
        vfs::load(n.img); auto base = vfs::disk(); vfs::log.clear(); vfs::logging = true; vfs::seq = 0;
        error_code ec;
        bool ok = guarded(h, "recover", [&]{ nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec); });
        vfs::logging = false; auto calls = vfs::seq; auto log = std::move(vfs::log); vfs::log.clear();
        if(!ok){ bad(n, "recover:throws", "recover threw"); vfs::drop_fds(); continue; }
        if(vfs::open_fds()){ bad(n, "recover:fds", "recover leaks descriptors"); vfs::drop_fds(); }
        if(ec){ bad(n, "recover:fails:" + ec.message(), "recover fails: " + ec.message()); continue; }
        auto fin = vfs::snapshot();
        int a = accept(fin);
        if(a < 0)
        {
            auto d = getf(fin, DP), k = getf(fin, KP); auto& s = r.snaps[std::max(0, pt.done)];
            bad(n, std::string("recover:inexact:") + (d != s.dat ? d.size() != s.dat.size() ? "datsize" : "dat" : k.size() != s.key.size() ? "keysize" : "key"),
                "recovered files differ from the committed ones: dat " + std::to_string(d.size()) + "/" + std::to_string(s.dat.size()) + " key " + std::to_string(k.size()) + "/" + std::to_string(s.key.size()));
            continue;
        }
        seen[n.key] = a;
        if(fin.has(LP)){ bad(n, "recover:log", "log file remains after recovery"); continue; }
        // again: nothing changes
        if(!log.empty() || n.depth == 0)
        {
            vfs::log.clear(); vfs::logging = true; ec = {};
            guarded(h, "recover", [&]{ nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec); });
            vfs::logging = false;
            if(ec || !(vfs::snapshot() == fin)) bad(n, "recover:idempotent", "recovering again changes the files or fails: " + ec.message());
        }
        if(log.empty()) continue;
        h.nontrivial(n.img.hash() ^ cfgh);
        // interrupt it: crash
        if(power) power_images(base, log, h.thorough() ? 1 : 0, 64, g_capped, [&](Image const& m, std::size_t i){ push(m, n.depth + 1, a, n.path + " recovery-power@", i, -1); });
        kill_images(base, log, h.thorough() ? 1 : 0, [&](Image const& m, std::size_t i, long torn){ push(m, n.depth + 1, a, n.path + " recovery-crash@", i, torn); });
        // interrupt it: each call fails
        if(n.depth <= (h.thorough() ? 3 : 1)) for(u64 k = 0; k < calls; ++k) for(int part = 0; part < 2; ++part)
        {
            vfs::load(n.img); vfs::seq = 0; bool hit = false, part_ok = part == 0;
            vfs::hook = [&](vfs::Call const& c) -> vfs::Action {
                if(c.seq != k || c.sys == vfs::Sys::close) return {};
                hit = true;
                if(part){ if(c.sys != vfs::Sys::write || c.len < 2) return {}; part_ok = true; return {5, (std::int64_t)(c.len / 2), true}; }
                return {5}; };
            error_code e2;
            guarded(h, "recover under fault", [&]{ nudb::recover<MHash, nudb::native_file>(DP, KP, LP, e2); });
            vfs::hook = {}; vfs::drop_fds();
            if(!hit || !part_ok) continue;
            h.count("transitions"); h.count("faults");
            auto m = vfs::snapshot();
            if(!e2 && (accept(m) < 0 || m.has(LP))) bad(n, "recover:swallow", "recover reports success although call " + std::to_string(k) + " failed and the result is not complete");
            push(m, n.depth + 1, a, n.path + " recovery-fault@", k, -1);
        }
    }
    for(auto& e : edges)
    {
        auto it = seen.find(e.to);
        if(it != seen.end() && it->second < 2 && it->second >= 0 && it->second != e.a)
        { N n; n.path = e.path; bad(n, "recover:flips", "a restarted recovery reaches a different result than the interrupted one"); }
    }
}

static void one(H& h, Hist const& t)
{
    h.describe(hstr(t)); h.sample(hstr(t), 2);
    bool power = prop == "C06", nest = prop == "C07";
    Run r;
    if(!record(h, t, r, power)){ return; }
    h.count("traces"); h.count("ops", r.log.size());
    auto pts = points(r, power);
    u64 cfgh = 0; for(char c : t.cfg.str()) cfgh = cfgh * 131 + (unsigned char)c;
    cfgh = cfgh * 0x9E3779B97F4A7C15ull + t.nkeys;
    if(postMemo.size() > 200000){ postMemo.clear(); openMemo.clear(); }
    u64 capped = 0;
    if(!power && !nest)
        kill_images(r.base, r.log, h.thorough() ? 2 : 1, [&](Image const& m, std::size_t i, long torn){
            judge(h, t, r, m, pts[i], cfgh, " crash after op " + std::to_string(i) + (torn >= 0 ? " torn at " + std::to_string(torn) : "")); });
    else if(power)
        power_images(r.base, r.log, h.thorough() ? 2 : 1, h.thorough() ? 4096 : 128, capped, [&](Image const& m, std::size_t i){
            judge(h, t, r, m, pts[i], cfgh, " power loss after op " + std::to_string(i)); });
    else
    {
        kill_images(r.base, r.log, h.thorough() ? 1 : 0, [&](Image const& m, std::size_t i, long torn){
            nested(h, t, r, m, pts[i], cfgh, " crash after op " + std::to_string(i) + (torn >= 0 ? " torn at " + std::to_string(torn) : ""), true); });
    }
    if(capped) h.count("capped_products", capped);
}

int main(int argc, char** argv)
{
    H h(argc, argv, "C05"); g = &h; prop = h.prop;
    int scale = h.thorough() ? 1 : 0; if(prop == "C07") --scale;
    auto f = [&](Hist const& t){ one(h, t); };
    hist_ops(h, scale, f); hist_masks(h, scale, f); hist_hashes(h, scale, f); hist_values(h, scale, f); hist_dims(h, scale, f);
    h.finish();
}
