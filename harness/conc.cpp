// C02 linearizability, C03 data races, C04 progress: every schedule within the
// preemption bound of small concurrent programs on one store.
#include "db.hpp"
#include "../engine/sched.hpp"
#include <thread>
using vfs::Image; using vfs::u64;

struct POp { char t; int k = 0; int ver = 0; };         // i insert, f fetch, F flush, b set_burst, s sleep
struct Rec { POp op; int thread, idx; unsigned inv = 0, rsp = 0; int res = -1; int cb = 0; bool done = false; std::string got; };
// res: 0 ok, 1 key_exists, 2 key_not_found, 3 other error
struct Layout { std::string name; Cfg cfg; std::vector<int> disk; std::vector<int> flushAt; };

using Store = nudb::basic_store<MHash, nudb::native_file>;

static std::string valof(int k, int ver){ return mkval(k, 3 + (k * 5 + ver * 3) % 11, ver); }

static std::vector<POp> parse(std::string const& s)
{
    std::vector<POp> v; std::size_t i = 0;
    while(i < s.size())
    {
        if(s[i] == ' '){ ++i; continue; }
        POp o{s[i++]};
        int n = 0; bool any = false; while(i < s.size() && isdigit(s[i])){ n = n * 10 + s[i++] - '0'; any = true; }
        if(any) o.k = n;
        v.push_back(o);
    }
    return v;
}
static int code(error_code const& ec)
{ return !ec ? 0 : ec == nudb::error::key_exists ? 1 : ec == nudb::error::key_not_found ? 2 : 3; }

// Executes one operation of the store (instrumented code).
static void doop(nudb::context& ctx, Store& s, Rec& r, std::string const& key, std::string const& val)
{
    error_code ec;
    r.inv = sch::now();
    switch(r.op.t)
    {
    case 'i': s.insert(key.data(), val.data(), val.size(), ec); break;
    case 'f': s.fetch(key.data(), [&](void const* p, std::size_t n){ ++r.cb; r.got.resize(n); std::memcpy(&r.got[0], p, n); /* not assign: libstdc++ is not instrumented */ }, ec); break;
    case 'F': ctx.flush(); break;
    case 'b': s.set_burst(r.op.k); break;
    case 's': std::this_thread::sleep_for(std::chrono::milliseconds(r.op.k)); break;
    }
    r.res = code(ec);
    r.rsp = sch::now();
    r.done = true;
}

// Wing-Gong search: is there a sequential order of the calls, consistent with
// real time, that explains every result?
struct Lin {
    std::vector<Rec const*> o; std::map<int, std::string> init;
    std::unordered_set<std::string> seen;
    // state: which operations are done (bitmask) and, per key, the version present
    bool go(std::uint64_t done, std::map<int,std::string>& m)
    {
        if(done == (o.size() == 64 ? ~0ull : (1ull << o.size()) - 1)) return true;
        std::string k((char const*)&done, 8); for(auto& x : m) k += x.second + "|";
        if(!seen.insert(k).second) return false;
        for(std::size_t i = 0; i < o.size(); ++i)
        {
            if(done >> i & 1) continue;
            bool ok = true;
            for(std::size_t j = 0; j < o.size() && ok; ++j)
                if(!(done >> j & 1) && j != i && ((o[j]->thread == o[i]->thread && o[j]->idx < o[i]->idx) || o[j]->rsp < o[i]->inv)) ok = false;
            if(!ok) continue;
            auto it = m.find(o[i]->op.k); auto const& r = *o[i];
            if(r.op.t == 'f')
            {
                if(it == m.end()){ if(r.res != 2 || r.cb) continue; }
                else if(r.res != 0 || r.cb != 1 || r.got != it->second) continue;
                if(go(done | 1ull << i, m)) return true;
            }
            else
            {
                if(it != m.end()){ if(r.res != 1) continue; if(go(done | 1ull << i, m)) return true; }
                else
                {
                    if(r.res != 0) continue;
                    m[r.op.k] = valof(r.op.k, r.op.ver);
                    if(go(done | 1ull << i, m)) return true;
                    m.erase(r.op.k);
                }
            }
        }
        return false;
    }
};
static std::string show(Rec const& r)
{
    static char const* n[] = {"ok", "key_exists", "not_found", "error"};
    std::string s = "t" + std::to_string(r.thread) + ":" + r.op.t + std::to_string(r.op.k);
    if(r.op.t == 'i') s += "v" + std::to_string(r.op.ver);
    s += "=" + std::string(r.res < 0 ? "none" : n[r.res]);
    if(r.op.t == 'f' && r.res == 0) s += "(" + hex(r.got, 6) + ")x" + std::to_string(r.cb);
    return s + "@" + std::to_string(r.inv) + "-" + std::to_string(r.rsp);
}

struct Script {
    std::string name; Layout const* lay; std::string setup; std::vector<std::string> threads;
    std::vector<std::string> late;      // started only once thread 1 is stalled (C04)
    int bound = 2; int stall = -1;      // stall: file operation of thread 1 to hang in
    bool failing = false;               // file operation number stall of thread 1 fails instead, and keeps failing
    int fmode = 0;                      // 1: fails once, 2: once, half of a write is done
};

static Image base_image(Layout const& l)
{
    vfs::reset(); vfs::logging = false; vfs::hook = nullptr; vfs::after = nullptr;
    l.cfg.use();
    error_code ec; docreate(l.cfg, ec);
    if(!l.disk.empty())
    {
        DB<> db; db.open(ec);
        for(std::size_t i = 0; i < l.disk.size(); ++i)
        {
            db.insert(orc::mkkey(l.disk[i]), valof(l.disk[i], 0), ec);
            if((i + 1) % 4 == 0) db.flush();
        }
        db.close(ec);
    }
    return vfs::snapshot();
}

// C08: a commit that failed while other threads were using the store
static void failcheck(H& h, Script const& sc, std::vector<std::vector<POp>> const& ops, std::vector<std::vector<Rec>> const& recs, std::vector<Rec> const& fin,
    std::map<int, std::string>& kb, bool faulted, bool first, error_code const& ecClose)
{
    auto const& L = *sc.lay;
    auto known = [&](int k, std::string const& v){
        for(int d : L.disk) if(d == k) return v == valof(k, 0);
        for(auto& t : ops) for(auto& o : t) if(o.t == 'i' && o.k == k && v == valof(k, o.ver)) return true;
        return false; };
    for(auto& t : recs) for(auto& x : t) if(x.op.t == 'f' && x.res == 0 && (x.cb != 1 || !known(x.op.k, x.got))) h.fail("failing fetch value", "fetch returned bytes never inserted while a commit fails: " + show(x));
    for(auto& x : fin)
    {
        if(faulted ? x.res != 3 : x.res == 3) h.fail(faulted ? "failure not sticky" : "failure without fault", "a call after the failed commit does not report it, or fails without: " + show(x));
        if(x.res == 0 && (x.cb != 1 || !known(x.op.k, x.got))) h.fail("failing fetch value", "wrong bytes: " + show(x));
    }
    if(faulted != bool(ecClose)) h.fail("close after failure", faulted ? "close does not report the failed commit" : "close fails: " + ecClose.message());
    if(vfs::open_fds()) h.fail("fds after failure", "descriptors left open after a failed commit");
    vfs::drop_fds();
    // reopened, without faults
    error_code ec; Map m; std::string err; h.count("reopened");
    static std::unordered_map<u64, std::pair<std::string, Map>> memo; if(memo.size() > 20000) memo.clear();
    u64 ih = vfs::snapshot().hash() ^ std::hash<std::string>()(L.name); h.state(ih);
    auto it = memo.find(ih);
    if(it == memo.end())
    {
        guarded(h, "reopen after failed commit", [&]{
            DB<> db; db.open(ec); if(ec){ err = "reopening after a failed commit fails: " + ec.message(); return; }
            auto im = vfs::snapshot(); auto v = orc::decode(getf(im, DP), getf(im, KP)); err = v.err; m = v.map;
            if(err.empty()) for(auto& k : kb){ auto e = check_fetch(db, k.second, m); if(!e.empty()) err = "after reopening " + e; }
            for(int i = 0; i < 3; ++i){ db.insert(orc::mkkey(100 + i), mkval(i, 5), ec); if(i == 1) db.flush(); }
            db.close(ec); if(ec && err.empty()) err = "using the reopened store fails: " + ec.message();
            im = vfs::snapshot(); v = orc::decode(getf(im, DP), getf(im, KP)); if(!v.err.empty() && err.empty()) err = "after reopening and use " + v.err;
            for(int i = 0; i < 3; ++i) v.map.erase(orc::mkkey(100 + i));
            if(err.empty() && v.map != m) err = "contents change by using the reopened store";
        });
        vfs::drop_fds();
        it = memo.emplace(ih, std::make_pair(err, m)).first;
    }
    err = it->second.first; m = it->second.second;
    if(!err.empty()){ h.fail("reopen: " + sig(err), err); return; }
    std::size_t setup = 0, have = 0; bool extra = false;
    for(auto& o : ops[0]) if(o.t == 'i'){ ++setup; auto i = m.find(kb[o.k]); if(i != m.end()) ++have; }
    for(int d : L.disk) if(!m.count(kb[d]) || m[kb[d]] != valof(d, 0)) h.fail("lost committed", "a committed value is lost after a failed commit");
    for(auto& k : kb)
    {
        auto i = m.find(k.second); if(i == m.end()) continue;
        if(!known(k.first, i->second)) h.fail("wrong after reopen", "a value never inserted is found after reopening");
        bool d = std::find(L.disk.begin(), L.disk.end(), k.first) != L.disk.end(); if(!d) extra = true;
        // its insert must not have reported a failure
        if(!d){ bool any = false; for(auto& t : recs) for(auto& x : t) if(x.op.t == 'i' && x.op.k == k.first && x.res == 0) any = true; if(!any) h.fail("failed insert stored", "a value whose insert failed is found after reopening"); }
    }
    if(first || !faulted ? have != setup : extra && have != setup) h.fail("partial commit", "part of a commit is found after reopening, or a finished one is lost");
    if(!faulted){ for(auto& t : recs) for(auto& x : t) if(x.op.t == 'i' && x.res == 0 && (!m.count(kb[x.op.k]) || m[kb[x.op.k]] != valof(x.op.k, x.op.ver))) h.fail("lost insert", "an inserted value is lost although close reported success"); }
}
static std::map<std::string, unsigned> fileops;     // file operations of thread 1 in the default schedule

static void runscript(H& h, Script const& sc)
{
    auto const& L = *sc.lay;
    static std::map<std::string, Image> images;
    auto im = images.find(L.name); if(im == images.end()) im = images.emplace(L.name, base_image(L)).first;
    Image const& img = im->second;
    L.cfg.use();
    std::vector<std::vector<POp>> ops; ops.push_back(parse(sc.setup));
    for(auto& t : sc.threads) ops.push_back(parse(t));
    for(auto& t : sc.late) ops.push_back(parse(t));
    int ver = 1; for(auto& t : ops) for(auto& o : t) if(o.t == 'i') o.ver = ver++;
    std::set<int> keys(L.disk.begin(), L.disk.end()); for(auto& t : ops) for(auto& o : t) if(o.t == 'i' || o.t == 'f') keys.insert(o.k);
    std::map<int, std::string> kb; for(int k : keys) kb[k] = orc::mkkey(k);
    std::vector<std::vector<std::string>> vals(ops.size());
    for(std::size_t t = 0; t < ops.size(); ++t) for(auto& o : ops[t]) vals[t].push_back(valof(o.k, o.ver));
    std::vector<std::vector<Rec>> recs; std::vector<Rec> fin; error_code ecOpen, ecClose; bool closed = false;
    bool stalled = false, released = false, t1done = false, faulted = false, first = false, cleared = false; int t1ops = 0;

    sch::Prog p; p.name = sc.name;
    p.setup = [&]{
        recs.clear(); fin.clear(); ecOpen = {}; ecClose = {}; closed = false; stalled = released = t1done = faulted = first = cleared = false; t1ops = 0;
        for(std::size_t t = 0; t < ops.size(); ++t){ recs.emplace_back(); for(std::size_t i = 0; i < ops[t].size(); ++i){ Rec r; r.op = ops[t][i]; r.thread = t; r.idx = i; r.got.reserve(64); recs[t].push_back(r); } }
        for(int k : keys){ Rec r; r.op = {'f', k, 0}; r.thread = 0; r.idx = 1000 + (int)fin.size(); r.got.reserve(64); fin.push_back(r); }
        vfs::load(img); vfs::seq = 0; vfs::split_min = 8;
    };
    p.body = [&]{
        auto ctx = new nudb::context; auto s = new Store(*ctx);
        s->open(DP, KP, LP, ecOpen);
        if(ecOpen) return;
        for(std::size_t i = 0; i < ops[0].size(); ++i) doop(*ctx, *s, recs[0][i], kb[ops[0][i].k], vals[0][i]);
        std::vector<std::thread> th; th.reserve(8);
        auto spawn = [&](std::size_t t){
            th.emplace_back([&, t]{ for(std::size_t i = 0; i < ops[t].size(); ++i) doop(*ctx, *s, recs[t][i], kb[ops[t][i].k], vals[t][i]); if(t == 1) t1done = true; }); };
        std::size_t n = 1 + sc.threads.size();
        for(std::size_t t = 1; t < n; ++t) spawn(t);
        if(sc.stall >= 0 && !sc.failing)
        {
            if(!sc.late.empty()){ while(!stalled && !t1done) sch::yield(); for(std::size_t t = n; t < ops.size(); ++t) spawn(t); }
            for(std::size_t t = 2; t < ops.size(); ++t) th[t - 1].join();
            released = true;
            th[0].join();
        }
        else for(auto& t : th) t.join();
        for(auto& r : fin) doop(*ctx, *s, r, kb[r.op.k], std::string{});
        s->close(ecClose); closed = true;
        delete s; delete ctx;
    };
    p.check = [&](sch::Result const& r){
        vfs::hook = nullptr;
        std::string hist; for(auto& t : recs) for(auto& x : t) hist += show(x) + " "; hist += "| ";
        for(auto& x : fin) hist += show(x) + " ";
        h.append(" history " + hist);
        if(r.out != sch::Out::ok){ h.fail(sig(r.why.substr(0, 60)), r.why); return; }
        if(h.prop == "C03"){ for(auto& q : r.races) h.fail(q.first, q.second); return; }
        if(h.prop == "C04") return;
        if(ecOpen){ h.fail("open", "open failed " + ecOpen.message()); return; }
        if(h.prop == "C08"){ failcheck(h, sc, ops, recs, fin, kb, faulted, first, ecClose); return; }
        if(sc.failing)
        {
            // results may be errors; successes must still be truthful
            for(auto& t : recs) for(auto& x : t) if(x.op.t == 'f' && x.res == 0)
            {
                bool any = false;
                if(std::find(L.disk.begin(), L.disk.end(), x.op.k) != L.disk.end()) any = x.got == valof(x.op.k, 0);
                for(auto& u : recs) for(auto& y : u) if(y.op.t == 'i' && y.op.k == x.op.k && x.got == valof(y.op.k, y.op.ver)) any = true;
                if(!any) h.fail("failing fetch value", "fetch returned bytes never inserted while a commit fails: " + show(x));
            }
            return;
        }
        Lin l; std::map<int, std::string> m; for(int k : L.disk) m[k] = valof(k, 0);
        for(auto& t : recs) for(auto& x : t)
        {
            if(x.op.t != 'i' && x.op.t != 'f') continue;
            if(x.res == 3){ h.fail("error in concurrent call", "a call failed: " + show(x)); return; }
            l.o.push_back(&x);
        }
        for(auto& x : fin){ if(x.res == 3){ h.fail("error in later call", "a later call failed: " + show(x)); return; } l.o.push_back(&x); }
        l.init = m;
        if(!l.go(0, m)){ h.fail("not linearizable", "no sequential order explains the results: " + hist); return; }
        if(ecClose){ h.fail("close", "close failed: " + ecClose.message()); return; }
        // final files hold exactly what the final fetches saw
        auto im2 = vfs::snapshot();
        auto v = orc::decode(getf(im2, DP), getf(im2, KP));
        if(!v.err.empty()){ h.fail("files after concurrent run: " + sig(v.err), "files do not decode: " + v.err); return; }
        Map want; for(auto& x : fin) if(x.res == 0) want[kb[x.op.k]] = x.got;
        if(v.map != want){ h.fail("files differ from results", "the files do not hold what the calls returned"); return; }
        if(im2.has(LP)) h.fail("log left", "log file left after close");
    };
    sch::Opts o; o.bound = sc.bound; o.races = h.prop == "C03";
    sch::suspended = nullptr; sch::on_file = nullptr;
    if(sc.stall >= 0 && !sc.failing)
    {
        sch::on_file = [&](int t, vfs::Call const&){ sch::Quiet q; if(t == 1 && t1ops++ == sc.stall) stalled = true; };
        sch::suspended = [&](int t){ return t == 1 && stalled && !released; };
    }
    else if(sc.failing)
    {
        sch::on_file = [&](int t, vfs::Call const& c){ sch::Quiet q; if(t == 1 && c.sys != vfs::Sys::close) ++t1ops; };
        auto base = p.setup;
        p.setup = [&, base]{ base(); vfs::hook = [&](vfs::Call const& c){
            sch::Quiet q; vfs::Action a; if(!sch::active() || sch::self() != 1 || c.sys == vfs::Sys::close) return a;
            bool hit = sc.fmode ? t1ops == sc.stall + 1 && !faulted : t1ops > sc.stall;
            bool log = c.path && c.path->size() > 4 && c.path->compare(c.path->size() - 4, 4, ".log") == 0;
            if(!hit){ if(log && c.sys == vfs::Sys::trunc) cleared = true; if(log && c.sys == vfs::Sys::sync && cleared) first = true; return a; }
            if(sc.fmode == 2){ if(c.sys != vfs::Sys::write || c.len < 2){ return a; } faulted = true; return vfs::Action{EIO, (std::int64_t)(c.len / 2), true}; }
            faulted = true; a.err = EIO; return a; }; };
    }
    else sch::on_file = [&](int t, vfs::Call const&){ sch::Quiet q; if(t == 1) ++t1ops; };
    if(sc.stall == -2){ p.setup(); sch::Opts q = o; q.bound = 0; sch::run(q, {}, p.body); fileops[sc.name] = t1ops; sch::on_file = nullptr; return; }
    if(!h.trace || true) sch::explore(h, o, p);
    sch::on_file = nullptr; sch::suspended = nullptr; vfs::hook = nullptr;
}

int main(int argc, char** argv)
{
    H h(argc, argv, "C02");
    bool T = h.thorough();
    auto mk = [](char const* n, int mode, float lf, std::vector<int> disk){ Layout l; l.name = n; l.cfg.mode = mode; l.cfg.lf = lf; l.disk = disk; return l; };
    std::vector<Layout> lays = {
        mk("empty-split", 0, 0.01f, {}),            // every insert splits
        mk("one-bucket", 1, 0.99f, {10,11,12,13}),  // all keys collide, fifth entry fills the bucket
        mk("spilled", 1, 0.99f, {10,11,12,13,14,15,16}),   // spill chain
        mk("split", 0, 0.01f, {10,11,12,13,14,15}),
        mk("spill-split", 3, 0.2f, {10,11,12,13,14,15,16,17,18}),
    };
    {
        // two buckets, all keys in bucket 0; the third insert splits it, odd keys move to bucket 2
        Layout l = mk("mover", 4, 0.99f, {10,11,12,13}); l.cfg.table.resize(20); for(int i = 0; i < 20; ++i) l.cfg.table[i] = 2 * i; lays.push_back(l);
        // three buckets, bucket 1 has a spill chain; the third insert splits it, odd keys move to bucket 3
        Layout m = mk("mover-spill", 4, 0.99f, {10,11,12,13,14,15,16,17,18}); m.cfg.table.resize(20); for(int i = 0; i < 20; ++i) m.cfg.table[i] = 2 * i + 1; lays.push_back(m);
    }
    auto lay = [&](char const* n){ for(auto& l : lays) if(l.name == n) return &l; return (Layout*)nullptr; };
    std::vector<Script> S;
    auto add = [&](char const* l, char const* setup, std::vector<std::string> th, int b = 2){
        Script s; s.lay = lay(l); s.setup = setup; s.threads = th; s.bound = b + (T ? 1 : 0);
        s.name = std::string(l) + "[" + setup + "]"; for(auto& t : th) s.name += "|" + t; S.push_back(s); };
    add("empty-split", "i0 i1", {"F", "f0 f1"});
    add("empty-split", "i0 i1", {"F", "i0 i2"});
    add("empty-split", "i0", {"F", "i1 f1", "i1 f0"});
    add("one-bucket", "i0 i1", {"F", "f10 f0"});
    add("one-bucket", "i0 i1", {"F", "i13 i2 f2"});
    add("one-bucket", "", {"i0 f0", "i0 f0", "i1"});
    add("empty-split", "i0", {"F i1 F i2 f2", "f0"});               // memory of committed values used again
    add("one-bucket", "i0 i1", {"F i2 F i3 F", "f0 f1"});
    add("spilled", "i0", {"F", "f10 f16 f5"});
    add("spilled", "i0 i1", {"F", "i11 i16 i3"});
    add("split", "i0 i1 i2", {"F", "f10 f11"});
    add("split", "i0 i1", {"F", "f12 f13", "f14 f0"}, 1);
    add("split", "i0 i1", {"F", "i12 i3 f3"});
    add("spill-split", "i0 i1", {"F", "f10 f14 f18"});
    add("spill-split", "i0 i1", {"F", "i10 i17 i4"});
    add("empty-split", "i0", {"F i1 F", "f0 f1"});
    add("split", "i0 i1", {"F i2 F", "f10 f13"});
    add("one-bucket", "i0", {"F i1 F i2 F", "f10 f12 f0"}, 1);
    add("split", "i0", {"F", "F", "i1 f0"});
    add("empty-split", "i0", {"F", "i1 F f1"});
    add("split", "i0 i1", {"F F", "i2 f2 i3 f3"});
    add("split", "b1 i0 i1 F s1000 i2", {"F", "i3 i4 f3"}, 1);      // rate limiting
    add("split", "i0 i1", {"F", "b9 i2"}, 1);
    add("mover", "i0 i1 i2", {"F", "f11 f13"});
    add("mover", "i0 i1 i2", {"F", "i11 i13 f10"});
    add("mover", "i1 i0 i2", {"F", "f1 f0", "f13 i1"}, 1);
    add("mover-spill", "i0 i1 i2", {"F", "f11 f17 f18"});
    add("mover-spill", "i0 i1 i2", {"F", "i11 i17 i1"});
    add("mover-spill", "i0 i1 i2", {"F i3 i4 i5 F", "f17 f15", "i15"}, 1);
    add("mover", "i0 i1 i2", {"F", "f11", "f11"});
    if(T)
    {
        add("split", "i0 i1", {"F i2 F", "f10 i3", "f13 i3"}, 1);
        add("spilled", "i0 i1", {"F i2 F", "f10 i3", "f16 i3"}, 1);
        add("spill-split", "i0 i1 i2", {"F i3 F", "f10 f12 f14", "i10 i5"}, 1);
        add("one-bucket", "i0 i1 i2", {"F i3 F i4 F", "i13 i4 f4", "f10"}, 1);
    }
    if(h.prop == "C02" || h.prop == "C03" || h.prop == "C04")
    {
        for(auto& s : S){ runscript(h, s); if(h.stop()) return 0; }
    }
    if(h.prop == "C04")
    {
        // the committing thread hangs in each of its file operations; everything started then completes
        struct W { char const* l; char const* setup; std::vector<std::string> late; };
        std::vector<W> ws;
        for(char const* l : {"empty-split", "one-bucket", "spilled", "split", "spill-split", "mover", "mover-spill"})
        {
            bool e = !std::strcmp(l, "empty-split");
            ws.push_back({l, "i0 i1 i2", {e ? "f0 f1 f5" : "f0 f10 f13 f5"}});
            ws.push_back({l, "i0 i1 i2", {e ? "i0 i3 f3 i4" : "i0 i10 i13 i3 f3"}});
            ws.push_back({l, "i0 i1 i2", {e ? "i3 f0 i3" : "i3 f10 i10", e ? "i3 i4 f1" : "f13 i4 i13"}});
            ws.push_back({l, "i0 i1 i2", {"F i6 F f6", "i3 f3"}});
        }
        for(auto& w : ws)
        {
            Script s; s.lay = lay(w.l); s.setup = w.setup; s.threads = {"F"}; s.late = {}; s.name = std::string("count ") + w.l; s.stall = -2; s.bound = 0;
            runscript(h, s);
            unsigned n = fileops[s.name];
            for(unsigned k = 0; k < n; ++k)
            {
                Script q; q.lay = lay(w.l); q.setup = w.setup; q.threads = {"F"}; q.late = w.late; q.stall = k; q.bound = T ? 3 : 2;
                q.name = std::string("stall ") + w.l + " op " + std::to_string(k) + " of " + std::to_string(n); for(auto& t : w.late) q.name += "|" + t;
                runscript(h, q); if(h.stop()) return 0;
            }
            // started before the stall, at every point
            for(unsigned k = 0; k < n; ++k)
            {
                Script q; q.lay = lay(w.l); q.setup = w.setup; q.threads = {"F"}; for(auto& t : w.late) q.threads.push_back(t); q.stall = k; q.bound = T ? 2 : 1;
                q.name = std::string("hang ") + w.l + " op " + std::to_string(k); for(auto& t : w.late) q.name += "|" + t;
                runscript(h, q); if(h.stop()) return 0;
            }
        }
    }
    if(h.prop == "C03")
    {
        // failing commits: errors are published to concurrent callers without a race
        for(char const* l : {"split", "spilled"})
        {
            Script s; s.lay = lay(l); s.setup = "i0 i1"; s.threads = {"F"}; s.name = std::string("countf ") + l; s.stall = -2; s.bound = 0;
            runscript(h, s);
            unsigned n = fileops[s.name];
            for(unsigned k = 0; k < n; ++k)
            {
                Script q; q.lay = lay(l); q.setup = "i0 i1"; q.threads = {"F F", "i3 f10 i4 f0"}; q.stall = k; q.failing = true; q.bound = T ? 2 : 1;
                q.name = std::string("failing ") + l + " from op " + std::to_string(k);
                runscript(h, q); if(h.stop()) return 0;
                q.threads = {"F F", "i3", "f10 f0"}; q.bound = 2; q.name += " (three threads)";
                runscript(h, q); if(h.stop()) return 0;
            }
        }
    }
    if(h.prop == "C08")
    {
        for(auto& l : lays)
        {
            Script s; s.lay = &l; s.setup = "i0 i1 i2"; s.threads = {"F F"}; s.name = "count8 " + l.name; s.stall = -2; s.bound = 0;
            runscript(h, s);
            unsigned n = fileops[s.name] + 6;       // a second commit adds some
            bool e = l.disk.empty();
            std::vector<std::vector<std::string>> th = {{"F F", e ? "i3 f0 i4" : "i3 f10 i4 f0"}, {"F F", e ? "i0 i3 f3" : "i10 i3 f3"}};
            if(T) th.push_back({"F F", "i3", "f0 f1"});
            for(unsigned k = 0; k < n; ++k) for(int mode = 0; mode < 3; ++mode) for(auto& x : th)
            {
                Script q; q.lay = &l; q.setup = s.setup; q.threads = x; q.stall = k; q.failing = true; q.fmode = mode; q.bound = T ? 2 : 1;
                q.name = "fail " + l.name + " op " + std::to_string(k) + " mode " + std::to_string(mode); for(auto& y : x) q.name += "|" + y;
                runscript(h, q); if(h.stop()) return 0;
            }
        }
    }
    return 0;
}
