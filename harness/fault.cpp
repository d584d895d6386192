// C08 (failing file operations), C18 (short transfers and EINTR).
#include "hist.hpp"
#include "post.hpp"
#include <cerrno>

static H* g; static std::string prop;

struct Fault { long k = -1; int mode = 0; int err = 5; bool partial = false; long reent = -1; int policy = 0; int drop = 0; };
// What a failed sync leaves on the disk: overwritten bytes of the file may
// be gone (drop 1: all, 2: second half, 3: first half of the changed range).
static std::map<std::string, vfs::Content> synced;
// What one faulty execution saw.
struct Ctx {
    long n = 0; bool hit = false; int hits = 0; Fault f; bool armed = true;
    bool inFlush = false; bool flushHit = false; vfs::Sys hitSys = vfs::Sys::other; std::string hitPath;
    std::string* kinds = nullptr; std::function<void()> reent; bool reenting = false; long reentDone = -1;
};
static Ctx* cx;
static vfs::Action hook(vfs::Call const& c)
{
    if(!cx || cx->reenting) return {};
    if(c.sys == vfs::Sys::close || c.sys == vfs::Sys::advise) return {};
    if(c.sys == vfs::Sys::stat && c.fd < 0) return {};       // block size hint
    long n = cx->n++; if(cx->kinds) *cx->kinds += c.sys == vfs::Sys::write && c.len > 1 ? 'w' : c.sys == vfs::Sys::sync ? 's' : '.';
    if(cx->inFlush && cx->reent && (cx->f.reent == -2 || cx->f.reent == n))
    { cx->reenting = true; cx->reent(); cx->reenting = false; cx->reentDone = n; }
    if(!cx->armed || cx->f.k < 0) return {};
    if(n == cx->f.k || (cx->f.mode == 1 && n > cx->f.k))
    {
        if(cx->f.partial && (c.sys != vfs::Sys::write || c.len < 2)) return {};
        if(n == cx->f.k){ cx->hitSys = c.sys; cx->hitPath = *c.path; }
        cx->hit = true; ++cx->hits; if(cx->inFlush) cx->flushHit = true;
        if(cx->f.drop && c.sys == vfs::Sys::sync)
            if(auto* p = vfs::file(*c.path))
            {
                auto it = synced.find(*c.path); auto old = it == synced.end() ? std::string() : it->second.str(), cur = p->str();
                auto m = std::min(old.size(), cur.size()); std::size_t a = 0, b = m;
                while(a < m && old[a] == cur[a]) ++a;
                while(b > a && old[b - 1] == cur[b - 1]) --b;
                auto mid = a + (b - a) / 2;
                if(cx->f.drop == 2) a = mid; else if(cx->f.drop == 3) b = mid;
                if(b > a){ p->write(a, old.data() + a, b - a); g->count("sync_drops"); }
            }
        if(cx->f.partial) return {cx->f.err, (std::int64_t)(c.len / 2), true};
        return {cx->f.err};
    }
    return {};
}
struct Stop {};

static void run(H& h, Hist const& t, Fault const& f, long* calls, std::string* kinds, std::vector<std::pair<long,long>>* ranges)
{
    Ctx c; c.f = f; c.kinds = kinds; cx = &c;
    vfs::reset(); vfs::load(vfs::Image{}); error_code ec; t.cfg.use();
    c.armed = false; vfs::hook = {};
    static std::map<u64, Image> created;
    { u64 ch = 0; for(char q : t.cfg.str()) ch = ch * 131 + (unsigned char)q; auto it = created.find(ch);
      if(it == created.end()){ docreate(t.cfg, ec); if(created.size() > 2000) created.clear(); created[ch] = vfs::snapshot(); vfs::drop_fds(); } else vfs::load(it->second); }
    vfs::hook = hook; c.armed = true; c.n = 0;
    if(f.drop)
    {
        synced.clear(); auto img = vfs::snapshot(); for(auto& x : img.files) synced[x.first] = x.second;
        vfs::after = [](vfs::Call const& q){
            if(q.sys == vfs::Sys::sync || q.sys == vfs::Sys::trunc){ if(auto* p = vfs::file(*q.path)){ if(q.sys == vfs::Sys::sync) synced[*q.path] = *p; else if(synced[*q.path].size > p->size) synced[*q.path].trunc(p->size); } }
            else if(q.sys == vfs::Sys::unlink || q.sys == vfs::Sys::creat) synced.erase(*q.path); };
    }
    auto bad = [&](std::string const& s, std::string const& m){
        char b[200]; std::snprintf(b, sizeof b, " fault@%ld(%s %s) mode=%d err=%d partial=%d insert@%ld policy=%d drop=%d", f.k, vfs::name(c.hitSys), c.hitPath.c_str(), f.mode, f.err, (int)f.partial, f.reent, f.policy, f.drop);
        auto d = h.desc(); h.append(b); h.fail(s, m); h.describe(d); };
    Map m, committed, inprog; bool maybe = false;      // maybe: a commit was in progress
    Map extra;                                          // inserted while a commit ran
    bool dead = false;                                  // store failed
    bool closedOk = false;
    auto faulty = [&](error_code const& e){ return e.value() == f.err && e.category() == boost::system::generic_category(); };
    auto isF = [&](error_code const& e){ return e.value() == f.err && !(e.category() == nudb::nudb_category()); };
    (void)faulty;
    bool ok = guarded(h, "faulty history", [&]{
        std::unique_ptr<DB<>> db(new DB<>);
        auto doopen = [&]{
            bool before = c.hit; ec = {};
            db->open(ec);
            if(ec)
            {
                if(!c.hit) bad("open:nofault", "open fails without a fault: " + ec.message());
                else if(!isF(ec)) bad("open:code:" + ec.message(), "open reports a different error than the failing operation's: " + ec.message());
                if(db->is_open()) bad("open:isopen", "store is open after a failed open");
                c.armed = false; ec = {};
                if(f.policy == 1) db.reset(new DB<>);       // same object or a new one
                db->open(ec);
                if(ec){ bad("open:retry:" + ec.message(), "open fails after the fault cleared: " + ec.message()); throw Stop{}; }
            }
            else if(c.hit && !before) bad("open:swallow", "open succeeds although a file operation failed");
        };
        int xn = 0;
        c.reent = [&]{ error_code e; auto k = orc::mkkey(150 + xn++), v = mkval(xn, 9); db->insert(k, v, e); if(!e){ extra[k] = v; h.count("overlapping_inserts"); } };
        int fcount = 0;
        auto check = [&](std::string const& k){
            bool before = c.hit; int hb = c.hits; std::string got; error_code e; int n = db->fetch(k, got, e);
            auto it = m.find(k); auto ix = extra.find(k);
            if(e && e != nudb::error::key_not_found)
            {
                if(!isF(e) || c.hits == hb) bad("fetch:error:" + sig(e.message()), "fetch fails with " + e.message());
                if(n) bad("fetch:callback", "fetch calls back and reports an error");
                return;
            }
            if(c.hits != hb) bad("fetch:swallow", "fetch hides a failing file operation");
            (void)before;
            std::string const* exp = it != m.end() ? &it->second : ix != extra.end() ? &ix->second : nullptr;
            if(exp ? (e || n != 1 || got != *exp) : (!e || n)) bad("fetch:wrong", "fetch gives a wrong answer");
        };
        auto sticky = [&](char const* when){
            // the store must keep failing with the error
            for(int i = 0; i < 2; ++i)
            {
                std::string got; error_code e; int n = db->fetch(orc::mkkey(i ? 170 : 0), got, e);
                if(!isF(e)) bad(std::string("sticky:fetch:") + when, "fetch after a failed commit: expected the error, got " + e.message());
                if(n) bad("sticky:callback", "fetch after a failed commit makes a callback");
                e = {}; auto k = orc::mkkey(180 + i); db->insert(k, "x", e);
                if(!isF(e)) bad(std::string("sticky:insert:") + when, "insert after a failed commit: expected the error, got " + e.message());
            }
        };
        doopen();
        for(std::size_t oi = 0; oi <= t.ops.size(); ++oi)
        {
            HOp o = oi < t.ops.size() ? t.ops[oi] : OR;
            bool last = oi == t.ops.size();
            if(o.t == 'I')
            {
                auto k = orc::mkkey(o.k), v = mkval(o.k, o.sz, m.size()); int hb = c.hits; ec = {};
                db->insert(k, v, ec);
                if(ec == nudb::error::key_exists){ if(!m.count(k)) bad("insert:exists", "insert of a new key gives key_exists"); if(c.hits != hb) bad("insert:swallow", "insert hides a failing operation"); }
                else if(ec){ if(!isF(ec) || c.hits == hb) bad("insert:error:" + sig(ec.message()), "insert fails with " + ec.message()); }
                else { if(m.count(k)) bad("insert:dup", "insert of a present key succeeds"); if(c.hits != hb) bad("insert:swallow", "insert hides a failing operation"); m[k] = v; }
            }
            else if(o.t == 'F')
            {
                for(auto& x : extra) m.insert(x); extra.clear(); inprog = m;
                long n0 = c.n; c.inFlush = true;
                db->flush(); c.inFlush = false;
                if(ranges) ranges->push_back({n0, c.n});
                if(c.flushHit)
                {
                    maybe = true; dead = true;
                    sticky("flush");
                    if(f.policy == 2){ c.armed = false; db->flush(); db->flush(); sticky("reflush"); }
                    if(f.policy == 3){ db->flush(); sticky("reflush2"); c.armed = false; }
                    break;
                }
                committed = inprog; maybe = false;      // what the reentrant insert added stays pending
                if(++fcount <= 2) for(int i = 0; i < t.nkeys && i < 6; ++i) check(orc::mkkey(i));
            }
            else
            {
                inprog = m; for(auto& x : extra) inprog.insert(x);
                int hb = c.hits; ec = {};
                db->close(ec);
                if(ec)
                {
                    if(c.hits == hb) bad("close:error:" + ec.message(), "close fails without a fault: " + ec.message());
                    else if(!isF(ec)) bad("close:code:" + ec.message(), "close reports a different error: " + ec.message());
                    maybe = true; break;
                }
                if(c.hits != hb) bad("close:swallow", "close succeeds although a file operation failed");
                m = committed = inprog; extra.clear(); maybe = false;
                if(db->is_open()) bad("close:isopen", "store open after close");
                if(last){ closedOk = true; break; }
                if(oi % 2) db.reset(new DB<>);
                doopen();
            }
        }
        if(dead)
        {
            // close must report the error (policy 4: just destroy)
            if(f.policy != 4){ ec = {}; db->close(ec); if(!isF(ec)) bad("close:dead", "close after a failed commit: expected the error, got " + ec.message()); }
            if(f.policy == 5)
            {
                // reopen the same object
                c.armed = false; ec = {}; db->open(ec);
                if(ec) bad("reopen:same:" + ec.message(), "reopening the same store object fails: " + ec.message());
                else
                {
                    std::string got; error_code e;
                    for(auto& x : committed){ int n = db->fetch(x.first, got, e); if(e || n != 1 || got != x.second){ bad("reopen:same:lost", "committed key lost after reopening the same store object"); break; } }
                    auto k = orc::mkkey(190); db->insert(k, "same", e); if(!e){ db->flush(); committed[k] = "same"; inprog[k] = "same"; }
                    db->close(e); if(e) bad("reopen:same:close", "close fails after reopening the same store object: " + e.message());
                }
            }
        }
        db.reset();
    });
    cx = nullptr; vfs::hook = {}; vfs::after = {};
    if(calls) *calls = c.n;
    if(!ok){ vfs::drop_fds(); char b[120]; std::snprintf(b, sizeof b, " fault@%ld mode=%d insert@%ld policy=%d", f.k, f.mode, f.reent, f.policy); return; }
    h.count("transitions"); h.count("traces"); if(c.hit) h.count("faults_hit");
    if(vfs::open_fds()){ bad("fd:leak", "descriptors left open after the store is gone: " + vfs::open_fd_paths()); vfs::drop_fds(); }
    auto img = vfs::snapshot(); u64 cfgh = 0; for(char q : t.cfg.str()) cfgh = cfgh * 131 + (unsigned char)q;
    cfgh = cfgh * 0x9E3779B97F4A7C15ull + t.nkeys;
    h.state(img.hash() ^ cfgh);
    if(c.hit) h.nontrivial(img.hash() ^ cfgh);
    // the fault cleared: reopen
    struct R { bool opened; std::string oe; Post p; };
    static std::unordered_map<u64, R> memo; if(memo.size() > 100000) memo.clear();
    auto it = memo.find(img.hash() ^ cfgh);
    if(it == memo.end())
    {
        R r{}; 
        bool ok2 = guarded(h, "reopen after fault", [&]{
            DB<> db; error_code e; db.open(e);
            if(e){ r.oe = e.message(); return; }
            r.opened = true; r.p = post_check(h, t.cfg, t.nkeys, db, vfs::snapshot());
        });
        vfs::drop_fds();
        if(!ok2){ auto d = h.desc(); char b[120]; std::snprintf(b, sizeof b, " (fault@%ld)", f.k); h.append(b); h.describe(d); return; }
        it = memo.emplace(img.hash() ^ cfgh, r).first;
    }
    auto& r = it->second;
    if(!r.opened){ bad("reopen:" + r.oe, "open fails after the fault cleared: " + r.oe); return; }
    if(!r.p.err.empty()){ bad("reopen:post:" + sig(r.p.err), r.p.err); return; }
    if(r.p.map != committed && !(maybe && r.p.map == inprog))
    {
        bool lost = false; for(auto& x : committed){ auto q = r.p.map.find(x.first); if(q == r.p.map.end() || q->second != x.second) lost = true; }
        bad(lost ? "reopen:lost" : "reopen:partial", "after the fault the contents are neither the last completed commit nor the one in progress");
    }
    (void)closedOk;
}

static void faults(H& h, Hist const& t, bool wide)
{
    h.describe(hstr(t)); h.sample(hstr(t), 2);
    long calls = 0; std::string kinds; std::vector<std::pair<long,long>> ranges;
    Fault none; run(h, t, none, &calls, &kinds, &ranges);
    h.alive();
    for(long k = 0; k < calls; ++k)
    {
        bool inflush = false; for(auto& r : ranges) if(k >= r.first && k < r.second) inflush = true;
        for(int mode = 0; mode < 2; ++mode)
        {
            Fault f; f.k = k; f.mode = mode;
            if(!inflush){ f.policy = 0; run(h, t, f, nullptr, nullptr, nullptr); if(wide && mode == 0){ f.policy = 1; run(h, t, f, nullptr, nullptr, nullptr); } continue; }
            for(int pol : {0, 2, 3, 4, 5})
            {
                if(!wide && mode == 1 && pol != 2) continue;
                f.policy = pol;
                f.reent = -1; run(h, t, f, nullptr, nullptr, nullptr);
                f.reent = k; run(h, t, f, nullptr, nullptr, nullptr);
                if(wide) for(auto& r : ranges) if(k >= r.first && k < r.second)
                    for(long j = r.first; j < k; ++j){ if(pol != 2 && pol != 0 && pol != 4) continue; f.reent = j; run(h, t, f, nullptr, nullptr, nullptr); }
            }
        }
        // other reasons than an input/output error
        for(int e : {ENOSPC, EDQUOT, EFBIG, EBADF, EAGAIN, EROFS, EINVAL, EACCES}) for(int pol : {0, 2})
        {
            if(pol && !inflush) continue; if(pol && !wide && e != ENOSPC && e != EAGAIN) continue;
            Fault f; f.k = k; f.err = e; f.policy = pol; run(h, t, f, nullptr, nullptr, nullptr);
        }
        if(kinds[k] == 's') for(int drop = 1; drop <= 3; ++drop) for(int pol : {0, 2, 4, 5})
        { Fault f; f.k = k; f.drop = drop; f.policy = pol; if(!inflush && pol) continue; run(h, t, f, nullptr, nullptr, nullptr); }
        // partial writes
        if(kinds[k] == 'w'){ Fault f; f.k = k; f.partial = true; f.err = ENOSPC; run(h, t, f, nullptr, nullptr, nullptr);
          if(inflush){ f.policy = 2; f.reent = k; run(h, t, f, nullptr, nullptr, nullptr); } }
    }
}

// ------------------------------------------------------------------- C18
// One run of every operation of the library; returns a transcript.
struct Res { std::string log; Image img; long calls = 0; };
using Inj = std::function<vfs::Action(vfs::Call const&, long)>;
static Res scenario(H& h, Hist const& t, Inj const& inj)
{
    Res r; long n = 0;
    vfs::reset(); vfs::random_state_reset();
    vfs::hook = [&](vfs::Call const& c) -> vfs::Action { auto k = n++; return inj ? inj(c, k) : vfs::Action{}; };
    auto say = [&](std::string const& s){ r.log += s; r.log += '\n'; };
    guarded(h, "scenario", [&]{
        error_code ec; docreate(t.cfg, ec); say("create " + ec.message());
        std::unique_ptr<DB<>> db(new DB<>); db->open(ec); say("open " + ec.message());
        Image crashed; bool have = false;
        for(auto& o : t.ops)
        {
            ec = {};
            if(o.t == 'I'){ db->insert(orc::mkkey(o.k), mkval(o.k, o.sz), ec); say("insert " + std::to_string(o.k) + " " + ec.message()); }
            else if(o.t == 'F')
            {
                // keep a crash image from the middle of this commit
                db->flush();
                for(int i = 0; i < t.nkeys; i += 2){ std::string v; error_code e; int c = db->fetch(orc::mkkey(i), v, e); say("fetch " + std::to_string(i) + " " + std::to_string(c) + " " + hex(v) + " " + e.message()); }
            }
            else { db->close(ec); say("close " + ec.message()); db.reset(new DB<>); ec = {}; db->open(ec); say("open " + ec.message()); }
        }
        // crash inside a commit: keep the log by failing late
        ec = {}; db->insert(orc::mkkey(77), mkval(77, 5), ec);
        db->flush(); auto base = vfs::snapshot(); (void)base; (void)crashed; (void)have;
        db->close(ec); say("close " + ec.message()); db.reset();
        nudb::verify_info vi; ec = {}; nudb::verify<MHash>(vi, DP, KP, 0, nudb::no_progress{}, ec); say("verify " + ec.message() + " " + std::to_string(vi.value_count) + " " + std::to_string(vi.spill_count_tot));
        ec = {}; nudb::verify<MHash>(vi, DP, KP, 1 << 16, nudb::no_progress{}, ec); say("verify " + ec.message() + " " + std::to_string(vi.value_count) + " " + std::to_string(vi.spill_bytes));
        ec = {}; nudb::visit(DP, [&](void const* k, std::size_t ks, void const* p, std::size_t sz, error_code&){ say("visit " + hex(std::string((char const*)k, ks)) + hex(std::string((char const*)p, sz))); }, nudb::no_progress{}, ec); say("visit " + ec.message());
        r.img = vfs::snapshot();
        // recovery of a hand made interrupted commit: log that restores the first buckets, tail garbage in the data file
        {
            auto d = getf(r.img, DP), k = getf(r.img, KP); auto v = orc::decode(d, k);
            std::string log = orc::enc_log_header(v.uid, v.app, v.ks, v.salt, v.pep, v.bs, k.size(), d.size());
            std::string k2 = k;
            for(u64 b = 0; b < v.buckets && b < 4; ++b){ orc::put(log, b, 8); log += orc::enc_bucket(v.chains[b][0]); k2.replace((b + 1) * v.bs, 30, std::string(30, '\x7f')); }
            log += "torn"; k2 += std::string(v.bs, 'z'); d += "partial record";
            vfs::put(DP, d); vfs::put(KP, k2); vfs::put(LP, log);
            ec = {}; nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec); say("recover " + ec.message());
            auto now = vfs::snapshot();
            say(getf(now, DP) == getf(r.img, DP) && getf(now, KP) == k && !now.has(LP) ? "recovered exactly" : "recovered differently");
        }
        vfs::remove(KP);
        ec = {}; nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, 140, 0.7f, 20, 1000, ec, nudb::no_progress{}); say("rekey " + ec.message());
        auto fin = vfs::snapshot(); say("final " + std::to_string(fin.hash()));
    });
    vfs::hook = {}; vfs::drop_fds();
    r.calls = n; return r;
}
static void shorts(H& h, Hist const& t, bool pairs)
{
    h.describe(hstr(t)); h.sample(hstr(t), 2);
    // reference, with the size of each transfer
    struct C { vfs::Sys s; u64 len; std::string path; u64 off; };
    std::vector<C> cs;
    auto ref = scenario(h, t, [&](vfs::Call const& c, long){ cs.push_back({c.sys, c.len, *c.path, c.off}); return vfs::Action{}; });
    if(ref.log.find("recovered exactly") == std::string::npos) h.fail("short:ref", "reference scenario fails: " + ref.log.substr(0, 300));
    auto cmp = [&](Res const& r, std::string const& what, C const& c){
        h.count("transitions"); h.count("traces"); h.state(std::hash<std::string>{}(r.log) ^ r.img.hash());
        if(r.log == ref.log && r.img == ref.img) return;
        std::size_t i = 0; while(i < r.log.size() && i < ref.log.size() && r.log[i] == ref.log[i]) ++i;
        std::size_t b = r.log.rfind('\n', i); if(b == std::string::npos) b = 0;
        auto d = h.desc(); h.append(what + " " + vfs::name(c.s) + " " + c.path);
        h.fail(std::string("short:") + what.substr(0, what.find('@')) + ":" + vfs::name(c.s), "result differs: got '" + r.log.substr(b, 120) + "' expected '" + ref.log.substr(b, 120) + "'");
        h.describe(d); };
    for(long k = 0; k < (long)cs.size(); ++k)
    {
        h.alive();
        auto& c = cs[k]; bool rw = c.s == vfs::Sys::read || c.s == vfs::Sys::write;
        if(rw || c.s == vfs::Sys::sync || c.s == vfs::Sys::trunc)
            for(int rep : {1, 3})
                cmp(scenario(h, t, [&](vfs::Call const&, long n) -> vfs::Action { return n >= k && n < k + rep ? vfs::Action{EINTR} : vfs::Action{}; }), "eintr@" + std::to_string(k) + "x" + std::to_string(rep), c);
        if(rw && c.len > 1)
        {
            std::set<u64> s = {1, 2, c.len / 2, c.len - 1};
            if(c.len <= 120 && (pairs || h.thorough())) for(u64 i = 1; i < c.len; ++i) s.insert(i);
            for(auto m : s) if(m && m < c.len)
            {
                cmp(scenario(h, t, [&](vfs::Call const&, long n) -> vfs::Action { vfs::Action a; if(n == k) a.shortTo = m; return a; }), "short@" + std::to_string(k) + "=" + std::to_string(m), c);
            }
            // short, then the continuation interrupted or short again
            for(u64 m : {u64(1), c.len / 2}) for(u64 m2 : {u64(0), u64(1)})
            {
                if(m >= c.len) continue;
                cmp(scenario(h, t, [&](vfs::Call const&, long n) -> vfs::Action { vfs::Action a; if(n == k) a.shortTo = m; if(n == k + 1){ if(m2) a.shortTo = m2; else a.err = EINTR; } return a; }), "pair@" + std::to_string(k), c);
                cmp(scenario(h, t, [&](vfs::Call const&, long n) -> vfs::Action { vfs::Action a; if(n == k){ a.err = EINTR; } if(n == k + 1) a.shortTo = m; return a; }), "pair2@" + std::to_string(k), c);
            }
        }
        if(pairs && rw) for(long k2 = k + 1; k2 < (long)cs.size(); ++k2)
            cmp(scenario(h, t, [&](vfs::Call const& x, long n) -> vfs::Action { vfs::Action a; if((n == k || n == k2 + 1) && (x.sys == vfs::Sys::read || x.sys == vfs::Sys::write)) a.shortTo = 1; return a; }), "two@" + std::to_string(k) + "," + std::to_string(k2), c);
    }
    // every call at once
    for(u64 m : {1, 2, 3, 5, 7, 8, 13, 64, 100, 1000, 4095}) for(int e = 0; e < 2; ++e)
    {
        if(t.ops.size() && m < 64) { bool big = false; for(auto& o : t.ops) if(o.sz > 5000) big = true; if(big) continue; }
        bool flip = false;
        cmp(scenario(h, t, [&](vfs::Call const& x, long) -> vfs::Action {
            vfs::Action a; bool rw = x.sys == vfs::Sys::read || x.sys == vfs::Sys::write;
            if(!rw && x.sys != vfs::Sys::sync && x.sys != vfs::Sys::trunc) return a;
            if(e){ flip = !flip; if(flip){ a.err = EINTR; return a; } }
            if(rw) a.shortTo = m; return a; }), "all@" + std::to_string(m), cs[0]);
    }
}
// native_file directly: every errno from every operation
static void errnos(H& h)
{
    h.next("errno");
    for(int op = 0; op < 8; ++op) for(int e = 1; e <= 133; ++e)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        if(e == EINTR && op >= 3) continue;
        h.describef("native_file op %d errno %d", op, e);
        vfs::reset(); vfs::put("/vfs/x", std::string(100, 'q'));
        error_code ec; nudb::native_file f; char buf[64];
        vfs::hook = {};
        if(op >= 2 && op != 7) f.open(nudb::file_mode::write, "/vfs/x", ec);
        for(int nth = 0; nth < 2; ++nth)
        {
            int seen = 0;
            vfs::hook = [&](vfs::Call const& c) -> vfs::Action { vfs::Action a; if(c.sys == vfs::Sys::close) return a; if(nth == 1 && seen++ == 0){ a.shortTo = 10; return a; } a.err = e; return a; };
            if(nth == 1 && op != 3 && op != 4) continue;
            ec = {}; std::uint64_t sz = 0;
            guarded(h, "native_file", [&]{
                switch(op){
                case 0: { nudb::native_file q; q.open(nudb::file_mode::read, "/vfs/x", ec); if(ec && q.is_open()) h.fail("errno:isopen", "file open after failed open"); break; }
                case 1: { nudb::native_file q; q.create(nudb::file_mode::append, "/vfs/new", ec); if(ec && q.is_open()) h.fail("errno:isopen", "file open after failed create"); break; }
                case 2: sz = f.size(ec); break;
                case 3: f.read(0, buf, 50, ec); break;
                case 4: f.write(0, buf, 50, ec); break;
                case 5: f.sync(ec); break;
                case 6: f.trunc(3, ec); break;
                case 7: nudb::native_file::erase("/vfs/x", ec); break;
                } });
            h.count("transitions"); h.count("traces");
            if(ec.value() != e || ec != error_code(e, boost::system::generic_category()).default_error_condition()) h.fail("errno:" + std::to_string(op), "error code not reported: expected " + std::to_string(e) + " got " + ec.message());
            if(!ec) h.fail("errno:none", "no error reported");
        }
        vfs::hook = {}; f.close(); vfs::drop_fds();
    }
    // reads at and past the end
    h.next("eof");
    for(int size = 0; size < 40; ++size) for(int off = 0; off < 44; ++off) for(int n = 0; n < 44; ++n)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        vfs::reset(); std::string s; for(int i = 0; i < size; ++i) s += char(i + 1); vfs::put("/vfs/x", s);
        error_code ec; nudb::native_file f; f.open(nudb::file_mode::read, "/vfs/x", ec);
        for(int sh : {0, 1, 7})
        {
            vfs::hook = [&](vfs::Call const&) -> vfs::Action { vfs::Action a; if(sh) a.shortTo = sh; return a; };
            std::string b(n + 2, '#'); ec = {}; f.read(off, &b[1], n, ec);
            h.count("transitions");
            bool shrt = n && off + n > size;
            if(shrt ? ec != nudb::error::short_read : bool(ec)) h.fail("eof:code", "read past the end: expected short_read iff short");
            if(!shrt && b.substr(1, n) != s.substr(std::min(off, size), n)) h.fail("eof:data", "wrong bytes read");
            if(b[0] != '#' || b[n + 1] != '#') h.fail("eof:bounds", "read writes outside the buffer");
        }
        vfs::hook = {}; f.close();
    }
}

int main(int argc, char** argv)
{
    H h(argc, argv, "C08"); g = &h; prop = h.prop;
    if(prop == "C08")
    {
        auto w = [&](Hist const& t){ faults(h, t, true); };
        auto n = [&](Hist const& t){ faults(h, t, h.thorough()); };
        bool small = !h.arg("small").empty(); int sc = h.thorough() ? 1 : 0; if(small) --sc;
        hist_masks(h, small && !h.thorough() ? -2 : -1, w); hist_hashes(h, sc, n); hist_values(h, sc, n); hist_dims(h, sc, n);
        if(!small || h.thorough()){ hist_ops(h, sc, n); hist_masks(h, sc, n); }
    }
    else
    {
        errnos(h);
        // the scenario already covers every operation: few histories, all calls
        h.next("short");
        int i = 0;
        std::vector<Hist> hs;
        { Hist t; t.nkeys = 8; t.ops = {I(0), I(1), OF, I(2), OR, I(3)}; hs.push_back(t); }
        { Hist t; t.nkeys = 14; t.cfg.mode = 1; t.cfg.lf = 0.99f; for(int k = 0; k < 12; ++k){ t.ops.push_back(I(k)); if(k % 5 == 4) t.ops.push_back(OF); } hs.push_back(t); }
        { Hist t; t.nkeys = 14; t.cfg.lf = 0.4f; t.cfg.ks = 33; for(int k = 0; k < 12; ++k){ t.ops.push_back(I(k)); if(k % 4 == 3) t.ops.push_back(OF); } hs.push_back(t); }
        { Hist t; t.nkeys = 4; t.ops = {Iz(0, 140000), I(1), OF, Iz(2, 5000)}; hs.push_back(t); }
        { Hist t; t.nkeys = 14; t.cfg.mode = 3; t.cfg.lf = 0.5f; t.cfg.bs = 122; for(int k = 0; k < 13; ++k){ t.ops.push_back(I(k)); if(k % 3 == 2) t.ops.push_back(OF); if(k == 7) t.ops.push_back(OR); } hs.push_back(t); }
        { Hist t; t.nkeys = 3; hs.push_back(t); }
        (void)i;
        for(auto& t : hs){ if(!h.next()){ if(h.stop()) break; continue; } shorts(h, t, t.ops.size() < 7 || h.thorough()); }
        auto f = [&](Hist const& t){ shorts(h, t, false); };
        if(h.thorough()){ hist_masks(h, -1, f); hist_hashes(h, -1, f); hist_ops(h, -1, f); hist_dims(h, -1, f); }
        else hist_masks(h, -2, f);
    }
    h.finish();
}
