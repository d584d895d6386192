// C20 (cost of operations, growth, memory), C21 (life of store objects),
// C22 (the file layer), C23 (throttling of writers).
#include "hist.hpp"
#include "../engine/vclock.hpp"
#include <cerrno>
#include <fcntl.h>
#include <deque>
#include <new>
using vfs::Image; using vfs::u64;

// ------------------------------------------- memory held by the library
// Allocations made while a Lib object lives, outside the file system model.
static int libdepth = 0; static std::int64_t live = 0, peak = 0, blocks = 0;
struct Lib { Lib(){ ++libdepth; } ~Lib(){ --libdepth; } };
struct Mine { int d; Mine() : d(libdepth) { libdepth = 0; } ~Mine(){ libdepth = d; } };    // harness code called by the library
struct alignas(16) Hdr { std::size_t n; std::size_t tag; };
static void* get(std::size_t n)
{
    auto p = static_cast<Hdr*>(std::malloc(n + sizeof(Hdr))); if(!p) throw std::bad_alloc();
    p->n = n; p->tag = libdepth > 0 && vfs::inside == 0;
    if(p->tag){ live += n; ++blocks; if(live > peak) peak = live; }
    return p + 1;
}
static void put(void* q)
{
    if(!q) return; auto p = static_cast<Hdr*>(q) - 1;
    if(p->tag){ live -= p->n; --blocks; }
    std::free(p);
}
void* operator new(std::size_t n){ return get(n); }
void* operator new[](std::size_t n){ return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }

static H* g; static std::string prop;

// ------------------------------------------------------------------- C20
struct Rd { bool key; u64 off, len; };
static std::vector<Rd> reads; static u64 nwrites, nsyncs, nother; static bool rec = false;
static std::vector<Rd> writes; static u64 logBytes;
static vfs::Action mon(vfs::Call const& c)
{
    if(!rec || !c.path) return {};
    if(c.sys == vfs::Sys::read) reads.push_back({*c.path == KP, c.off, c.len});
    else if(c.sys == vfs::Sys::write){ ++nwrites; if(*c.path == LP) logBytes += c.len; else writes.push_back({*c.path == KP, c.off, c.len}); }
    else if(c.sys == vfs::Sys::sync) ++nsyncs;
    else if(c.sys != vfs::Sys::stat && c.sys != vfs::Sys::advise) ++nother;
    return {};
}
struct Rec { Rec(){ reads.clear(); writes.clear(); nwrites = nsyncs = nother = logBytes = 0; rec = true; } ~Rec(){ rec = false; } };

// What a lookup of key k may read, given the files.
struct Allow { std::vector<Rd> objs; u64 bytes = 0; };
static Allow allowed(orc::View const& v, std::string const& k, bool keysOnly, bool& present, std::size_t& vsize)
{
    Allow a; present = false; vsize = 0;
    u64 h = orc::hash64(v.salt, k.data(), v.ks) >> 16, n = orc::bindex(h, v.buckets, v.modulus);
    std::map<u64, orc::Rec const*> at; for(auto& r : v.recs) at[r.off] = &r;
    for(std::size_t i = 0; i < v.chains[n].size(); ++i)
    {
        if(i == 0) a.objs.push_back({true, (n + 1) * v.bs, v.bs});
        else a.objs.push_back({false, v.chainOffs[n][i - 1] - 8, 8 + orc::bsize(v.cap)});
        a.bytes += v.bs + 8;
        for(auto& e : v.chains[n][i].e) if(e.hash == h)
        {
            auto r = at.find(e.off); if(r == at.end()) continue;
            u64 z = r->second->val.size();
            a.objs.push_back({false, e.off, 6 + v.ks + (keysOnly ? 0 : z)}); a.bytes += 6 + v.ks + (keysOnly ? 0 : z);
            if(r->second->key == k){ present = true; vsize = z; return a; }
        }
    }
    return a;
}
static std::string within(Allow const& a)
{
    std::map<std::size_t, int> cnt; u64 bytes = 0;
    for(auto& r : reads)
    {
        bytes += r.len; bool in = false;
        for(std::size_t i = 0; i < a.objs.size(); ++i){ auto& o = a.objs[i]; if(o.key == r.key && r.off >= o.off && r.off + r.len <= o.off + o.len){ in = true; if(++cnt[i] > 3) return "reads the same object again and again"; break; } }
        if(!in){ char b[160]; std::snprintf(b, sizeof b, "reads %llu bytes at %llu of the %s file, which the lookup does not need", (unsigned long long)r.len, (unsigned long long)r.off, r.key ? "key" : "data"); return b; }
    }
    if(bytes > a.bytes) return "reads more bytes than bucket, spills and candidate records hold";
    return {};
}
static std::unordered_set<u64> seenImg;
static std::map<std::pair<u64,u64>, u64> growth;     // (threshold, inserts) -> buckets added

static void lookups(H& h, Hist const& t, DB<>& db, std::string const& when)
{
    auto img = vfs::snapshot(); h.state(img.hash());
    u64 id = img.hash(); for(char q : t.cfg.str()) id = id * 131 + (unsigned char)q;
    if(!seenImg.insert(id).second) return;
    h.nontrivial(id);
    auto v = orc::decode(getf(img, DP), getf(img, KP)); if(!v.err.empty()) return;     // C09's business
    for(int i = 0; i < t.nkeys + 2; ++i)
    {
        auto k = orc::mkkey(i);
        for(int ins = 0; ins < 2; ++ins)
        {
            bool present; std::size_t z; auto a = allowed(v, k, ins, present, z);
            if(ins && !present) continue;
            error_code ec; int n = 0; char val = 'x'; std::int64_t before, top;
            {
                Rec r; Lib l; before = live; peak = live;
                if(ins) db.s->insert(k.data(), &val, 1, ec);
                else db.s->fetch(k.data(), [&](void const*, std::size_t){ ++n; }, ec);
                top = peak;
            }
            h.count("transitions"); h.count(ins ? "refused_inserts" : present ? "hits" : "misses");
            auto e = within(a);
            if(e.empty() && (nwrites || nsyncs || nother)) e = "does something else than reading";
            if(!e.empty()){ h.fail(std::string(ins ? "insert:" : "fetch:") + sig(e), std::string(ins ? "insert of a present key " : present ? "fetch of a present key " : "fetch of an absent key ") + e + when); return; }
            if(live != before){ h.fail("lookup:leak", "a lookup keeps memory" + when); return; }
            std::int64_t lim = 4096 + 4 * (t.cfg.bs + t.cfg.ks + (ins ? 0 : 0)); std::size_t big = 0;
            if(!ins) for(auto& o : a.objs) big = std::max<std::size_t>(big, o.len);
            lim += 3 * big;
            if(top - before > lim){ h.fail("lookup:memory", "a lookup uses " + std::to_string(top - before) + " bytes of memory" + when); return; }
        }
    }
}
static void cost(H& h, Hist const& t)
{
    h.describe(hstr(t)); t.cfg.use(); vfs::reset(); vfs::random_state_reset(); vfs::hook = mon;
    if(h.counters["cases"] % 997 == 1) h.sample(h.desc());
    u64 lf16 = std::min<u64>((u64)(65536.0f * t.cfg.lf), 65535), cap = orc::capacity_of(t.cfg.bs), thresh = std::max<u64>(65536, lf16 * cap);
    guarded(h, "history", [&]{
        error_code ec; docreate(t.cfg, ec); DB<> db; db.open(ec); if(ec){ h.fail("open", ec.message()); return; }
        std::set<std::string> have; u64 pend = 0, sess = 0, pendBytes = 0; u64 b0 = 1;
        std::vector<std::string> pool;
        auto disk = [&]{ return orc::decode(getf(vfs::snapshot(), DP), getf(vfs::snapshot(), KP)); };
        // a commit: what it may write
        auto commit = [&](bool closing){
            auto before = disk(); u64 n = pend; sess += pend; pend = 0;
            { Rec r; ec = {}; if(closing) db.close(ec); else db.flush(); }
            std::vector<Rd> rds, wrs; u64 w = nwrites, sy = nsyncs, lb = logBytes; rds.swap(reads); wrs.swap(writes); (void)w;
            h.count("transitions"); h.count("commits");
            auto after = disk(); if(!before.err.empty() || !after.err.empty()) return;
            if(n == 0)
            {
                if(!wrs.empty() || lb) h.fail("commit:idle", "a flush with nothing to write writes files");
                return;
            }
            u64 added = after.buckets - before.buckets, total = after.buckets - b0;
            // growth
            double expect = double(sess) * 65536 / thresh;
            if(std::abs(double(total) - expect) > 1.0) h.fail("growth:rate", "after " + std::to_string(sess) + " inserts the store has added " + std::to_string(total) + " buckets, its load factor asks for " + std::to_string(expect));
            auto gk = std::make_pair(thresh, sess); auto gi = growth.emplace(gk, total);
            if(gi.first->second != total) h.fail("growth:grouping", "the number of buckets depends on more than the number of inserts");
            if(added > n) h.fail("growth:fast", "more buckets added than values inserted");
            // each bucket is written at most once, each record appended once
            u64 kb = 0; std::map<u64, int> blk;
            for(auto& x : wrs) if(x.key){ kb += x.len; for(u64 b = x.off / t.cfg.bs; b * t.cfg.bs < x.off + x.len; ++b) if(++blk[b] > 1){ h.fail("commit:twice", "a commit writes the same bucket twice"); return; } }
            if(blk.size() > n + 2 * added) h.fail("commit:buckets", "a commit of " + std::to_string(n) + " values and " + std::to_string(added) + " splits writes " + std::to_string(blk.size()) + " buckets");
            u64 db2 = 0; for(auto& x : wrs) if(!x.key) db2 += x.len;
            if(db2 != after.dsize - before.dsize) h.fail("commit:data", "a commit writes data file bytes more than once");
            u64 spills = after.spills.size() - before.spills.size();
            u64 recs = pendBytes + n * (6 + t.cfg.ks);
            if(db2 != recs + spills * (8 + orc::bsize(cap))) h.fail("commit:append", "a commit appends more than the records and the spills");
            if(lb > 62 + (n + 2 * added) * (8 + orc::bsize(cap)) + 8) h.fail("commit:log", "the log of a commit holds more than the buckets it changes");
            if(sy > 8) h.fail("commit:syncs", "a commit syncs " + std::to_string(sy) + " times");
            std::map<u64, int> kr; u64 kreads = 0; for(auto& x : rds) if(x.key){ ++kreads; if(++kr[x.off] > 1){ h.fail("commit:reread", "a commit reads the same bucket twice"); break; } }
            if(kreads > n + 2 * added) h.fail("commit:reads", "a commit reads buckets it does not change");
            pendBytes = 0;
        };
        for(auto& o : t.ops)
        {
            if(o.t == 'I')
            {
                auto k = orc::mkkey(o.k); auto v = mkval(o.k, o.sz); bool had = have.count(k);
                auto d = disk(); bool inPool = std::find(pool.begin(), pool.end(), k) != pool.end(); bool pr = false; std::size_t z;
                auto a = d.err.empty() ? allowed(d, k, true, pr, z) : Allow{}; if(inPool) a = {};
                ec = {}; { Rec r; Lib l; db.s->insert(k.data(), v.data(), v.size(), ec); }
                h.count("transitions");
                auto e = within(a); if(e.empty() && (nwrites || nsyncs || nother)) e = "does something else than reading";
                if(!e.empty()){ h.fail("insert:" + sig(e), "insert " + e); return; }
                if(!ec && !had){ have.insert(k); pool.push_back(k); ++pend; pendBytes += v.size(); }
                // a pending value is served from memory
                { Rec r; error_code e2; int n = 0; db.s->fetch(k.data(), [&](void const*, std::size_t){ ++n; }, e2); if((inPool || !had) && (!reads.empty() || nother)) { h.fail("fetch:pending", "fetch of a value still in memory reads files"); return; } }
            }
            else if(o.t == 'F'){ commit(false); pool.clear(); lookups(h, t, db, " after a flush"); }
            else
            {
                commit(true); pool.clear(); ec = {}; db.open(ec); if(ec){ h.fail("open", ec.message()); return; }
                auto v = disk(); b0 = v.buckets; sess = 0; lookups(h, t, db, " after reopening");
            }
        }
        commit(true);
    });
    vfs::hook = {}; vfs::drop_fds(); h.count("traces");
}
// During a commit: one bucket read at most, nothing written by a lookup.
static void during(H& h)
{
    h.next("during");
    for(int mode : {0,1,2,3}) for(float lf : {0.5f, 0.99f}) for(int n0 : {0, 4, 7, 13}) for(int n1 : {1, 3, 6})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.lf = lf; c.use(); h.describef("lookups at every step of a commit: %s n0=%d n1=%d", c.str().c_str(), n0, n1);
        for(int k = 0; k < n0 + n1 + 2; ++k)
        {
            vfs::reset(); vfs::random_state_reset(); error_code ec; vfs::hook = {}; docreate(c, ec);
            guarded(h, "during", [&]{
                DB<> db; db.open(ec); for(int i = 0; i < n0; ++i) db.insert(orc::mkkey(i), mkval(i, vsz(i)), ec); db.flush();
                for(int i = n0; i < n0 + n1; ++i) db.insert(orc::mkkey(i), mkval(i, vsz(i)), ec);
                auto v = orc::decode(getf(vfs::snapshot(), DP), getf(vfs::snapshot(), KP)); u64 chain = 0; for(auto& x : v.chains) chain = std::max<u64>(chain, x.size());
                bool in = false; auto key = orc::mkkey(k); u64 kr, ks, ws; bool bad = false;
                vfs::hook = [&](vfs::Call const& q) -> vfs::Action {
                    if(in){ if(q.sys == vfs::Sys::read){ if(*q.path == KP) ++kr; else ++ks; } else if(vfs::mutating(q.sys)) ++ws; return {}; }
                    in = true; kr = ks = ws = 0; error_code e; int n = 0;
                    db.s->fetch(key.data(), [&](void const*, std::size_t){ ++n; }, e);
                    h.count("transitions"); in = false;
                    u64 matching = mode == 1 ? n0 + n1 : mode == 2 ? 2 : 1;
                    if(!bad && (kr > 1 || ws || ks > (chain + 2) * 2 + matching)){ bad = true; h.fail("during:cost", "a fetch during a commit does more work than a lookup needs"); }
                    return {}; };
                db.flush(); vfs::hook = {}; db.close(ec);
            });
            vfs::hook = {}; vfs::drop_fds(); h.count("traces");
        }
    }
}
// Memory does not grow with the database.
static void memory(H& h)
{
    h.next("memory");
    for(int mode : {0,3,5}) for(float lf : {0.5f, 0.95f}) for(std::size_t bs : {104u, 512u}) for(int batch : {1, 40}) for(int what = 0; what < 2; ++what)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        int N = batch == 1 ? 1500 : h.thorough() ? 60000 : 12000; if(mode == 3) N = std::min(N, 3000);
        Cfg c; c.mode = mode; c.lf = lf; c.bs = bs; c.ks = 8; c.use(); h.describef("memory: %s batch=%d n=%d reopen=%d", c.str().c_str(), batch, N, what);
        vfs::reset(); vfs::random_state_reset(); error_code ec; docreate(c, ec);
        std::int64_t start = live; std::int64_t bound = 0;
        guarded(h, "memory", [&]{
            {
                std::unique_ptr<nudb::context> ctx; std::unique_ptr<DB<>::store> s;
                { Lib l; ctx.reset(new nudb::context); s.reset(new DB<>::store(*ctx)); s->open(DP, KP, LP, ec); }
                bound = live - start + 8192 + 160 * batch; std::int64_t worst = 0;
                for(int i = 0; i < N; i += batch)
                {
                    for(int j = i; j < i + batch && j < N; ++j){ auto k = orc::mkkey(j); auto v = mkval(j, 20); Lib l; s->insert(k.data(), v.data(), v.size(), ec); if(ec){ h.fail("memory:insert", ec.message()); return; } }
                    { Lib l; ctx->flush(); }
                    h.count("transitions", batch);
                    worst = std::max(worst, live - start);
                    if(live - start > bound){ h.fail("memory:grows", "an idle store of " + std::to_string(i + batch) + " values holds " + std::to_string(live - start) + " bytes"); break; }
                    // a lookup
                    if(i % (batch * 16) == 0)
                    {
                        auto k = orc::mkkey(i / 2); auto l0 = live; peak = live;
                        { Lib l; s->fetch(k.data(), [](void const*, std::size_t){}, ec); }
                        if(live != l0) h.fail("memory:fetch", "fetch keeps memory");
                        if(peak - l0 > (std::int64_t)(4096 + 8 * bs)){ h.fail("memory:fetchpeak", "fetch uses " + std::to_string(peak - l0) + " bytes in a database of " + std::to_string(i) + " values"); break; }
                    }
                    if(what && i % (batch * 100) == 0){ Lib l; s->close(ec); s->open(DP, KP, LP, ec); if(ec){ h.fail("memory:reopen", ec.message()); return; } }
                    if((i & 255) == 0) h.alive();
                }
                h.state(N * 1000 + batch + mode); h.nontrivial(N * 1000 + batch + mode * 7 + bs);
                { Lib l; s->close(ec); s.reset(); ctx.reset(); }
            }
            if(live != start) h.fail("memory:leak", "memory left after the store is gone: " + std::to_string(live - start));
            // the tools
            start = live; auto tool = [&](char const* nm, std::int64_t lim, std::function<void()> f){ std::int64_t l0 = live; peak = live; { Lib l; f(); } if(live != l0) h.fail(std::string("memory:leak:") + nm, std::string(nm) + " keeps memory"); if(peak - l0 > lim) h.fail(std::string("memory:") + nm, std::string(nm) + " uses " + std::to_string(peak - l0) + " bytes"); };
            auto sz = (std::int64_t)vfs::size_of(DP) + (std::int64_t)vfs::size_of(KP); (void)sz;
            tool("visit", (5 << 20), [&]{ nudb::visit(DP, [](void const*, std::size_t, void const*, std::size_t, error_code&){}, nudb::no_progress{}, ec); });
            for(std::size_t b : {std::size_t(0), std::size_t(20000)}) tool("verify", 65536 + 1024 * bs + 2 * b, [&]{ nudb::verify_info vi; nudb::verify<MHash>(vi, DP, KP, b, nudb::no_progress{}, ec); });
            vfs::remove(KP);
            tool("rekey", (6 << 20), [&]{ nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, bs, lf, N, 50000, ec, nudb::no_progress{}); if(ec) h.fail("memory:rekeyfail", ec.message()); });
        });
        vfs::drop_fds(); h.count("traces");
    }
}

// ------------------------------------------------------------------- C21
struct Base { char const* d; char const* k; char const* l; Cfg c; };
static Base bases[2];
struct Life {
    nudb::context* ctx = nullptr; DB<>::store* st[2] = {}; int open[2] = {-1, -1}; int nkey[2] = {0, 0}; bool used[2] = {}; Map all[2], disk[2]; bool broke[2] = {}, stale[2] = {};
};
static std::string k9(int b, int i){ auto& c = bases[b].c; c.use(); return orc::mkkey(i); }
static void life_ops(H& h, std::vector<char> const& ops, std::vector<char> const& who, Image const& start, bool fresh = false, Image* last = nullptr)
{
    // fresh: every session gets a new store object; what it leaves must be the same
    Image same; int opens = 0, byStore[2] = {0, 0}; for(std::size_t i = 0; i < ops.size(); ++i) if(std::strchr("abmx", ops[i])) opens = std::max(opens, ++byStore[who[i]]);
    if(!fresh && opens > 1) life_ops(h, ops, who, start, true, &same);
    vfs::load(start); vfs::random_state_reset();
    auto base = live; auto baseBlocks = blocks; Life L; std::string err; error_code ec;
    auto bad = [&](std::string const& s){ if(err.empty()) err = s; };
    bool ok = guarded(h, "life", [&]{
        { Lib l; L.ctx = new nudb::context; for(auto& s : L.st) s = new DB<>::store(*L.ctx); }
        auto look = [&](int s){
            int b = L.open[s]; auto& st = *L.st[s];
            if(st.is_open() != (b >= 0)){ bad("is_open is wrong"); return; }
            if(b < 0 || L.broke[s]) return;
            auto& B = bases[b];
            if(st.dat_path() != B.d || st.key_path() != B.k || st.log_path() != B.l) bad("paths are those of another database");
            if(st.appnum() != B.c.app || st.key_size() != B.c.ks || st.block_size() != B.c.bs) bad("parameters are those of another database");
            for(int i = 0; i < L.nkey[b] + 1; ++i)
            {
                auto k = k9(b, i); int n = 0; std::string got; error_code e;
                { Lib l; st.fetch(k.data(), [&](void const* p, std::size_t z){ Mine m; ++n; got.assign((char const*)p, z); }, e); }
                auto it = L.all[b].find(k);
                if(it != L.all[b].end() ? (e || n != 1 || got != it->second) : (n || e != nudb::error::key_not_found)) bad("fetch is wrong for key " + std::to_string(i) + ": " + e.message());
            } };
        for(std::size_t i = 0; i < ops.size() && err.empty(); ++i)
        {
            int s = who[i]; auto& st = *L.st[s]; ec = {}; h.count("transitions");
            auto opn = [&](int b){
                if(fresh){ Lib l; delete L.st[s]; L.st[s] = new DB<>::store(*L.ctx); }
                auto& st = *L.st[s];
                { Lib l; bases[b].c.use(); st.open(bases[b].d, bases[b].k, bases[b].l, ec); }
                if(ec) bad("open fails: " + ec.message()); else { L.open[s] = b; L.used[b] = true; L.all[b] = L.disk[b]; L.stale[b] = false; } };
            // the session of store s ends: what was inserted is in the files unless a commit failed
            auto ended = [&](int s){ int b = L.open[s]; if(b < 0) return; if(L.broke[s]){ L.all[b] = L.disk[b]; L.stale[b] = true; } else L.disk[b] = L.all[b]; L.open[s] = -1; L.broke[s] = false; };
            switch(ops[i])
            {
            case 'a': opn(0); break;
            case 'b': opn(1); break;
            case 'm': { Lib l; st.open("/vfs/no.dat", "/vfs/no.key", "/vfs/no.log", ec); if(!ec) bad("open of missing files succeeds"); } break;
            case 'x': { Lib l; st.open(bases[0].d, bases[1].k, "/vfs/x.log", ec); if(!ec) bad("open of mismatched files succeeds"); } if(vfs::exists("/vfs/x.log")) vfs::remove("/vfs/x.log"); break;
            case 'i': { int b = L.open[s]; auto k = k9(b, L.nkey[b]); auto v = mkval(L.nkey[b], vsz(L.nkey[b]), b); ++L.nkey[b]; { Lib l; st.insert(k.data(), v.data(), v.size(), ec); } if(L.broke[s]){ if(!ec) bad("insert succeeds after a failed commit"); break; } if(ec) bad("insert fails: " + ec.message()); L.all[b][k] = v; } break;
            case 'e': { int b = L.open[s]; auto k = k9(b, 0); if(!L.all[b].count(k) || L.broke[s]) break; { Lib l; st.insert(k.data(), "zz", 2, ec); } if(ec != nudb::error::key_exists) bad("second insert of a key gives " + ec.message()); } break;
            case 'f': { Lib l; L.ctx->flush(); } for(int t = 0; t < 2; ++t) if(L.open[t] >= 0 && !L.broke[t]) L.disk[L.open[t]] = L.all[L.open[t]]; break;
            case 'k':   // a commit of this store fails: every change to its files does
            {
                int b = L.open[s]; vfs::hook = [&](vfs::Call const& c) -> vfs::Action { if(c.path && vfs::mutating(c.sys) && (*c.path == bases[b].d || *c.path == bases[b].k || *c.path == bases[b].l)) return {ENOSPC}; return {}; };
                { Lib l; L.ctx->flush(); } vfs::hook = {};
                for(int t = 0; t < 2; ++t) if(L.open[t] >= 0 && t != s && !L.broke[t]) L.disk[L.open[t]] = L.all[L.open[t]];
                if(L.all[b] != L.disk[b]) L.broke[s] = true;
            } break;
            case 'u': { Lib l; st.set_burst(1); } break;
            case 'c': { Lib l; st.close(ec); } if(L.broke[s] ? ec != boost::system::errc::no_space_on_device : bool(ec)) bad("close gives " + ec.message()); ended(s); break;
            case 'd': { Lib l; delete L.st[s]; L.st[s] = nullptr; L.st[s] = new DB<>::store(*L.ctx); } ended(s); break;
            }
            look(s);
        }
        { Lib l; for(auto& s : L.st){ delete s; s = nullptr; } delete L.ctx; L.ctx = nullptr; }
        for(int t = 0; t < 2; ++t) if(int b = L.open[t]; b >= 0){ if(L.broke[t]){ L.all[b] = L.disk[b]; L.stale[b] = true; } }
    });
    if(ok && err.empty())
    {
        if(vfs::open_fds()) bad("descriptors left open: " + vfs::open_fd_paths());
        if(live != base || blocks != baseBlocks) bad("memory left after everything is destroyed: " + std::to_string(live - base) + " bytes");
        auto img = vfs::snapshot(); h.state(img.hash()); if(last) *last = img;
        if(!fresh && opens > 1) for(auto& B : bases) if(getf(img, B.d) != getf(same, B.d) || getf(img, B.k) != getf(same, B.k)) bad("a store object used before leaves other files than a new one");
        if(opens > 1 && !fresh){ u64 id = 7; for(std::size_t i = 0; i < ops.size(); ++i) id = id * 131 + ops[i] * 2 + who[i]; h.nontrivial(id); }
        for(int b = 0; b < 2; ++b)
        {
            bases[b].c.use(); auto v = orc::decode(getf(img, bases[b].d), getf(img, bases[b].k));
            if(!v.err.empty()) bad("files do not decode: " + v.err); else if(v.map != L.all[b]) bad("files do not hold what was inserted");
            if(L.used[b] && !L.stale[b] && img.has(bases[b].l)) bad("log left");
        }
    }
    vfs::drop_fds(); h.count("traces");
    if(!err.empty())
    {
        std::string q; for(std::size_t i = 0; i < ops.size(); ++i){ q += ops[i]; if(who[i]) q += '\''; }
        h.describe("life " + q); h.fail("life:" + sig(err), err);
    }
}
static void life(H& h)
{
    for(int b = 0; b < 2; ++b)
    {
        auto& B = bases[b];
        B.d = b ? "/vfs/b/B.dat" : "/vfs/a/A.dat"; B.k = b ? "/vfs/c/B.key" : "/vfs/a/A.key"; B.l = b ? "/vfs/b/B.log" : "/vfs/a/A.log";
        B.c.ks = b ? 9 : 4; B.c.bs = b ? 158 : 104; B.c.lf = b ? 0.99f : 0.1f; B.c.mode = 0; B.c.salt += b * 77; B.c.uid += b; B.c.app += b * 3;
    }
    vfs::reset(); error_code ec; for(auto& B : bases){ B.c.use(); nudb::create<MHash>(B.d, B.k, B.l, B.c.app, B.c.uid, B.c.salt, B.c.ks, B.c.bs, B.c.lf, ec); if(ec) h.fail("create", ec.message()); }
    auto empty = vfs::snapshot();
    // warm up allocations made once per process
    life_ops(h, {'a','i','f','c'}, {0,0,0,0}, empty);
    std::function<void(std::vector<char>&, std::vector<char>&, int*, int, int)> rec = [&](std::vector<char>& o, std::vector<char>& w, int* op, int left, int stores){
        if(h.stop()) return;
        if(!left){ if(!h.next()) return; std::string q; for(char c : o) q += c; h.describe("life " + q); if(h.counters["cases"] % 4999 == 1) h.sample(h.desc()); life_ops(h, o, w, empty); return; }
        for(int s = 0; s < stores; ++s)
            for(char c : std::string(op[s] < 0 ? (stores > 1 ? "abmd" : "abmxd") : (stores > 1 ? "ifcdk" : "iefucdk")))
            {
                // a commit fails only if there is something to write; then the session is over but for a failing insert
                bool k = false, pend = false; int ks = 0; for(std::size_t j = 0; j < o.size(); ++j){ ks += o[j] == 'k'; if(o[j] == 'f' || o[j] == 'k') pend = false; if(w[j] != s) continue; if(o[j] == 'i') pend = true; if(o[j] == 'c' || o[j] == 'd') k = pend = false; if(o[j] == 'k') k = true; }
                if(c == 'k' && (!pend || k || ks >= 2)) continue;
                if(k && (c == 'e' || c == 'u' || (c == 'i' && o.back() != 'k') || (c == 'f' && o.back() != 'k'))) continue;
                if(stores > 1 && (c == 'a' || c == 'b') && op[1 - s] == c - 'a') continue;
                int old = op[s]; if(c == 'a' || c == 'b') op[s] = c - 'a'; if(c == 'c' || c == 'd') op[s] = -1;
                o.push_back(c); w.push_back(s); rec(o, w, op, left - 1, stores); o.pop_back(); w.pop_back(); op[s] = old;
            }
    };
    std::vector<char> o, w; int op[2] = {-1, -1};
    h.next("life1"); rec(o, w, op, h.thorough() ? 10 : 8, 1);
    h.next("life2"); rec(o, w, op, h.thorough() ? 8 : 6, 2);
    // long lives: the same object through many databases
    h.next("cycles");
    for(int pat = 0; pat < 81; ++pat) for(int n : {3, 7, 12})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        std::vector<char> o; int y = pat;
        for(int r = 0; r < 4; ++r){ int a = y % 3; y /= 3; o.push_back(a == 1 ? 'b' : 'a'); for(int i = 0; i < n; ++i){ o.push_back('i'); if(i % 3 == a) o.push_back('f'); } if(a == 2){ o.push_back('d'); o.push_back('m'); } else o.push_back('c'); }
        h.describef("cycles %d %d", pat, n);
        life_ops(h, o, std::vector<char>(o.size(), 0), empty);
    }
}

// ------------------------------------------------------------------- C22
namespace fl {
struct FOp { char t; int h, p, m; u64 a; u64 n; };
static std::string name(FOp const& o){ char b[80]; std::snprintf(b, sizeof b, "%c%d(p%d,m%d,%llu,%llu) ", o.t, o.h, o.p, o.m, (unsigned long long)o.a, (unsigned long long)o.n); return b; }
static char const* PN[2] = {"/vfs/f/x", "/vfs/f/y"};
using MP = std::shared_ptr<std::string>;
struct MH { bool open = false; int mode = 0; MP f; };
using nudb::file_mode;
static file_mode modes[] = {file_mode::scan, file_mode::read, file_mode::append, file_mode::write};
static bool wr(int m){ return m >= 2; }
// failAt >= 0: that call the file object makes to the system fails with err
static int run(H& h, std::vector<FOp> const& ops, int failAt = -1, int errn = 0)
{
    int calls = 0, hit = 0; bool counting = false;
    vfs::hook = [&](vfs::Call const& c) -> vfs::Action { vfs::Action a; if(!counting || c.sys == vfs::Sys::close) return a; if(calls++ == failAt){ hit = 1; a.err = errn; } return a; };
    vfs::reset(); std::map<int, MP> dir; MH mh[2]; 
    vfs::put(PN[0], "abcdef"); dir[0] = std::make_shared<std::string>("abcdef");
    std::string err; auto bad = [&](std::string const& s){ if(err.empty()) err = s; };
    bool ok = guarded(h, "file", [&]{
        nudb::native_file f[2];
        for(auto& o : ops)
        {
            error_code ec; auto& m = mh[o.h]; auto& x = f[o.h]; h.count("transitions"); hit = 0; counting = true;
            auto failed = [&]{ counting = false; if(!hit) return false; if(ec.value() != errn || !ec) bad(std::string("a failing system call is reported as ") + ec.message()); return true; };
            switch(o.t)
            {
            case 'c': if(m.open) break; x.create(modes[o.m], PN[o.p], ec);
                if(failed()) {}
                else if(dir.count(o.p)){ if(ec != boost::system::errc::file_exists) bad("create over an existing file gives " + ec.message()); }
                else if(ec) bad("create fails: " + ec.message());
                else { m.open = true; m.mode = o.m; m.f = dir[o.p] = std::make_shared<std::string>(); }
                break;
            case 'o': if(m.open) break; x.open(modes[o.m], PN[o.p], ec);
                if(failed()) {}
                else if(!dir.count(o.p)){ if(ec != boost::system::errc::no_such_file_or_directory) bad("open of a missing file gives " + ec.message()); }
                else if(ec) bad("open fails: " + ec.message());
                else { m.open = true; m.mode = o.m; m.f = dir[o.p]; }
                break;
            case 'x': x.close(); m = {}; break;
            case 'e': nudb::native_file::erase(PN[o.p], ec);
                if(failed()) {}
                else if(!dir.count(o.p)){ if(ec != boost::system::errc::no_such_file_or_directory) bad("erase of a missing file gives " + ec.message()); }
                else { if(ec) bad("erase fails: " + ec.message()); dir.erase(o.p); }
                break;
            case 'w': { std::string d; for(u64 i = 0; i < o.n; ++i) d += char('0' + (i + o.a) % 70);
                if(!m.open) break;      // an earlier open failed
                u64 at = m.mode == 2 ? m.f->size() : o.a; x.write(at, d.data(), d.size(), ec);      // append mode: at the end, as the library does
                if(failed()) {}
                else if(!wr(m.mode)){ if(o.n && !ec) bad("write to a file opened for reading succeeds"); }
                else if(ec) bad("write fails: " + ec.message());
                else if(o.n){ if(m.f->size() < at) m.f->resize(at, '\0'); m.f->replace(at, o.n, d); }
                break; }
            case 'r': { if(!m.open) break; std::string b(o.n + 2, '#'); x.read(o.a, &b[1], o.n, ec);
                bool sh = o.n && o.a + o.n > m.f->size();
                if(failed()) {} else if(sh){ if(ec != nudb::error::short_read) bad("reading past the end gives " + ec.message()); }
                else if(ec) bad("read fails: " + ec.message()); else if(o.n && b.substr(1, o.n) != m.f->substr(o.a, o.n)) bad("wrong bytes read");
                if(b[0] != '#' || b[o.n + 1] != '#') bad("read writes outside its buffer");
                break; }
            case 't': if(!m.open) break; x.trunc(o.a, ec);
                if(failed()) {}
                else if(!wr(m.mode)){ if(!ec) bad("trunc of a file opened for reading succeeds"); }
                else { if(ec) bad("trunc fails: " + ec.message()); m.f->resize(o.a, '\0'); }
                break;
            case 'y': if(!m.open) break; x.sync(ec); if(failed()) {} else if(ec) bad("sync fails: " + ec.message()); break;
            case 'z': { if(!m.open) break; auto z = x.size(ec); if(failed()) {} else if(ec || z != m.f->size()) bad("size is wrong"); break; }
            case 'm': f[o.h] = std::move(f[1 - o.h]); mh[o.h] = mh[1 - o.h]; mh[1 - o.h] = {}; break;
            case 's': { auto& y = x; x = std::move(y); break; }
            case 'n': { nudb::native_file z(std::move(x)); if(x.is_open()) bad("moved from file is open"); if(z.is_open() != m.open) bad("moved to file has the wrong state"); if(o.a) x = std::move(z); else m = {}; break; }
            }
            counting = false; int n = 0;
            for(int i = 0; i < 2; ++i)
            {
                if(f[i].is_open() != mh[i].open){ bad("is_open is wrong"); break; }
                n += mh[i].open;
                if(mh[i].open){ error_code e; auto s = f[i].size(e); if(e || s != mh[i].f->size()) bad("size is wrong"); }
            }
            if(vfs::open_fds() != n) bad("descriptors do not follow the objects");
            for(int p = 0; p < 2; ++p)
            {
                auto c = vfs::file(PN[p]);
                if(bool(c) != bool(dir.count(p))) bad("file exists when it should not, or the reverse");
                else if(c && c->str() != *dir[p]) bad("wrong file contents");
            }
            if(!err.empty()) break;
        }
    });
    if(ok && vfs::open_fds()) bad("descriptor left after the object is gone");
    vfs::hook = {}; vfs::drop_fds(); h.count("traces"); h.state(vfs::snapshot().hash());
    if(!err.empty()){ std::string q = "file ops: "; for(auto& o : ops) q += name(o); if(failAt >= 0) q += "call " + std::to_string(failAt) + " fails with " + std::to_string(errn); h.describe(q); h.fail("file:" + sig(err), err); }
    return calls;
}
static void all(H& h)
{
    int L = h.thorough() ? 6 : 5; bool faults = false;
    std::vector<FOp> cur; 
    struct S { bool open; int mode; };
    std::function<void(S, S, int, int)> rec = [&](S a, S b, int dir, int left){
        if(h.stop()) return;
        if(!left){ if(!h.next()) return; std::string q = "file ops: "; for(auto& o : cur) q += name(o); h.describe(q); if(h.counters["cases"] % 99991 == 1) h.sample(q); h.nontrivial(h.caseno * 0x9E3779B97F4A7C15ull); int n = run(h, cur); if(faults) for(int i = 0; i < n; ++i) for(int e : {EIO, ENOSPC, EACCES, EMFILE}){ run(h, cur, i, e); h.count("faults"); } return; }
        S s[2] = {a, b};
        auto go = [&](FOp o, S na, S nb, int nd){ cur.push_back(o); rec(na, nb, nd, left - 1); cur.pop_back(); };
        for(int i = 0; i < 2; ++i)
        {
            auto with = [&](FOp o, S n, int nd = -1){ if(nd < 0) nd = dir; i ? go(o, a, n, nd) : go(o, n, b, nd); };
            if(!s[i].open)
            {
                if(i == 0 || left > 1)
                for(int p = 0; p < 2; ++p){ bool there = dir >> p & 1; for(int m : {2, 3}) with({'c', i, p, m, 0, 0}, there ? s[i] : S{true, m}, dir | 1 << p); for(int m = 0; m < 4; ++m) if(i == 0 || m == 1 || m == 3) with({'o', i, p, m, 0, 0}, there ? S{true, m} : s[i]); }
            }
            else
            {
                with({'x', i, 0, 0, 0, 0}, {false, 0});
                if(i == 0){ for(u64 off : {0, 4, 9}) with({'w', i, 0, 0, off, 4}, s[i]); for(u64 off : {0, 3, 8}) with({'r', i, 0, 0, off, 4}, s[i]); for(u64 n : {0, 3, 12}) with({'t', i, 0, 0, n, 0}, s[i]); with({'y', i, 0, 0, 0, 0}, s[i]); with({'s', i, 0, 0, 0, 0}, s[i]); if(faults) with({'z', i, 0, 0, 0, 0}, s[i]); }
                else { with({'w', i, 0, 0, 2, 3}, s[i]); with({'r', i, 0, 0, 0, 5}, s[i]); }
                with({'n', i, 0, 0, 0, 0}, {false, 0}); if(i == 0) with({'n', i, 0, 0, 1, 0}, s[i]);
            }
        }
        for(int p = 0; p < 2; ++p) go({'e', 0, p, 0, 0, 0}, a, b, dir & ~(1 << p));
        if(a.open || b.open){ go({'m', 0, 0, 0, 0, 0}, b, {false, 0}, dir); go({'m', 1, 0, 0, 0, 0}, {false, 0}, a, dir); }
    };
    h.next("file"); rec({false, 0}, {false, 0}, 1, L);
    faults = true; for(int l = 1; l < L; ++l){ h.next("filefault" + std::to_string(l)); rec({false, 0}, {false, 0}, 1, l); }
}
}

// ------------------------------------------------------------------- C23
static void throttle(H& h)
{
    h.next("throttle");
    // phase 1: one flush of a known amount in a known time; phase 2: inserts at a known speed
    u64 const ms = 1000000ull;
    for(u64 burst : {u64(0), u64(4096), u64(65536), u64(1) << 20, u64(4) << 20}) for(std::size_t vz : {500u, 20000u, 300000u}) for(int n1 : {0, 1, 12, 40}) for(u64 flushMs : {1, 40, 1000, 20000})
    for(u64 gapUs : {1, 300, 5000, 100000, 2000000}) for(int bs : {104, 4096}) for(int order = 0; order < 6; ++order)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        if(vz == 300000 && n1 == 40 && order && !h.thorough()) continue;
        Cfg c; c.bs = bs; c.use(); vfs::reset(); vfs::random_state_reset(); error_code ec; vfs::hook = {}; docreate(c, ec);
        h.describef("burst=%llu value=%zu first=%d flush=%llums gap=%lluus bs=%d order=%d", (unsigned long long)burst, vz, n1, (unsigned long long)flushMs, (unsigned long long)gapUs, bs, order);
        vclk::on = true; vclk::now = 5000000000000ull; vclk::sleeps = vclk::slept = 0; vclk::on_sleep = {};
        int key = 0; bool dfl = burst == (4u << 20); double rlo = 0, rhi = 0; bool known = false, unsure = false; u64 nreent = 0;
        guarded(h, "throttle", [&]{
            DB<> db; db.open(ec);
            if(order == 5) db.s->set_burst(1); else if(!dfl && order != 3) db.s->set_burst(burst);
            // fetch and insert of other threads must not be held up: look in from inside the sleep
            vclk::on_sleep = [&]{ vclk::on_sleep = {}; error_code e; int n = 0; db.s->fetch(orc::mkkey(0).data(), [&](void const*, std::size_t){ ++n; }, e); if(e || n != 1) h.fail("throttle:fetch", "fetch while an insert is delayed: " + e.message()); ++nreent; };
            auto flush = [&]{
                // time passes in the operations of the commit
                int ops = 0; vfs::hook = [&](vfs::Call const& q) -> vfs::Action { if(ops++ == 2) vclk::now += flushMs * ms; (void)q; return {}; };
                db.flush(); vfs::hook = {}; };
            auto put = [&](bool expectMay, bool expectMust, std::string const& what){
                auto s0 = vclk::sleeps; auto t0 = vclk::slept; auto v = mkval(key, vz); ec = {}; db.insert(orc::mkkey(key), v, ec); ++key; h.count("transitions");
                if(ec){ h.fail("throttle:error", "a delayed insert fails: " + ec.message()); return false; }
                u64 n = vclk::sleeps - s0, d = vclk::slept - t0;
                if(n) h.count("delays"); else h.count("no_delays");
                if(n && !expectMay){ h.fail("throttle:early:" + sig(what), "insert is delayed although " + what); return false; }
                if(!n && expectMust){ h.fail("throttle:none", "insert is not delayed although it outruns the disk with a full burst pending"); return false; }
                if(d > 1000 * ms){ h.fail("throttle:long", "one insert is delayed " + std::to_string(d / ms) + " ms"); return false; }
                return true; };
            u64 since = vclk::now;
            for(int i = 0; i < n1; ++i) if(!put(false, false, "no write rate is known")) return;
            if(order == 2) vclk::now += 3000 * ms;
            since = vclk::now; if(n1) { flush(); }
            u64 effective = order == 5 ? 1 : dfl || order == 3 ? 4u << 20 : burst;
            // the work of the commit is between its data and its data plus three blocks (and headers) per value
            double wlo = double(n1) * vz, whi = double(n1) * (vz + 3.0 * bs) + 3.0 * bs * (n1 + 4);
            known = n1 && wlo > effective; unsure = n1 && !known && whi > effective;
            if(known || unsure){ rlo = wlo / (flushMs / 1000.0); rhi = whi / (flushMs / 1000.0); }
            if(order == 4){ vclk::now += 777 * ms; since = vclk::now; db.flush(); }      // a flush with nothing to write
            if(order == 3 || order == 5){ db.s->set_burst(burst); effective = burst; }
            if(order == 1){ ec = {}; db.close(ec); db.open(ec); if(ec){ h.fail("throttle:reopen", ec.message()); return; } known = unsure = false; effective = 4u << 20; since = vclk::now; }
            u64 pend = 0; u64 begin = since;       // measured since the last flush began, or open
            for(int i = 0; i < 45; ++i)
            {
                vclk::now += gapUs * 1000; pend += 1;
                double plo = double(pend) * vz, phi = double(pend) * (vz + 3.0 * bs) + 1; double el = (vclk::now - begin) / 1e9;
                double slo = plo / el, shi = phi / el;
                bool may = (known || unsure) && phi > effective && shi * 4 > rlo;
                bool must = known && plo > effective * 1.01 && slo > rhi * 4 && plo > 1;
                if(!put(may, must, !known && !unsure ? "no write rate is known" : phi <= effective ? "less than the burst is pending" : "it is slower than the disk")) return;
                h.nontrivial((u64)(may * 2 + must) * 0x9E3779B97F4A7C15ull ^ (h.caseno * 64 + i));
                if(vz == 300000 && i > 20) break;
            }
            h.state(vclk::now);
            vfs::hook = {}; ec = {}; db.close(ec); if(ec) h.fail("throttle:close", ec.message());
            ec = {}; db.open(ec); std::string got; for(int i = 0; i < key; ++i){ error_code e; if(db.fetch(orc::mkkey(i), got, e) != 1 || got != mkval(i, vz)){ h.fail("throttle:lost", "a value is lost"); break; } } db.close(ec);
        });
        vclk::on = false; vclk::on_sleep = {}; vfs::hook = {}; vfs::drop_fds(); h.count("traces");
        if(h.counters["cases"] % 997 == 1) h.sample(h.desc());
    }
}

int main(int argc, char** argv)
{
    H h(argc, argv, "C20"); g = &h; prop = h.prop;
    if(prop == "C20")
    {
        vclk::on = true;
        auto f = [&](Hist const& t){ cost(h, t); };
        int sc = h.thorough() ? 1 : 0;
        during(h); memory(h);
        hist_dims(h, sc, f); hist_masks(h, sc, f); hist_hashes(h, sc, f); hist_values(h, 0, f); hist_ops(h, sc, f);
    }
    else if(prop == "C21") life(h);
    else if(prop == "C22") fl::all(h);
    else throttle(h);
    h.finish();
}
