// C01, C09, C12, C14: every bounded history on the real store; map semantics,
// file format, verify and visit judged at quiescent points.
#include "hist.hpp"
#include "../engine/vclock.hpp"

static H* g;
static std::string prop;

// ---- monitors used by C09: the data file only grows
static bool monitor = false;
static std::string monErr;
static vfs::Action mon(vfs::Call const& c)
{
    if(monitor && c.path && *c.path == DP && monErr.empty())
    {
        auto f = vfs::file(DP);
        if(c.sys == vfs::Sys::write && f && c.off < f->size) monErr = "write inside existing data file bytes";
        if(c.sys == vfs::Sys::trunc) monErr = "data file truncated";
        if(c.sys == vfs::Sys::unlink) monErr = "data file erased";
    }
    return {};
}

struct Prog { bool mono = true, over = false; std::uint64_t last = 0, n = 0, total = 0; std::uint64_t lastTotal = 0;
    void operator()(std::uint64_t a, std::uint64_t t){ if(n && a < last) mono = false; if(a > t) over = true; if(n && t != total) over = true; last = a; total = t; ++n; } };

static void check_format(H& h, Hist const& t, Map const& m, vfs::Image const& img)
{
    auto v = orc::decode(getf(img, DP), getf(img, KP));
    h.count("decoded");
    if(!v.err.empty()){ h.fail("format:" + sig(v.err), "files do not decode: " + v.err); return; }
    if(v.map != m) h.fail("format:content", "independent reader finds different contents");
    auto& c = t.cfg;
    if(v.uid != c.uid || v.app != c.app || v.ks != c.ks || v.salt != c.salt || v.bs != c.bs) h.fail("format:params", "header fields differ from the creation parameters");
    std::uint64_t lf = std::min<std::uint64_t>((std::uint64_t)(65536.0f * c.lf), 65535);
    if(v.lf != lf) h.fail("format:loadfactor", "stored load factor differs");
    for(auto& s : v.spills) if(s.size != orc::bsize(v.cap)) h.fail("format:spillsize", "spill record is not a full bucket");
    auto l = img.files.find(LP);
    if(l != img.files.end() && l->second.size != 0) h.fail("format:log", "log file not empty at a quiescent point");
}

static void check_verify(H& h, vfs::Image const& img)
{
    int nfd = vfs::open_fds();
    auto v = orc::decode(getf(img, DP), getf(img, KP));
    if(!v.err.empty()) return;          // C09's business
    std::uint64_t liveSp = 0, liveB = 0, totB = 0; std::array<std::uint64_t,10> hist{};
    std::uint64_t fetches = 0, kc = 0, vb = 0;
    for(auto& ch : v.chains)
    {
        liveSp += ch.size() - 1; hist[std::min<std::size_t>(ch.size() - 1, 9)]++;
        for(std::size_t i = 0; i < ch.size(); ++i)
        {
            if(i){ liveB += 8 + orc::bsize(ch[i].e.size()); }
            for(auto& e : ch[i].e)
            {
                ++kc;
                fetches += 1 + i;       // bucket reads to get there
                for(std::size_t q = 0; q <= i; ++q)
                    for(auto& o : ch[q].e){ if(q == i && o.off == e.off) break; if(o.hash == e.hash) ++fetches; }
            }
        }
    }
    for(auto& s : v.spills) totB += 8 + s.size;
    for(auto& r : v.recs) vb += r.val.size();
    std::set<std::size_t> bufs = {0, 1, v.bs, 2 * v.bs + 7, 2 * v.bs + 8, (std::size_t)1 << 20};
    for(std::uint64_t cs = 1; cs <= std::min<std::uint64_t>(v.buckets + 1, 24); ++cs){ bufs.insert(v.bs + cs * (v.bs + 8)); bufs.insert(v.bs + cs * (v.bs + 8) - 1); }
    auto before = img.hash();
    for(auto b : bufs)
    {
        nudb::verify_info i; error_code ec; Prog pr;
        bool ok = guarded(h, "verify", [&]{ nudb::verify<MHash>(i, DP, KP, b, pr, ec); });
        h.count("transitions"); h.count("verifies");
        if(!ok) return;
        char w[60]; std::snprintf(w, sizeof w, " (buffer %zu, algorithm %d)", b, i.algorithm);
        if(ec){ h.fail(std::string("verify:rejects:") + (i.algorithm ? "fast:" : "normal:") + ec.message(), "verify rejects a valid database: " + ec.message() + w); continue; }
        auto bad = [&](char const* f, double got, double exp){ char q[160]; std::snprintf(q, sizeof q, "verify reports %s = %.9g, independent reader %.9g", f, got, exp); h.fail(std::string("verify:stat:") + (i.algorithm ? "fast:" : "normal:") + f, q + std::string(w)); };
#define EQ(f, e) if((std::uint64_t)(i.f) != (std::uint64_t)(e)) bad(#f, (double)i.f, (double)(e));
        EQ(version, 2) EQ(uid, v.uid) EQ(appnum, v.app) EQ(key_size, v.ks) EQ(salt, v.salt) EQ(pepper, v.pep) EQ(block_size, v.bs)
        EQ(capacity, v.cap) EQ(buckets, v.buckets) EQ(bucket_size, orc::bsize(v.cap)) EQ(key_file_size, v.ksize) EQ(dat_file_size, v.dsize)
        EQ(key_count, kc) EQ(value_count, v.recs.size()) EQ(value_bytes, vb) EQ(spill_count, liveSp) EQ(spill_count_tot, v.spills.size())
        EQ(spill_bytes, liveB) EQ(spill_bytes_tot, totB)
        for(int k = 0; k < 10; ++k) if(i.hist[k] != hist[k]) bad("hist", i.hist[k], hist[k]);
        auto near = [](double a, double b){ return std::abs(a - b) <= 1e-5 * (1 + std::abs(b)); };
        if(!near(i.load_factor, v.lf / 65536.0)) bad("load_factor", i.load_factor, v.lf / 65536.0);
        double al = double(kc) / (double(v.cap) * v.buckets); if(!near(i.actual_load, al)) bad("actual_load", i.actual_load, al);
        double ws = double(totB - liveB) / v.dsize; if(!near(i.waste, ws)) bad("waste", i.waste, ws);
        double af = v.recs.empty() ? 0 : double(fetches) / v.recs.size(); if(!near(i.avg_fetch, af)) bad("avg_fetch", i.avg_fetch, af);
        double oh = v.recs.empty() ? 0 : double(v.ksize + v.dsize) / (vb + kc * (v.ks + 6)) - 1; if(!near(i.overhead, oh)) bad("overhead", i.overhead, oh);
        if(i.dat_path != DP || i.key_path != KP) h.fail("verify:paths", "verify reports wrong paths");
        h.nontrivial(before ^ (i.algorithm ? 0x5555 : 0) ^ (b * 0x9E3779B97F4A7C15ull));
    }
    if(vfs::snapshot().hash() != before) h.fail("verify:modifies", "verify modified the files");
    if(vfs::open_fds() != nfd) h.fail("verify:fds", "verify leaves descriptors open");
}

static void check_visit(H& h, vfs::Image const& img, Map const&)
{
    auto d = getf(img, DP); orc::View v; auto e = orc::decode_dat(d, v);
    if(!e.empty()) return;
    auto before = img.hash();
    // stop positions: no stop, and at each record
    std::size_t n = v.recs.size();
    for(std::size_t stop = 0; stop <= n; ++stop)
    {
        if(n > 5 && stop > 2 && stop != n / 2 && stop != n) continue;
        std::size_t i = 0; std::string bad; error_code ec; Prog pr; int afterStop = 0;
        bool ok = guarded(h, "visit", [&]{ nudb::visit(DP, [&](void const* k, std::size_t ks, void const* p, std::size_t sz, error_code& e2){
            if(stop && i >= stop) ++afterStop;
            if(i >= n) bad = "more records than inserted";
            else if(ks != v.ks || std::string((char const*)k, ks) != v.recs[i].key) bad = "wrong key or order";
            else if(std::string((char const*)p, sz) != v.recs[i].val) bad = "wrong value";
            ++i;
            if(stop && i == stop) e2 = make_error_code(boost::system::errc::operation_canceled);
        }, pr, ec); });
        h.count("transitions"); h.count("visits");
        if(!ok) return;
        if(!bad.empty()){ h.fail("visit:" + bad, "visit: " + bad); return; }
        if(stop)
        {
            if(i != stop || afterStop) h.fail("visit:stop", "visit does not stop at the callback's error");
            if(ec != boost::system::errc::operation_canceled) h.fail("visit:stopec", "visit does not report the callback's error");
        }
        else
        {
            if(ec) h.fail("visit:error:" + ec.message(), "visit of a valid data file fails: " + ec.message());
            else if(i != n) h.fail("visit:missing", "visit skipped records");
            if(!pr.mono || pr.over) h.fail("visit:progress", "visit progress not monotone within its total");
            if(!ec && n && (pr.last != v.dsize || pr.total != v.dsize)) h.fail("visit:progressend", "visit progress does not end at the file size");
        }
    }
    if(vfs::snapshot().hash() != before) h.fail("visit:modifies", "visit modified the files");
    h.nontrivial(before);
}

static std::unordered_set<std::uint64_t> seenImg;

static void quiescent(H& h, Hist const& t, Map const& m)
{
    auto img = vfs::snapshot(); auto hh = img.hash();
    h.state(hh);
    if(prop == "C01") return;
    if(!seenImg.insert(hh ^ (t.cfg.mode == 4 ? 0 : t.cfg.mode * 77)).second && t.cfg.mode != 4) return;
    if(prop == "C09") check_format(h, t, m, img);
    if(prop == "C12") check_verify(h, img);
    if(prop == "C14") check_visit(h, img, m);
}

// Execute a history with all checks; the outcome of each operation is
// compared with a map.
static void run(H& h, Hist const& t)
{
    h.describe(hstr(t));
    t.cfg.use();
    vfs::reset(); monErr.clear(); monitor = false;
    vfs::random_state_reset();
    Map all;
    auto bad = [&](std::string const& s, std::string const& m){ h.fail(s, m); };
    guarded(h, "history", [&]{
        error_code ec; docreate(t.cfg, ec);
        if(ec){ bad("create", "create failed: " + ec.message()); return; }
        DB<> db; db.open(ec);
        if(ec){ bad("open", "open failed: " + ec.message()); return; }
        if(db.s->appnum() != t.cfg.app || db.s->key_size() != t.cfg.ks || db.s->block_size() != t.cfg.bs) bad("params", "store parameters differ from creation");
        if(db.s->dat_path() != DP || db.s->key_path() != KP || db.s->log_path() != LP) bad("paths", "store paths differ");
        monitor = prop == "C09";
        bool fetchAll = prop == "C01";
        std::uint64_t step = 0;
        for(auto& o : t.ops)
        {
            ++step;
            h.count("transitions");
            if(o.t == 'I')
            {
                auto k = orc::mkkey(o.k); bool had = all.count(k);
                auto v = mkval(o.k, o.sz, had ? 9 : 0);
                ec = {}; db.insert(k, v, ec);
                if(had){ if(ec != nudb::error::key_exists){ bad("insert:dup", "insert of a present key: expected key_exists, got " + (ec ? ec.message() : std::string("success"))); return; } }
                else { if(ec){ bad("insert:fail", "insert of a new key failed: " + ec.message()); return; } all.emplace(k, v); }
            }
            else if(o.t == 'F') db.flush();
            else if(o.t == 'T') vclk::now += o.k * 1000000ull;
            else if(o.t == 'R')
            {
                ec = {}; db.close(ec); if(ec){ bad("close", "close failed: " + ec.message()); return; }
                if(db.is_open()) bad("close:open", "store open after close");
                monitor = false;
                if(vfs::exists(LP)) bad("close:log", "log file exists after a clean close");
                if(vfs::open_fds()) bad("close:fds", "descriptors open after close: " + vfs::open_fd_paths());
                quiescent(h, t, all);
                ec = {}; db.open(ec); if(ec){ bad("reopen", "reopen failed: " + ec.message()); return; }
                monitor = prop == "C09";
            }
            if(o.t == 'F') quiescent(h, t, all);
            if(fetchAll && (t.ops.size() <= 14 || step % 3 == 0 || step + 4 > t.ops.size()))
            {
                for(int i = 0; i < t.nkeys; ++i)
                {
                    auto e = check_fetch(db, orc::mkkey(i), all); h.count("fetches");
                    if(!e.empty()){ bad("fetch:" + sig(e.substr(0, 60)), e + " (key " + std::to_string(i) + " after step " + std::to_string(step) + ")"); return; }
                }
                // every present key is refused
                if(step == t.ops.size()) for(auto& kv : all)
                {
                    ec = {}; db.insert(kv.first, mkval(999, 5), ec);
                    if(ec != nudb::error::key_exists) bad("insert:dup", "insert of a present key: expected key_exists");
                }
            }
        }
        ec = {}; db.close(ec); if(ec){ bad("close", "final close failed: " + ec.message()); return; }
        monitor = false;
        if(vfs::exists(LP)) bad("close:log", "log file exists after a clean close");
        if(vfs::open_fds()) bad("close:fds", "descriptors open after close: " + vfs::open_fd_paths());
        quiescent(h, t, all);
        if(fetchAll)
        {
            ec = {}; db.open(ec); if(ec){ bad("reopen", "reopen failed: " + ec.message()); return; }
            for(int i = 0; i < t.nkeys; ++i)
            {
                auto e = check_fetch(db, orc::mkkey(i), all); h.count("fetches");
                if(!e.empty()){ bad("fetch:" + sig(e.substr(0, 60)), e + " (key " + std::to_string(i) + " after final reopen)"); return; }
            }
            h.state(vfs::snapshot().hash());
            ec = {}; db.close(ec); if(ec) bad("close", "close failed");
        }
    });
    vfs::drop_fds();
    if(!monErr.empty()) h.fail("appendonly:" + monErr, "data file is not append only: " + monErr);
    if(!vfs::unsupported.empty()) h.fail("vfs:" + vfs::unsupported, "code uses a call the virtual file system lacks: " + vfs::unsupported);
    h.count("traces");
    if(h.counters["cases"] % 997 == 1) h.sample(h.desc());
}

// ---------------------------------------------------------------- C09 extras
static void hash_inputs(H& h)
{
    // the library's default hash function against the reference, all lengths and alignments
    std::size_t L = h.thorough() ? 1100 : 300;
    std::vector<unsigned char> buf(L + 64);
    h.next("hash64");
    std::uint64_t salts[] = {0, 1, 0xffffffffffffffffull, 0x0123456789abcdefull, 0x8000000000000000ull, 0x9E3779B185EBCA87ull};
    for(std::size_t n = 0; n <= L; ++n)
    {
        if(!h.next()) continue;
        h.describef("length %zu", n);
        for(int pat = 0; pat < 4; ++pat) for(unsigned al = 0; al < 9; ++al)
        {
            for(std::size_t i = 0; i < buf.size(); ++i) buf[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (unsigned char)(i * 37 + n) : (unsigned char)((i * i * 131) >> 3 ^ 0x80);
            std::unique_ptr<unsigned char[]> ex(new unsigned char[n + al + (n + al == 0)]);
            std::memcpy(ex.get() + al, buf.data(), n);
            for(auto s : salts)
            {
                nudb::xxhasher x(s); h.count("transitions");
                if((std::uint64_t)x(ex.get() + al, n) != orc::xxh64(ex.get() + al, n, s)) h.fail("hash", "xxhasher differs from xxHash64");
            }
        }
        h.nontrivial(n * 0x9E3779B97F4A7C15ull + 12345);
        h.count("traces");
    }
}
// A database written by the independent encoder is read by the library.
static void foreign_db(H& h)
{
    h.next("encoder");
    for(int mode : {0,1,2,3,5,7}) for(std::size_t bs : {104u,121u,122u,512u}) for(std::size_t ks : {1u,4u,8u,33u}) for(int n : {0,1,4,5,6,11,23}) for(std::uint64_t buckets : {1,2,3,5,8}) for(int orphan = 0; orphan < 2; ++orphan)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.bs = bs; c.ks = ks; c.use();
        h.describef("encoder %s n=%d buckets=%d orphan=%d", c.str().c_str(), n, (int)buckets, orphan);
        std::uint64_t cap = orc::capacity_of(bs), mod = orc::pow2ceil(buckets);
        std::string d = orc::enc_dat_header(c.uid, c.app, ks);
        Map m; std::vector<std::vector<orc::Ent>> be(buckets);
        std::vector<orc::Bkt> cur(buckets);
        for(int i = 0; i < n; ++i)
        {
            auto k = orc::mkkey(i); auto v = mkval(i, vsz(i)); m[k] = v;
            std::uint64_t off = d.size(); d += orc::enc_rec(k, v);
            std::uint64_t hs = orc::hash64(c.salt, k.data(), ks) >> 16, b = orc::bindex(hs, buckets, mod);
            if(orphan && i == 3){ orc::Bkt o; o.e.assign(cap, {92, 1, 5}); d += orc::enc_spill(o); }
            if(cur[b].e.size() == cap){ std::uint64_t so = d.size() + 8; d += orc::enc_spill(cur[b]); cur[b] = {}; cur[b].spill = so; }
            auto& e = cur[b].e; e.insert(std::upper_bound(e.begin(), e.end(), hs, [](std::uint64_t x, orc::Ent const& q){ return x < q.hash; }), {off, v.size(), hs});
        }
        std::string k = orc::enc_key_header(c.uid, c.app, ks, c.salt, orc::pepper(c.salt), bs, 32768);
        for(auto& b : cur) k += orc::enc_bucket(b, bs);
        vfs::reset(); vfs::put(DP, d); vfs::put(KP, k);
        guarded(h, "encoder", [&]{
            DB<> db; error_code ec; db.open(ec);
            if(ec){ h.fail("foreign:open", "database by an independent writer does not open: " + ec.message()); return; }
            for(int i = 0; i < n + 2; ++i){ auto e = check_fetch(db, orc::mkkey(i), m); h.count("transitions"); if(!e.empty()){ h.fail("foreign:fetch", e); break; } }
            if(db.s->appnum() != c.app || db.s->key_size() != ks || db.s->block_size() != bs) h.fail("foreign:params", "parameters differ");
            // grow it and judge the result
            for(int i = n; i < n + 7; ++i){ auto kk = orc::mkkey(i); auto v = mkval(i, vsz(i)); db.insert(kk, v, ec); if(ec){ h.fail("foreign:insert", ec.message()); return; } m[kk] = v; }
            db.flush();
            for(int i = 0; i < n + 8; ++i){ auto e = check_fetch(db, orc::mkkey(i), m); if(!e.empty()){ h.fail("foreign:fetch2", e); break; } }
            db.close(ec); if(ec) h.fail("foreign:close", ec.message());
            auto img = vfs::snapshot(); auto w = orc::decode(getf(img, DP), getf(img, KP));
            if(!w.err.empty()) h.fail("foreign:" + sig(w.err), "grown database does not decode: " + w.err);
            else if(w.map != m) h.fail("foreign:content", "contents differ");
            if(getf(img, DP).compare(0, d.size(), d)) h.fail("foreign:prefix", "existing data file bytes changed");
            h.state(img.hash());
        });
        vfs::drop_fds(); h.count("traces");
    }
}
// C14: truncated files and failing reads
static void visit_damage(H& h)
{
    h.next("visit-damage");
    for(int mode : {0,1}) for(int n : {0,1,3,12}) for(int big = 0; big < 2; ++big)
    {
        Cfg c; c.mode = mode; c.lf = 0.99f;
        // build
        c.use(); vfs::reset(); error_code ec; docreate(c, ec);
        { DB<> db; db.open(ec); for(int i = 0; i < n; ++i){ db.insert(orc::mkkey(i), mkval(i, big && i == 1 ? 5000000 : vsz(i)), ec); if(i % 4 == 3) db.flush(); } db.close(ec); }
        auto d = getf(vfs::snapshot(), DP);
        orc::View v; orc::decode_dat(d, v);
        std::set<std::uint64_t> bounds = {92}; for(auto& r : v.recs) bounds.insert(r.off + 6 + v.ks + r.val.size()); for(auto& s : v.spills) bounds.insert(s.off + 8 + s.size);
        for(std::uint64_t cut = 0; cut <= d.size(); ++cut)
        {
            if(big){ bool nearb = false; for(auto b : bounds) if(cut + 12 >= b && cut <= b + 12) nearb = true; if(!nearb && cut % 400009) continue; }
            if(!h.next()) { if(h.stop()) return; continue; }
            h.describef("visit mode=%d n=%d big=%d cut=%llu of %zu", mode, n, big, (unsigned long long)cut, d.size());
            vfs::reset(); vfs::put(DP, d.substr(0, cut));
            std::size_t i = 0; std::string bad; ec = {};
            guarded(h, "visit", [&]{ nudb::visit(DP, [&](void const* k, std::size_t ks, void const* p, std::size_t sz, error_code&){
                if(i >= v.recs.size() || std::string((char const*)k, ks) != v.recs[i].key || std::string((char const*)p, sz) != v.recs[i].val) bad = "wrong record from a truncated file"; ++i; }, nudb::no_progress{}, ec); });
            h.count("transitions"); h.count("traces");
            if(!bad.empty()) h.fail("visit:trunc:bad", bad);
            if(bounds.count(cut)){ if(ec) h.fail("visit:trunc:valid", "visit fails on a file cut at a record boundary"); }
            else if(!ec) h.fail("visit:trunc:accept", "visit accepts a truncated data file");
            vfs::drop_fds(); h.state(cut * 31 + mode + n * 7);
        }
        // failing calls
        for(int f = 0; f < 12; ++f)
        {
            if(!h.next()) { if(h.stop()) return; continue; }
            h.describef("visit mode=%d n=%d big=%d fail call %d", mode, n, big, f);
            vfs::reset(); vfs::put(DP, d); int seen = -1; bool hit = false;
            vfs::hook = [&](vfs::Call const& c) -> vfs::Action { if(c.sys == vfs::Sys::close) return {}; if(++seen == f){ hit = true; return {5}; } return {}; };
            std::size_t i = 0; ec = {};
            guarded(h, "visit", [&]{ nudb::visit(DP, [&](void const*, std::size_t, void const*, std::size_t, error_code&){ ++i; }, nudb::no_progress{}, ec); });
            vfs::hook = mon;
            h.count("transitions"); h.count("traces");
            if(hit && ec.value() != 5) h.fail("visit:ioerror", "visit does not report a failing file operation");
            if(!hit && (ec || i != v.recs.size())) h.fail("visit:late", "visit fails without a fault");
            if(vfs::open_fds()) h.fail("visit:fds", "visit leaks a descriptor");
            vfs::drop_fds();
        }
    }
}
// spill records of other block sizes in the data file (left by rekey)
static void mixed_spills(H& h)
{
    h.next("mixed-spills");
    for(std::size_t b1 : {104u,122u,140u,512u}) for(std::size_t b2 : {104u,122u,140u,300u}) for(int mode : {1,3}) for(int n : {7,13,40}) for(std::size_t buf : {300u,4096u,1u<<20}) for(int more = 0; more < 2; ++more)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = mode; t.cfg.bs = b1; t.cfg.lf = 0.99f; t.cfg.use();
        h.describef("mixed spills bs %zu -> %zu mode=%d n=%d buf=%zu more=%d", b1, b2, mode, n, buf, more);
        vfs::reset(); error_code ec; docreate(t.cfg, ec); Map m;
        guarded(h, "mixed", [&]{
            { DB<> db; db.open(ec); for(int i = 0; i < n; ++i){ auto v = mkval(i, vsz(i)); db.insert(orc::mkkey(i), v, ec); m[orc::mkkey(i)] = v; if(i % 4 == 3) db.flush(); } db.close(ec); }
            vfs::remove(KP);
            nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, b2, 0.9f, n, buf, ec, nudb::no_progress{});
            if(ec) return;
            if(more){ DB<> db; db.open(ec); for(int i = n; i < n + 9; ++i){ auto v = mkval(i, vsz(i)); db.insert(orc::mkkey(i), v, ec); m[orc::mkkey(i)] = v; } db.close(ec); }
        });
        vfs::drop_fds();
        auto img = vfs::snapshot(); h.state(img.hash());
        if(prop == "C12") check_verify(h, img); else check_visit(h, img, m);
        h.count("traces");
    }
}

// records and spill records at every position relative to the read buffer
static void read_buffers(H& h)
{
    h.next("read-buffer");
    bool ver = prop == "C12";
    for(int sp = 0; sp < 3; ++sp)
    read_buffer_cases(ver ? 1024 * 104 : 4096 * 1024, 4, ver || h.thorough(), [&](std::vector<std::size_t> const& z){
        if(!h.next() || h.stop()) return;
        h.describef("read buffer sizes %zu %zu %zu spill=%d", z[0], z[1], z[2], sp);
        Cfg c; c.mode = 1; c.lf = 0.99f; c.use(); Map m;
        if(!ver)
        {
            auto d = orc::enc_dat_header(c.uid, c.app, c.ks); orc::Bkt o; o.e.assign(5, {92, 1, 5}); int i = 0;
            for(auto n : z){ auto k = orc::mkkey(i), v = mkval(i, n); m[k] = v; d += orc::enc_rec(k, v); if(sp && i == sp - 1) d += orc::enc_spill(o); ++i; }
            vfs::reset(); vfs::put(DP, d);
        }
        else
        {
            vfs::reset(); error_code ec; docreate(c, ec);
            guarded(h, "build", [&]{ DB<> db; db.open(ec); int i = 0;
                // six entries overflow a bucket: where the spill record lands depends on sp
                auto fill = [&]{ for(int q = 0; q < 5; ++q){ auto k = orc::mkkey(20 + q); db.insert(k, "x", ec); m[k] = "x"; } db.flush(); };
                if(sp == 1) fill();
                for(auto n : z){ auto k = orc::mkkey(i), v = mkval(i, n); db.insert(k, v, ec); m[k] = v; db.flush(); ++i; }
                if(sp == 2) fill();
                db.close(ec); });
        }
        auto img = vfs::snapshot(); h.state(img.hash());
        if(ver) check_verify(h, img); else check_visit(h, img, m);
        h.count("traces"); vfs::drop_fds();
    });
}

// visit at every file operation of a commit: everything committed before, then
// records of the running commit in order, never an error
static void visit_during(H& h)
{
    h.next("visit-during");
    for(int mode : {0,1,2,3,5,7}) for(float lf : {0.5f, 0.99f, 0.1f}) for(std::size_t bs : {104u, 140u}) for(int n0 : {0, 1, 4, 5, 7, 12, 21}) for(int n1 : {1, 2, 5, 9, 16}) for(int sz = 0; sz < 3; ++sz) for(int how = 0; how < 2; ++how)
    {
        if(sz == 2 && n0 > 4) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.lf = lf; c.bs = bs; c.use();
        auto val = [&](int i){ return mkval(i, sz == 0 ? vsz(i) : sz == 1 ? (i % 3 == 2 ? 5000 : 1 + i) : (i % 4 == 1 ? 140000 : 3 * i + 1)); };
        h.describef("visit during a commit: %s n0=%d n1=%d sz=%d how=%d", c.str().c_str(), n0, n1, sz, how);
        vfs::reset(); error_code ec; vfs::hook = {}; docreate(c, ec); 
        guarded(h, "visit-during", [&]{
            DB<> db; db.open(ec);
            for(int i = 0; i < n0; ++i){ db.insert(orc::mkkey(i), val(i), ec); if(i % 4 == 3) db.flush(); } db.flush();
            std::set<std::string> old, all; for(int i = 0; i < n0; ++i) old.insert(orc::mkkey(i));
            for(int i = n0; i < n0 + n1; ++i) db.insert(orc::mkkey(i), val(i), ec);
            for(int i = 0; i < n0 + n1; ++i) all.insert(orc::mkkey(i));
            std::vector<std::string> prev; bool bad = false, in = false; std::uint64_t last = ~0ull;
            auto look = [&]{
                if(in || bad) return; in = true;
                auto z = vfs::size_of(DP); if(z == last){ in = false; return; } last = z;
                std::vector<std::string> got; std::string e; error_code ev; Prog pr;
                nudb::visit(DP, [&](void const* k, std::size_t ks, void const* p, std::size_t n, error_code&){
                    std::string key((char const*)k, ks); got.push_back(key); int id = -1; for(int i = 0; i < n0 + n1; ++i) if(orc::mkkey(i) == key) id = i;
                    if(id < 0) e = "a record never inserted"; else if(std::string((char const*)p, n) != val(id)) e = "a wrong value"; }, pr, ev);
                h.count("transitions"); h.count("visits"); h.nontrivial(z * 0x9E3779B97F4A7C15ull ^ h.caseno);
                if(ev) e = "error " + ev.message();
                else if(std::set<std::string>(got.begin(), got.end()).size() != got.size()) e = "a record twice";
                else { std::set<std::string> s(got.begin(), got.end()); for(auto& k : old) if(!s.count(k)) e = "a committed record missing";
                    for(std::size_t i = 0; i < prev.size() && e.empty(); ++i) if(i >= got.size() || got[i] != prev[i]) e = "other records than a visit before"; }
                if(e.empty() && (!pr.mono || pr.over)) e = "bad progress";
                prev = got; in = false;
                if(!e.empty()){ bad = true; h.fail("visit:during:" + sig(e), "visit during a commit: " + e + " at file size " + std::to_string(z)); } };
            // the writer's own write buffer may end anywhere: only record boundaries are promised to
            // a reader, so a file that ends inside a record is left to the truncation cases above
            auto whole = [&]{ orc::View v; return orc::decode_dat(getf(vfs::snapshot(), DP), v).empty(); };
            vfs::hook = [&](vfs::Call const& q) -> vfs::Action { if(!in && vfs::mutating(q.sys) && whole()) look(); return {}; };
            if(how) db.close(ec); else db.flush();
            vfs::hook = {}; look(); if(!how) db.close(ec);
            if(prev.size() != all.size() && !bad) h.fail("visit:during:end", "visit after the commit misses records");
            h.state(vfs::snapshot().hash());
        });
        vfs::hook = mon; vfs::drop_fds(); h.count("traces");
    }
}

// C01: calls made while a commit runs, from each of its file operations, with time passing
static void reentrant(H& h)
{
    h.next("reentrant");
    for(int mode : {0,1,2,3,6}) for(float lf : {0.5f, 0.99f}) for(int n0 : {0, 4, 9}) for(int n1 : {1, 3, 8}) for(int n2 : {1, 2, 7}) for(int dt : {0, 600, 5000}) for(std::size_t big : {0u, 3000u, 70000u}) for(int at = 0; at < 28; ++at)
    {
        if(big == 70000 && (n1 > 3 || n0 > 4)) continue;
        if(!h.thorough() && big == 3000 && (lf == 0.5f || n1 == 3)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.lf = lf; c.use(); h.describef("calls during a commit: %s n0=%d n1=%d n2=%d dt=%d big=%zu at=%d", c.str().c_str(), n0, n1, n2, dt, big, at);
        vfs::reset(); vfs::random_state_reset(); error_code ec; vfs::hook = {}; docreate(c, ec); Map all; bool reached = false;
        guarded(h, "reentrant", [&]{
            DB<> db; db.open(ec); int next = 0; std::string e;
            auto put = [&]{ auto k = orc::mkkey(next); auto v = mkval(next, big && next % 2 ? big + next : vsz(next)); ++next; error_code e2; db.insert(k, v, e2); h.count("transitions"); if(e2 && e.empty()) e = "insert fails: " + e2.message(); all[k] = v; };
            auto look = [&](char const* when){ for(int i = 0; i < next + 1 && e.empty(); ++i){ auto r = check_fetch(db, orc::mkkey(i), all); h.count("fetches"); if(!r.empty()) e = r + " (key " + std::to_string(i) + when + ")"; } 
                for(int i = 0; i < next && e.empty(); i += 3){ error_code e2; db.insert(orc::mkkey(i), "q", e2); if(e2 != nudb::error::key_exists) e = std::string("second insert of a key succeeds") + when; } };
            for(int i = 0; i < n0; ++i) put(); db.flush();
            for(int round = 0; round < 2; ++round)
            {
                for(int i = 0; i < n1; ++i) put();
                int ops = 0; bool in = false;
                vfs::hook = [&](vfs::Call const&) -> vfs::Action { if(in) return {}; in = true; if(ops++ == at){ reached = true; vclk::now += dt * 500000ull; for(int i = 0; i < n2; ++i){ put(); if(i == 0) vclk::now += dt * 500000ull; } look(" during a commit"); } else if(ops > at && ops % 5 == 0) look(" later in a commit"); in = false; return {}; };
                db.flush(); vfs::hook = {};
                put(); look(" after a commit"); vclk::now += dt * 1000000ull;
            }
            if(n2 != 2) db.flush();
            db.close(ec); if(ec && e.empty()) e = "close fails"; ec = {}; db.open(ec); look(" after reopening"); db.close(ec);
            auto v = orc::decode(getf(vfs::snapshot(), DP), getf(vfs::snapshot(), KP)); if(e.empty() && (!v.err.empty() || v.map != all)) e = "files hold something else " + v.err;
            if(!e.empty()) h.fail("reentrant:" + sig(e.substr(0, 50)), e);
            h.state(vfs::snapshot().hash()); if(reached) h.nontrivial(h.caseno * 0x9E3779B97F4A7C15ull);
        });
        vfs::hook = mon; vfs::drop_fds(); h.count("traces");
    }
}

int main(int argc, char** argv)
{
    H h(argc, argv, "C01"); g = &h; prop = h.prop;
    vfs::hook = mon; vclk::on = true;
    auto part = h.arg("part");
    int scale = h.thorough() ? 2 : 1;
    auto f = [&](Hist const& t){ run(h, t); };
    if(part != "hist")
    {
        if(prop == "C09"){ hash_inputs(h); foreign_db(h); }
        if(prop == "C14"){ visit_damage(h); visit_during(h); }
        if(prop == "C14" || prop == "C12") mixed_spills(h);
        if(prop == "C14" || prop == "C12") read_buffers(h);
    }
    if(part != "damage")
    {
        if(prop == "C01" || h.thorough()) { all_hist(h, scale, f); if(prop == "C01") { hist_clock(h, scale, f); reentrant(h); } }
        else
        {
            hist_ops(h, 0, f); hist_masks(h, 0, f); hist_hashes(h, prop == "C09" ? 1 : 0, f); hist_values(h, 0, f); hist_dims(h, 1, f);
        }
    }
    h.finish();
}
