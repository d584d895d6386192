// C19: large data files, key files, bucket numbers and values, on sparse files.
#include "db.hpp"
#include <nudb/recover.hpp>
#include <nudb/rekey.hpp>
#include <cerrno>
using vfs::Image; using vfs::Content; using orc::u64; using orc::be;
static H* g;

// ------------------------------------------------------------ sparse judge
struct SRec { u64 off, size, hash; std::string key; };
struct SView { std::string err; std::vector<SRec> recs; u64 buckets = 0, mod = 0, bs = 0, cap = 0, spills = 0, dsize = 0, ksize = 0; };
static u64 rd(Content const& c, u64 o, int n){ unsigned char b[8]; c.read(o, b, n); return be(b, n); }
static SView sdecode(Content const& d, Content const& k)
{
    SView v; auto E = [&](std::string const& s){ if(v.err.empty()) v.err = s; };
    v.dsize = d.size; v.ksize = k.size;
    u64 ks = rd(d, 26, 2), salt = rd(k, 28, 8); v.bs = rd(k, 44, 2); v.cap = orc::capacity_of(v.bs);
    std::map<u64, std::size_t> at; std::map<u64, u64> sp;
    for(u64 o = 92; o < d.size;)
    {
        u64 n = rd(d, o, 6);
        if(n)
        {
            if(n > d.size || o + 6 + ks + n > d.size){ E("record passes the end of the data file at " + std::to_string(o)); return v; }
            SRec r; r.off = o; r.size = n; r.key = d.str(o + 6, ks); r.hash = orc::hash64(salt, r.key.data(), ks) >> 16;
            at[o] = v.recs.size(); v.recs.push_back(r); o += 6 + ks + n;
        }
        else
        {
            u64 m = rd(d, o + 6, 2); if(m < 8 || o + 8 + m > d.size){ E("bad spill record at " + std::to_string(o)); return v; }
            sp[o + 8] = m; ++v.spills; o += 8 + m;
        }
    }
    if(!v.cap){ E("key file header"); return v; }
    if(k.size % v.bs || k.size < 2 * v.bs){ E("key file size is not a multiple of the block size"); return v; }
    v.buckets = k.size / v.bs - 1; v.mod = orc::pow2ceil(v.buckets);
    std::set<u64> bs; for(auto& p : k.pages) for(u64 o = p.first * 4096 / v.bs; o <= (p.first * 4096 + 4095) / v.bs; ++o) if(o && o <= v.buckets) bs.insert(o - 1);
    std::set<u64> seen, used;
    for(u64 n : bs)
    {
        Content const* f = &k; u64 o = (n + 1) * v.bs;
        for(;;)
        {
            u64 cnt = rd(*f, o, 2), spill = rd(*f, o + 2, 6), prev = 0;
            if(cnt > v.cap){ E("bucket count"); return v; }
            for(u64 i = 0; i < cnt; ++i)
            {
                u64 e = o + 8 + 18 * i, off = rd(*f, e, 6), size = rd(*f, e + 6, 6), h = rd(*f, e + 12, 6);
                if(i && h < prev) E("order"); prev = h;
                auto it = at.find(off); if(it == at.end()){ E("entry of bucket " + std::to_string(n) + " points at no record: " + std::to_string(off)); continue; }
                auto& r = v.recs[it->second];
                if(r.size != size) E("entry size"); if(r.hash != h) E("entry hash");
                if(orc::bindex(h, v.buckets, v.mod) != n) E("entry in wrong bucket " + std::to_string(n));
                if(!seen.insert(off).second) E("record indexed twice");
            }
            if(!spill) break;
            if(!sp.count(spill) || !used.insert(spill).second){ E("spill pointer"); return v; }
            f = &d; o = spill;
        }
    }
    if(seen.size() != v.recs.size()) E("a record is not indexed");
    return v;
}
static Content blank(std::string const& s, u64 size){ Content c; c.write(0, s.data(), s.size()); c.trunc(size); return c; }

// Insert keys lo..hi in rounds with flushes between, check everything by fetch
// and by the sparse reader; then recover an interrupted last commit.
static void session(H& h, Cfg const& c, Image const& start, int lo, int hi, int per, u64 hole)
{
    vfs::reset(); vfs::hook = {}; vfs::load(start); c.use(); Map m; error_code ec;
    Image mid; bool have = false; Map before; u64 dk = hole ? 1 : 0;
    guarded(h, "session", [&]{
        DB<> db; db.open(ec); if(ec){ h.fail("open:" + ec.message(), "open fails: " + ec.message()); return; }
        for(int i = lo; i < hi; ++i)
        {
            auto k = orc::mkkey(i), v = mkval(i, vsz(i));
            db.insert(k, v, ec); if(ec){ h.fail("insert:" + ec.message(), "insert fails: " + ec.message()); return; }
            m[k] = v;
            if((i - lo + 1) % per == 0 || i + 1 == hi)
            {
                bool last = i + 1 == hi; if(!last) before = m;
                if(last) vfs::hook = [&](vfs::Call const& cc) -> vfs::Action { if(cc.sys == vfs::Sys::trunc && cc.path && *cc.path == LP && !have){ have = true; mid = vfs::snapshot(); } return {}; };
                db.flush(); vfs::hook = {}; h.count("transitions");
                if(!last){ auto s = sdecode(*vfs::file(DP), *vfs::file(KP)); if(!s.err.empty()){ h.fail("decode:" + sig(s.err), "after a commit: " + s.err); return; } dk = s.recs.size(); }
            }
            if(i % 5 == 0) for(auto& x : m){ auto e = check_fetch(db, x.first, m); if(!e.empty()){ h.fail(sig(e), e); return; } }
        }
        for(auto& x : m){ auto e = check_fetch(db, x.first, m); if(!e.empty()){ h.fail(sig(e), e); return; } }
        for(auto& x : m){ error_code e2; db.insert(x.first, "q", e2); if(e2 != nudb::error::key_exists){ h.fail("exists", "inserting a present key: " + e2.message()); return; } }
        auto e = check_fetch(db, orc::mkkey(900), m); if(!e.empty()) h.fail(sig(e), e);
        db.close(ec); if(ec) h.fail("close:" + ec.message(), "close fails: " + ec.message());
    });
    vfs::drop_fds(); if(!h.violations.empty() && h.violations.size() > 20) return;
    auto img = vfs::snapshot(); h.state(img.hash()); h.count("traces");
    auto s = sdecode(img.files[DP], img.files[KP]);
    if(!s.err.empty()){ h.fail("decode:" + sig(s.err), "at the end: " + s.err); return; }
    if(s.recs.size() != m.size() + (hole ? 1 : 0)) h.fail("count", "wrong number of records");
    if(s.spills) h.count("with_spills"); h.nontrivial(img.hash());
    auto reread = [&](Map const& want, char const* when){
        guarded(h, when, [&]{
            DB<> db; ec = {}; db.open(ec); if(ec){ h.fail(std::string(when) + ":open", std::string(when) + ": open fails: " + ec.message()); return; }
            for(int i = lo; i < hi; ++i){ auto e = check_fetch(db, orc::mkkey(i), want); if(!e.empty()){ h.fail(sig(e), std::string(when) + ": " + e); return; } }
            db.close(ec); });
        vfs::drop_fds(); };
    reread(m, "reopened");
    if(!have) { h.fail("nomid", "no commit seen"); return; }
    // recovery of the last commit
    vfs::load(mid); ec = {};
    guarded(h, "recover", [&]{ nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec); }); vfs::drop_fds(); h.count("transitions"); h.count("recovered");
    if(ec){ h.fail("recover:" + ec.message(), "recover fails: " + ec.message()); return; }
    auto rec = vfs::snapshot(); s = sdecode(rec.files[DP], rec.files[KP]);
    if(!s.err.empty()){ h.fail("recover:decode:" + sig(s.err), "after recovery: " + s.err); return; }
    if(s.recs.size() != dk) h.fail("recover:count", "recovery does not restore the last commit");
    h.state(rec.hash()); reread(before, "recovered");
}
static void offsets(H& h)
{
    bool T = h.thorough();
    h.next("offsets");
    std::vector<u64> bases; for(int i : {31, 32, 33, 36, 40, 44, 47}) bases.push_back(1ull << i); if(T) for(int i : {16, 24, 30, 34, 35, 38, 39, 41, 42, 43, 45, 46}) bases.push_back(1ull << i);
    bases.push_back(5ull << 30); bases.push_back(3ull << 46);
    std::vector<long> dl = {-262144, -131200, -131072, -65600, -4096, -1000, -300, -200, -150, -100, -64, -32, -26, -20, -18, -14, -12, -10, -8, -6, -4, -2, -1, 0, 1, 2, 6, 8, 100, 4096, 70000};
    if(T) for(long i = -400; i < 100; ++i) dl.push_back(i);
    for(auto b : bases) for(auto dd : dl) for(int lay = 0; lay < 4; ++lay)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        Cfg c; c.mode = lay ? 4 : 0; c.lf = lay == 1 ? 0.99f : 0.5f;
        // colliding keys, but not with the huge record
        if(lay) for(int i = 0; i < 64; ++i) c.table.push_back(lay == 1 ? 0xffffffffffffull : lay == 2 ? u64(i / 2) * 5 : i % 2 ? 0xffffffffffffull : u64(i % 4) << 40);
        c.use(); u64 D = b + dd; auto k0 = orc::mkkey(1000);
        auto head = orc::enc_dat_header(c.uid, c.app, c.ks); u64 off = head.size(); u64 sz = D - off - 6 - c.ks; orc::put(head, sz, 6); head += k0;
        Image im; im.files[DP] = blank(head, D);
        orc::Bkt bk; bk.e.push_back({off, sz, orc::hash64(c.salt, k0.data(), c.ks) >> 16});
        auto kf = orc::enc_key_header(c.uid, c.app, c.ks, c.salt, orc::pepper(c.salt), c.bs, u64(65536 * c.lf)) + orc::enc_bucket(bk, c.bs);
        im.files[KP] = blank(kf, kf.size());
        h.describef("data file of %llu bytes (2^%d%+ld), layout %d", (unsigned long long)D, 63 - __builtin_clzll(b), dd, lay); h.sample(h.desc());
        session(h, c, im, 0, 21, lay == 2 ? 21 : 7, 1);
    }
    // the very end of the 48 bit range
    h.next("end48");
    for(long room = 1200; room < 4000; room += T ? 7 : 100)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        Cfg c; c.mode = 4; c.table.assign(64, 0xffffffffffffull); c.lf = 0.99f; c.use(); u64 D = (1ull << 48) - room; auto k0 = orc::mkkey(1000);
        auto head = orc::enc_dat_header(c.uid, c.app, c.ks); u64 off = head.size(); u64 sz = D - off - 6 - c.ks; orc::put(head, sz, 6); head += k0;
        Image im; im.files[DP] = blank(head, D); orc::Bkt bk; bk.e.push_back({off, sz, orc::hash64(c.salt, k0.data(), c.ks) >> 16});
        auto kf = orc::enc_key_header(c.uid, c.app, c.ks, c.salt, orc::pepper(c.salt), c.bs, u64(65536 * c.lf)) + orc::enc_bucket(bk, c.bs);
        im.files[KP] = blank(kf, kf.size()); h.describef("data file ends %ld bytes below 2^48", room);
        session(h, c, im, 0, 18, 6, 1);
    }
}
static void buckets(H& h)
{
    bool T = h.thorough();
    h.next("buckets");
    std::vector<std::size_t> bss = {104, 122, 4096, 65535};
    std::vector<u64> at; for(int i : {16, 20, 24, 25, 29, 30, 31}) for(long d : {-3, -2, -1, 0, 1, 2}) at.push_back((1ull << i) + d);
    // and where bucket number times block size crosses a power of two
    for(auto bs : bss) for(int i : {31, 32, 33, 36, 40, 46}) for(long d : {-24, -9, -2, -1, 0, 1}) if((1ull << i) / bs > 64) at.push_back((1ull << i) / bs + d);
    if(T) for(int i = 5; i < 32; ++i) for(long d = -6; d < 4; ++d) at.push_back((1ull << i) + d);
    // the library's limit is 2^32 buckets
    for(long d = 24; d < 50; d += T ? 1 : 5) at.push_back((1ull << 32) - d);
    for(auto bs : bss) for(auto B : at) for(int lay = 0; lay < 5; ++lay)
    {
        if(B + 24 > 1ull << 32) continue;
        if(!h.next()){ if(h.stop()) return; continue; }
        Cfg c; c.bs = bs; c.mode = 4; c.lf = lay < 2 ? 1.0f / 65536 : lay == 2 ? 0.9f : 1.0f / 32768;   // small: every insert splits
        // keys in the bucket that is split, the last bucket, bucket 0, the middle, at a block offset of 4 GiB
        u64 mod = orc::pow2ceil(B), half = mod / 2;
        for(int i = 0; i < 64; ++i)
        {
            u64 t;
            switch((i + lay) % 6){ case 0: t = B - 1; break; case 1: t = B - half; break; case 2: t = (B - half) + half; break; case 3: t = 0xffffffffffffull; break; case 4: t = B / 2; break; default: t = (1ull << 32) / bs - 1; }
            if(lay == 1) t = i % 2 ? B : B - half;
            if(lay == 2) t = i % 3 ? B - 1 : (1ull << 32) / bs;
            c.table.push_back((t + (i / 12) * 2 * mod) & 0xffffffffffffull);
        }
        c.use(); auto dh = orc::enc_dat_header(c.uid, c.app, c.ks);
        Image im; im.files[DP] = blank(dh, dh.size());
        auto kh = orc::enc_key_header(c.uid, c.app, c.ks, c.salt, orc::pepper(c.salt), c.bs, u64(65536 * c.lf)); im.files[KP] = blank(kh, (B + 1) * bs);
        h.describef("%llu buckets (2^%d%+ld) of %zu bytes, layout %d", (unsigned long long)B, 63 - __builtin_clzll(B), (long)(B - (1ull << (63 - __builtin_clzll(B)))), bs, lay); h.sample(h.desc());
        session(h, c, im, 0, 24, lay == 4 ? 24 : 8, 0);
    }
}
// Values of extreme size: insert, fetch from memory, commit, fetch from disk, reopen.
static void values(H& h)
{
    bool T = h.thorough();
    h.next("values");
    std::vector<u64> vs; for(int i : {16, 20, 24, 26, 28}) for(long d : {-11, -10, -6, -1, 0, 1}) vs.push_back((1ull << i) + d);
    for(u64 x : {1ull << 30, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1}) vs.push_back(x);
    if(T) for(u64 x : {(1ull << 32) - 10, (1ull << 32) - 11, (1ull << 32) - 4096, 3ull << 30}) vs.push_back(x);
    for(auto n : vs)
    {
        bool mine = h.next(); if(!mine){ if(h.stop()) return; continue; }
        Cfg c; c.lf = 0.5f; vfs::reset(); vfs::hook = {}; error_code ec; docreate(c, ec); h.describef("value of %llu bytes", (unsigned long long)n); h.sample(h.desc());
        guarded(h, "large value", [&]{
            char* p = (char*)std::calloc(1, n); if(!p){ h.fail("mem", "no memory"); return; }
            auto mark = [&](u64 at){ if(at < n) p[at] = char(1 + at % 251); };
            for(u64 q : {0ull, 1ull, 65535ull, 65536ull, 1ull << 24, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 4097, (unsigned long long)n / 2, (unsigned long long)n - 2, (unsigned long long)n - 1}) mark(q);
            auto k = orc::mkkey(1), k2 = orc::mkkey(2);
            auto look = [&](DB<>& db, char const* when){
                int calls = 0; bool ok = true; error_code e;
                db.s->fetch(k.data(), [&](void const* q, std::size_t sz){ ++calls; ok = sz == n && !std::memcmp(q, p, n); }, e); h.alive(); h.count("transitions");
                if(e || calls != 1 || !ok) h.fail(std::string("value:") + when, std::string("a large value is not returned ") + when + (e ? ": " + e.message() : "")); 
                std::string o; e = {}; if(db.fetch(k2, o, e) != 1 || o != "small") h.fail(std::string("value2:") + when, std::string("the value after a large one is not returned ") + when); };
            {
                DB<> db; db.open(ec); if(ec){ h.fail("open", ec.message()); return; }
                db.s->insert(k.data(), p, n, ec); if(ec){ h.fail("insert", "insert of a large value fails: " + ec.message()); return; } h.alive();
                db.insert(k2, "small", ec);
                if(n <= (1ull << 28)) look(db, "from memory");
                db.flush(); h.alive(); look(db, "after the commit");
                db.close(ec); if(ec) h.fail("close", ec.message());
            }
            { auto s = sdecode(*vfs::file(DP), *vfs::file(KP)); if(!s.err.empty() || s.recs.size() != 2) h.fail("decode:" + sig(s.err), "file with a large value does not decode: " + s.err); else if(s.recs[0].size != n) h.fail("decode:size", "large value stored with a wrong size"); }
            { DB<> db; ec = {}; db.open(ec); if(ec){ h.fail("reopen", ec.message()); std::free(p); return; } if(n <= (1ull << 31)) look(db, "after reopening"); db.close(ec); }
            h.nontrivial(n); h.count("traces"); h.state(n);
            std::free(p);
        });
        vfs::reset();
    }
}
// Readers of whole files: verify, visit, rekey over more than 4 GiB.
static void scans(H& h)
{
    bool T = h.thorough();
    h.next("scans");
    // data file: records of R bytes of zeros up to 4 GiB and beyond, small ones around
    for(int kind = 0; kind < (T ? 14 : 10); ++kind)
    {
        bool mine = h.next(); if(!mine){ if(h.stop()) return; continue; }
        static char const* nm[] = {"verify, normal", "verify, fast in one pass", "visit", "rekey in one pass", "rekey in several passes", "verify of a key file over 4 GiB, normal", "verify of a key file over 4 GiB, fast", "rekey to a key file over 4 GiB", "verify, fast in several passes", "rekey to a key file over 4 GiB in several passes", "visit 8 GiB", "verify 8 GiB", "verify of a key file over 8 GiB", "rekey 8 GiB"};
        h.describe(nm[kind]); h.sample(h.desc());
        bool bigkey = kind == 5 || kind == 6 || kind == 7 || kind == 9 || kind == 12, eight = kind == 10 || kind == 11 || kind == 13 || kind == 12;
        Cfg c; c.bs = bigkey ? 65535 : 122; c.mode = 4; c.lf = 0.9f; u64 B = bigkey ? (eight ? 132000 : 65700) : 11;
        for(int i = 0; i < 400; ++i) c.table.push_back(bigkey ? (i % 4 ? u64(i) * 700 : 65540 + i) : u64(i) * 3);
        c.use();
        u64 R = 200u << 20, total = bigkey ? 1000000 : eight ? 8800ull << 20 : 4600ull << 20; if(bigkey) R = 3000;
        Content d; auto head = orc::enc_dat_header(c.uid, c.app, c.ks); d.write(0, head.data(), head.size()); u64 o = head.size(); std::vector<SRec> recs; int idx = 0;
        while(o < total && idx < 390){ u64 sz = idx % 3 ? 5 + idx % 11 : R; auto k = orc::mkkey(idx++); std::string r; orc::put(r, sz, 6); r += k; if(sz < 1000) r += mkval(idx, sz); recs.push_back({o, sz, orc::hash64(c.salt, k.data(), c.ks) >> 16, k}); d.write(o, r.data(), r.size()); o += 6 + c.ks + sz; d.trunc(std::max(o, d.size)); }
        d.trunc(o);
        auto kh = orc::enc_key_header(c.uid, c.app, c.ks, c.salt, orc::pepper(c.salt), c.bs, u64(65536 * c.lf));
        Content kf = blank(kh, (B + 1) * c.bs); u64 mod = orc::pow2ceil(B); std::map<u64, orc::Bkt> bk; u64 spills = 0;
        for(auto& r : recs) bk[orc::bindex(r.hash, B, mod)].e.push_back({r.off, r.size, r.hash});
        u64 cap = orc::capacity_of(c.bs), nmulti = 0;
        for(auto& b : bk)
        {
            std::stable_sort(b.second.e.begin(), b.second.e.end(), [](orc::Ent const& x, orc::Ent const& y){ return x.hash < y.hash; });
            while(b.second.e.size() > cap)
            { orc::Bkt s; s.spill = b.second.spill; s.e.assign(b.second.e.end() - cap, b.second.e.end()); b.second.e.resize(b.second.e.size() - cap); auto e = orc::enc_spill(s); b.second.spill = o + 8; d.write(o, e.data(), e.size()); o += e.size(); ++spills; }
            auto e = orc::enc_bucket(b.second, c.bs); kf.write((b.first + 1) * c.bs, e.data(), e.size()); if(b.second.spill) ++nmulti;
        }
        auto sv = sdecode(d, kf); if(!sv.err.empty()){ h.fail("base", sv.err); continue; }
        Image im; im.files[DP] = d; im.files[KP] = kf; vfs::reset(); vfs::hook = {}; vfs::load(im); error_code ec; h.state(im.hash()); h.nontrivial(kind + 1); h.count("traces"); h.count("transitions");
        auto progress = [&, last = u64(0)](std::uint64_t a, std::uint64_t t) mutable { h.alive(); (void)a; (void)t; (void)last; };
        bool isver = kind == 0 || kind == 1 || kind == 5 || kind == 6 || kind == 8 || kind == 11 || kind == 12;
        if(isver) guarded(h, "verify", [&]{
            bool fast = kind == 1 || kind == 6 || kind == 8; nudb::verify_info vi;
            std::size_t buf = !fast ? 0 : kind == 6 ? (std::size_t(1) << 30) : kind == 8 ? 122 * 6 : (1u << 20);
            nudb::verify<MHash>(vi, DP, KP, buf, progress, ec);
            if(ec){ h.fail("verify:" + ec.message(), std::string(nm[kind]) + " fails on a valid database: " + ec.message()); return; }
            if(fast != (vi.algorithm == 1)) h.count("other_algorithm");
            u64 bytes = 0; for(auto& r : recs) bytes += r.size;
            if(vi.value_count != recs.size() || vi.key_count != recs.size()) h.fail("verify:count", "verify counts a large database wrongly");
            if(vi.value_bytes != bytes) h.fail("verify:bytes", "verify sums the value sizes wrongly");
            if(vi.dat_file_size != d.size || vi.key_file_size != kf.size || vi.buckets != B) h.fail("verify:size", "verify reports wrong file sizes or bucket count");
            if(vi.spill_count != spills || vi.spill_count_tot != spills) h.fail("verify:spill", "verify counts spills wrongly"); });
        else if(kind == 2 || kind == 10) guarded(h, "visit", [&]{
            std::size_t n = 0; bool bad = false;
            nudb::visit(DP, [&](void const* k, std::size_t ks, void const* v, std::size_t sz, error_code&){
                if(n >= recs.size() || ks != c.ks || sz != recs[n].size || std::memcmp(k, recs[n].key.data(), ks)) bad = true;
                else if(sz < 1000){ if(std::memcmp(v, mkval(n + 1, sz).data(), sz)) bad = true; } else { auto p = (char const*)v; if(p[0] || p[sz - 1] || p[sz / 2]) bad = true; }
                ++n; h.alive(); }, progress, ec);
            if(ec || bad || n != recs.size()) h.fail("visit", "visit of a large data file " + (ec ? "fails: " + ec.message() : std::string("gives wrong records"))); });
        else guarded(h, "rekey", [&]{
            vfs::remove(KP); u64 bs = bigkey ? 65535 : 104; float lf = 0.5f; u64 items = bigkey ? (u64)(66000.0 * orc::capacity_of(bs) * lf) : 40;
            std::size_t buf = kind == 3 || kind == 13 ? 1 << 20 : kind == 4 ? 104 * 8 : kind == 7 ? std::size_t(5) << 30 : std::size_t(65535) * 3281;
            nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, bs, lf, items, buf, ec, progress);
            if(ec){ h.fail("rekey:" + ec.message(), std::string(nm[kind]) + " fails: " + ec.message()); return; }
            auto s = sdecode(*vfs::file(DP), *vfs::file(KP)); if(!s.err.empty()){ h.fail("rekey:" + sig(s.err), std::string(nm[kind]) + ": " + s.err); return; }
            if(s.recs.size() != recs.size()) h.fail("rekey:count", "records lost"); if(bigkey && s.ksize < (1ull << 32)) h.fail("rekey:size", "key file smaller than the estimate asks for");
            DB<> db; db.open(ec); if(ec){ h.fail("rekey:open", ec.message()); return; }
            for(std::size_t i = 0; i < recs.size(); ++i) if(recs[i].size < 1000){ std::string o; error_code e; if(db.fetch(recs[i].key, o, e) != 1 || o != mkval(i + 1, recs[i].size)){ h.fail("rekey:fetch", "value not found after " + std::string(nm[kind])); break; } }
            db.close(ec); });
        vfs::drop_fds(); vfs::reset();
    }
}
int main(int argc, char** argv)
{
    H h(argc, argv, "C19"); g = &h;
    auto part = h.arg("part", "all");
    auto t0 = now_s(); auto lap = [&](char const* n){ h.count(std::string("ms_") + n, (u64)((now_s() - t0) * 1000)); t0 = now_s(); };
    if(part == "all" || part == "scans"){ scans(h); lap("scans"); }
    if(part == "all" || part == "values"){ values(h); lap("values"); }
    if(part == "all" || part == "offsets"){ offsets(h); lap("offsets"); }
    if(part == "all" || part == "buckets"){ buckets(h); lap("buckets"); }
    h.finish();
}
