// C13: every enumerated damage to small databases.  An independent judge says
// which damages must be reported; verify (both algorithms, all chunkings) has
// to report those, and no reader may crash, hang or read outside its buffers.
#include "db.hpp"
using vfs::Image; using orc::u64; using orc::be;

static H* g;
struct Files { std::string d, k, l; bool hasLog = false; };

// ---------------------------------------------------------------- the judge
// Returns why the damage must be reported; empty if it need not be.
static std::string judge(std::string const& d, std::string const& k)
{
    if(d.size() < 92) return "data file shorter than its header";
    if(k.size() < 104) return "key file shorter than its header";
    if(d.compare(0, 8, "nudb.dat") || be(d, 8, 2) != 2) return "data header";
    if(k.compare(0, 8, "nudb.key") || be(k, 8, 2) != 2) return "key header";
    u64 ks = be(d, 26, 2);
    if(ks < 1) return "key size zero";
    if(be(d, 10, 8) != be(k, 10, 8) || be(d, 18, 8) != be(k, 18, 8) || ks != be(k, 26, 2)) return "headers disagree";
    u64 salt = be(k, 28, 8), bs = be(k, 44, 2);
    if(be(k, 36, 8) != orc::pepper(salt)) return "pepper";
    if(be(k, 46, 2) < 1) return "load factor zero";
    u64 cap = orc::capacity_of(bs); if(cap < 1) return "block size";
    if(k.size() < 2 * bs) return "no bucket";
    u64 buckets = (k.size() - bs) / bs, mod = orc::pow2ceil(buckets);
    struct R { u64 size, h; };
    std::map<u64, R> recs;
    for(u64 o = 92; o < d.size();)
    {
        if(o + 6 > d.size()) return "truncated record";
        u64 n = be(d, o, 6);
        if(n)
        {
            if(n > d.size() || o + 6 + ks + n > d.size()) return "record passes the end of the file";
            recs[o] = {n, orc::hash64(salt, d.data() + o + 6, ks) >> 16}; o += 6 + ks + n;
        }
        else
        {
            if(o + 8 > d.size()) return "truncated spill record";
            u64 m = be(d, o + 6, 2);
            if(o + 8 + m > d.size()) return "spill record passes the end of the file";
            if(m < 8 || (m - 8) % 18) return "spill record of impossible size";
            o += 8 + m;
        }
    }
    std::set<u64> seen;
    for(u64 n = 0; n < buckets; ++n)
    {
        std::string const* f = &k; u64 o = (n + 1) * bs; std::set<u64> visited;
        for(;;)
        {
            u64 cnt = be(*f, o, 2), sp = be(*f, o + 2, 6), prev = 0;
            if(cnt > cap) return "bucket count out of range";
            for(u64 i = 0; i < cnt; ++i)
            {
                u64 p = o + 8 + 18 * i, off = be(*f, p, 6), size = be(*f, p + 6, 6), h = be(*f, p + 12, 6);
                if(i && h < prev) return "entries out of order: a record cannot be found";
                prev = h;
                auto it = recs.find(off);
                if(it == recs.end()) return "entry points at no record";
                if(it->second.size != size) return "entry size differs from its record";
                if(it->second.h != h) return "entry hash differs from its record";
                if(orc::bindex(h, buckets, mod) != n) return "entry in the wrong bucket";
                if(!seen.insert(off).second) return "record indexed twice";
            }
            if(!sp) break;
            if(sp + orc::bsize(cap) > d.size()) return "spill pointer passes the end of the file";
            if(!visited.insert(sp).second) return "spill chain is circular";
            f = &d; o = sp;
        }
    }
    if(seen.size() != recs.size()) return "record not indexed";
    return {};
}

static bool replaying() { return !g->only.empty(); }

struct Base { std::string name; Cfg cfg; Files f; std::vector<std::string> keys; orc::View v; };

static void one(Base const& b, std::string const& d, std::string const& k, std::string const& what, bool fetches)
{
    H& h = *g;
    h.describe(b.name + ": " + what);
    h.alive();
    vfs::put(DP, d); vfs::put(KP, k); vfs::remove(LP);
    auto why = judge(d, k);
    u64 hs = 1469598103934665603ull; for(char c : d){ hs ^= (unsigned char)c; hs *= 1099511628211ull; } for(char c : k){ hs ^= (unsigned char)c; hs *= 1099511628211ull; }
    h.state(hs); if(!why.empty()) h.nontrivial(hs);
    h.count("traces"); h.count(why.empty() ? "damages_not_judged" : "damages_to_report");
    u64 bs = k.size() >= 104 ? be(k, 44, 2) : b.cfg.bs; u64 nb = bs ? k.size() / bs : 1;
    std::vector<std::size_t> bufs = {0, 2 * bs + 8, 1 << 16};
    if(nb > 3) bufs.push_back(bs + 2 * (bs + 8));
    for(auto buf : bufs)
    {
        nudb::verify_info vi; error_code ec;
        bool ok = guarded(h, "verify", [&]{ nudb::verify<MHash>(vi, DP, KP, buf, nudb::no_progress{}, ec); });
        h.count("transitions"); h.count(vi.algorithm ? "verify_fast" : "verify_normal");
        if(!ok){ vfs::drop_fds(); continue; }
        if(!why.empty() && !ec) h.fail(std::string("verify ") + (vi.algorithm ? "fast" : "normal") + " accepts: " + why, std::string("verify (") + (vi.algorithm ? "fast" : "normal") + ", buffer " + std::to_string(buf) + ") reports success although: " + why);
        if(replaying()) std::fprintf(stderr, "buffer %zu alg %d ec %s judge '%s'\n", buf, vi.algorithm, ec.message().c_str(), why.c_str());
    }
    {
        error_code ec; u64 n = 0;
        if(!guarded(h, "visit", [&]{ nudb::visit(DP, [&](void const* kp, std::size_t kn, void const* p, std::size_t sz, error_code&){ n += kn + sz; volatile unsigned char x = 0; for(std::size_t i = 0; i < sz; ++i) x += ((unsigned char const*)p)[i]; for(std::size_t i = 0; i < kn; ++i) x += ((unsigned char const*)kp)[i]; }, nudb::no_progress{}, ec); })) vfs::drop_fds();
        h.count("transitions");
        bool datbad = why.find("truncated") == 0 || why.find("record passes") == 0 || why == "spill record passes the end of the file";
        if(datbad && !ec) h.fail("visit accepts: " + why, "visit reports success although: " + why);
    }
    if(fetches)
    {
        DB<> db; error_code ec;
        if(!guarded(h, "open", [&]{ db.open(ec); })){ vfs::drop_fds(); return; }
        h.count("transitions");
        if(ec) return;
        for(auto& key : b.keys)
        {
            h.alive();
            std::string out; error_code e2; int n = 0;
            guarded(h, "fetch", [&]{ n = db.fetch(key, out, e2); });
            if(n > 1 || (n == 1) != !e2) h.fail("fetch protocol", "fetch made " + std::to_string(n) + " callbacks with result " + e2.message());
            h.count("transitions");
        }
        if(b.v.recs.size()){ error_code e3; auto& r = b.v.recs[0]; guarded(h, "insert", [&]{ db.insert(r.key, r.val, e3); }); if(!e3 && db.is_open()){ /* leave it in memory: committing into damaged files is not claimed */ } h.count("transitions");
            vfs::hook = [](vfs::Call const& c){ vfs::Action a; if(vfs::mutating(c.sys)) a.err = EIO; return a; }; }
        error_code e4; guarded(h, "close", [&]{ db.close(e4); }); vfs::hook = nullptr;
    }
}

static void build(Base& b, std::vector<std::pair<int,int>> const& recs, std::vector<int> const& commits, std::size_t rekeyBs = 0)
{
    vfs::reset(); b.cfg.use(); error_code ec;
    nudb::create<MHash>(DP, KP, LP, b.cfg.app, b.cfg.uid, b.cfg.salt, b.cfg.ks, b.cfg.bs, b.cfg.lf, ec);
    { DB<> db; db.open(ec); std::size_t ci = 0;
      for(std::size_t i = 0; i < recs.size(); ++i){ db.insert(orc::mkkey(recs[i].first), mkval(recs[i].first, recs[i].second), ec); if(ci < commits.size() && commits[ci] == (int)i){ db.flush(); ++ci; } }
      db.close(ec); }
    if(rekeyBs){ vfs::remove(KP); nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, rekeyBs, b.cfg.lf, recs.size(), 1 << 20, ec, nudb::no_progress{}); b.cfg.bs = rekeyBs; }
    b.f.d = getf(vfs::snapshot(), DP); b.f.k = getf(vfs::snapshot(), KP);
    b.v = orc::decode(b.f.d, b.f.k);
    if(ec || !b.v.err.empty()) g->fail("base", "base database broken: " + ec.message() + b.v.err);
    auto w = judge(b.f.d, b.f.k); if(!w.empty()) g->fail("base", "judge rejects the base: " + w);
    for(auto& r : recs) b.keys.push_back(orc::mkkey(r.first));
    b.keys.push_back(orc::mkkey(77));
}

struct Field { bool dat; u64 off; int len; char kind; };   // kind: c count, p spill pointer, o offset, s size, h hash, r record size, m spill size, x other
static void fields_of_bucket(std::vector<Field>& out, bool dat, u64 o, u64 n, u64 cap)
{
    out.push_back({dat, o, 2, 'c'}); out.push_back({dat, o + 2, 6, 'p'});
    for(u64 i = 0; i < std::min(n + 1, cap); ++i){ u64 p = o + 8 + 18 * i; out.push_back({dat, p, 6, 'o'}); out.push_back({dat, p + 6, 6, 's'}); out.push_back({dat, p + 12, 6, 'h'}); }
}
static std::vector<Field> fields(Base const& b)
{
    std::vector<Field> f;
    for(auto x : {std::pair<u64,int>{8,2},{10,8},{18,8},{26,2}}){ f.push_back({true, x.first, x.second, 'x'}); f.push_back({false, x.first, x.second, 'x'}); }
    for(auto x : {std::pair<u64,int>{28,8},{36,8},{44,2},{46,2}}) f.push_back({false, x.first, x.second, 'x'});
    for(u64 n = 0; n < b.v.buckets; ++n) fields_of_bucket(f, false, (n + 1) * b.v.bs, b.v.chains[n][0].e.size(), b.v.cap);
    for(auto& r : b.v.recs) f.push_back({true, r.off, 6, 'r'});
    for(auto& s : b.v.spills){ f.push_back({true, s.off, 6, 'r'}); f.push_back({true, s.off + 6, 2, 'm'}); fields_of_bucket(f, true, s.off + 8, be(s.body, 0, 2), (s.size - 8) / 18); }
    return f;
}
static void setf(std::string& s, u64 off, int len, u64 v){ for(int i = 0; i < len; ++i) if(off + i < s.size()) s[off + i] = char(v >> (8 * (len - 1 - i))); }

int main(int argc, char** argv)
{
    H h(argc, argv, "C13"); g = &h; bool T = h.thorough();
    std::vector<Base> bases;
    auto mk = [&](std::string name, Cfg c, std::vector<std::pair<int,int>> recs, std::vector<int> commits, std::size_t rk = 0){ Base b; b.name = name; b.cfg = c; build(b, recs, commits, rk); bases.push_back(b); };
    Cfg c; c.ks = 4; c.bs = 104;
    { Cfg q = c; q.lf = 0.9f; mk("one bucket", q, {{1,3},{2,9},{3,1}}, {}); }
    { Cfg q = c; q.lf = 0.9f; q.mode = 4; for(int i = 0; i < 80; ++i) q.table.push_back(i < 3 ? 0x10 : 0x1000ull * (i % 7) + 0x10); std::vector<std::pair<int,int>> r; for(int i = 0; i < 13; ++i) r.push_back({i, 1 + i % 4}); mk("spill chains", q, r, {4, 8}); }
    { Cfg q = c; q.lf = 0.4f; std::vector<std::pair<int,int>> r; for(int i = 0; i < 9; ++i) r.push_back({i, 2 + i % 3}); mk("several buckets", q, r, {3, 5}); }
    { Cfg q = c; q.lf = 0.9f; q.mode = 1; std::vector<std::pair<int,int>> r; for(int i = 0; i < 8; ++i) r.push_back({i, 2}); mk("rekeyed, dead spill", q, r, {5}, 140); }
    { Cfg q = c; q.lf = 0.9f; mk("empty", q, {}, {}); }
    std::uint64_t fc = 0;
    for(auto& b : bases)
    {
        b.cfg.use(); vfs::reset();
        auto F = fields(b);
        auto apply = [&](std::vector<std::pair<Field,u64>> const& ch, std::string const& what, bool fetches){ auto d = b.f.d, k = b.f.k; for(auto& x : ch) setf(x.first.dat ? d : k, x.first.off, x.first.len, x.second); if(d == b.f.d && k == b.f.k) return; one(b, d, k, what, fetches); };
        auto fname = [&](Field const& f){ return std::string(f.dat ? "data" : "key") + " file field '" + f.kind + "' at " + std::to_string(f.off); };
        auto cur = [&](Field const& f){ return be(f.dat ? b.f.d : b.f.k, f.off, f.len); };
        // values tried for a field
        auto values = [&](Field const& f, int level){
            std::set<u64> v; u64 m = f.len == 8 ? ~0ull : (1ull << (8 * f.len)) - 1, c0 = cur(f);
            for(u64 x : {u64(0), u64(1), c0 - 1, c0 + 1, m}) v.insert(x & m);
            if(level >= 1)
            {
                for(int i = 0; i < 8 * f.len; ++i) v.insert(c0 ^ (1ull << i));
                for(u64 x : {c0 - 2, c0 + 2, u64(2), m - 1, m / 2, m / 2 + 1, (u64)b.f.d.size(), (u64)b.f.d.size() - 1, (u64)b.f.d.size() + 1, (u64)b.f.k.size(), (u64)0x100000000ull + c0, (u64)0xffffffffull, (u64)0x80000000ull}) v.insert(x & m);
                for(auto& o : F) if(o.kind == f.kind || (f.kind == 's' && o.kind == 'r') || (f.kind == 'o' && o.kind == 'r')) v.insert(cur(o) & m);
                for(auto& r : b.v.recs){ if(f.kind == 'o' || f.kind == 'p') v.insert(r.off); if(f.kind == 'p') v.insert(r.off + 6 + b.v.ks); }
                for(auto& s : b.v.spills) if(f.kind == 'o' || f.kind == 'p'){ v.insert(s.off); v.insert(s.off + 8); v.insert(s.off + 6); }
            }
            if(level >= 2 && (f.kind == 'o' || f.kind == 'p' || f.kind == 'r' || f.kind == 'm' || f.kind == 's')) for(u64 x = 0; x <= b.f.d.size() + 2; ++x) v.insert(x & m);
            if(level >= 1 && f.kind == 'c') for(u64 x = 0; x <= b.v.cap + 3; ++x) v.insert(x);
            v.erase(c0); return v; };
        h.next(b.name + "-field");
        for(auto& f : F) for(auto v : values(f, 2)){ if(!h.next()){ if(h.stop()) return 0; continue; } apply({{f, v}}, fname(f) + " = " + std::to_string(v), T || ++fc % 2); }
        h.next(b.name + "-byte");
        for(int which = 0; which < 2; ++which)
        {
            auto& s = which ? b.f.d : b.f.k;
            for(u64 o = 0; o < s.size(); ++o) for(int x = 1; x < 256; x = T ? x + 1 : x * 2)
            {
                if(!h.next()){ if(h.stop()) return 0; continue; }
                auto d = b.f.d, k = b.f.k; (which ? d : k)[o] ^= x; one(b, d, k, std::string(which ? "data" : "key") + " file byte " + std::to_string(o) + " xor " + std::to_string(x), true);
            }
        }
        h.next(b.name + "-length");
        for(int which = 0; which < 2; ++which)
        {
            auto& s = which ? b.f.d : b.f.k;
            for(u64 n = 0; n <= s.size() + b.v.bs + 8; ++n) for(int fill : {0, 0xff, 0x78})
            {
                if(n == s.size() || (n < s.size() && fill)) continue;
                if(!h.next()){ if(h.stop()) return 0; continue; }
                auto d = b.f.d, k = b.f.k; auto& q = which ? d : k; q.resize(n, char(fill)); one(b, d, k, std::string(which ? "data" : "key") + " file of length " + std::to_string(n) + " fill " + std::to_string(fill), true);
            }
            // both, and pieces cut out of the middle
            for(u64 o = 0; o < s.size(); ++o) for(u64 n : {u64(1), u64(6), u64(18), b.v.bs})
            {
                if(o + n > s.size()) continue;
                if(!h.next()){ if(h.stop()) return 0; continue; }
                auto d = b.f.d, k = b.f.k; (which ? d : k).erase(o, n); one(b, d, k, std::string(which ? "data" : "key") + " file without " + std::to_string(n) + " bytes at " + std::to_string(o), false);
            }
        }
        // structural edits.  slots: every bucket body (key file and live or dead spills)
        struct Slot { bool dat; u64 off; u64 n; u64 room; };
        std::vector<Slot> S; for(u64 n = 0; n < b.v.buckets; ++n) S.push_back({false, (n + 1) * b.v.bs, b.v.chains[n][0].e.size(), b.v.cap});
        for(auto& s : b.v.spills) S.push_back({true, s.off + 8, be(s.body, 0, 2), (s.size - 8) / 18});
        auto rd = [&](Slot const& s){ return orc::rdbkt(s.dat ? b.f.d : b.f.k, s.off); };
        auto wr = [&](std::string& d, std::string& k, Slot const& s, orc::Bkt const& x){ auto e = orc::enc_bucket(x); auto& t = s.dat ? d : k; e.resize(orc::bsize(s.room), '\0'); t.replace(s.off, e.size(), e); };
        auto edit = [&](std::string const& what, std::function<void(std::string&, std::string&)> f){ if(!h.next()) return; auto d = b.f.d, k = b.f.k; f(d, k); if(d == b.f.d && k == b.f.k) return; one(b, d, k, what, true); };
        auto srt = [](orc::Bkt& x){ std::stable_sort(x.e.begin(), x.e.end(), [](orc::Ent const& a, orc::Ent const& c){ return a.hash < c.hash; }); };
        h.next(b.name + "-edit");
        for(std::size_t i = 0; i < S.size(); ++i)
        {
            std::string si = "slot " + std::to_string(i);
            for(u64 e = 0; e < S[i].n; ++e)
            {
                edit(si + " entry " + std::to_string(e) + " removed", [&](std::string& d, std::string& k){ auto x = rd(S[i]); x.e.erase(x.e.begin() + e); wr(d, k, S[i], x); });
                for(std::size_t j = 0; j < S.size(); ++j)
                {
                    std::string sj = " slot " + std::to_string(j);
                    if(S[j].n < S[j].room) for(int sorted : {1, 0})
                    {
                        edit(si + " entry " + std::to_string(e) + " copied to" + sj, [&](std::string& d, std::string& k){ auto x = rd(S[i]), y = rd(S[j]); y.e.push_back(x.e[e]); if(sorted) srt(y); wr(d, k, S[j], y); });
                        edit(si + " entry " + std::to_string(e) + " moved to" + sj, [&](std::string& d, std::string& k){ auto x = rd(S[i]); auto en = x.e[e]; x.e.erase(x.e.begin() + e); wr(d, k, S[i], x); auto y = i == j ? x : rd(S[j]); y.e.push_back(en); if(sorted) srt(y); wr(d, k, S[j], y); });
                    }
                    for(u64 e2 = 0; e2 < S[j].n; ++e2)
                    {
                        if(i == j && e == e2) continue;
                        edit(si + " entry " + std::to_string(e) + " over" + sj + " entry " + std::to_string(e2), [&](std::string& d, std::string& k){ auto x = rd(S[i]), y = rd(S[j]); y.e[e2] = x.e[e]; wr(d, k, S[j], y); });
                        edit(si + " entry " + std::to_string(e) + " over" + sj + " entry " + std::to_string(e2) + " sorted", [&](std::string& d, std::string& k){ auto x = rd(S[i]), y = rd(S[j]); y.e[e2] = x.e[e]; srt(y); wr(d, k, S[j], y); });
                        if(i < j || (i == j && e < e2))
                        {
                            for(int part = 0; part < 4; ++part)
                            edit(si + " entry " + std::to_string(e) + " exchanged with" + sj + " entry " + std::to_string(e2) + " part " + std::to_string(part), [&](std::string& d, std::string& k){
                                auto x = rd(S[i]), y = rd(S[j]); auto& A = x.e[e]; auto& B = i == j ? x.e[e2] : y.e[e2];
                                if(part == 0) std::swap(A, B); else if(part == 1) std::swap(A.off, B.off); else if(part == 2) std::swap(A.size, B.size); else std::swap(A.hash, B.hash);
                                wr(d, k, S[i], x); if(i != j) wr(d, k, S[j], y); });
                        }
                    }
                }
            }
            for(std::size_t j = 0; j < S.size(); ++j)
            {
                if(i == j || S[i].room != S[j].room) continue;
                edit(si + " copied over slot " + std::to_string(j), [&](std::string& d, std::string& k){ wr(d, k, S[j], rd(S[i])); });
                if(i < j) edit(si + " exchanged with slot " + std::to_string(j), [&](std::string& d, std::string& k){ wr(d, k, S[j], rd(S[i])); wr(d, k, S[i], rd(S[j])); });
            }
            // several entries of one slot made equal in all ways, several slots emptied
            edit(si + " emptied", [&](std::string& d, std::string& k){ wr(d, k, S[i], orc::Bkt{}); });
            edit(si + " emptied but the spill kept", [&](std::string& d, std::string& k){ orc::Bkt x; x.spill = rd(S[i]).spill; wr(d, k, S[i], x); });
        }
        // records added at the end of the data file
        h.next(b.name + "-append");
        for(int dup = 0; dup < 2; ++dup) for(int idx = 0; idx < 3; ++idx) for(std::size_t s = 0; s < S.size(); ++s)
        {
            // idx 0: not indexed, 1: indexed in slot s, 2: indexed twice
            if(idx == 0 && s) continue;
            edit("record appended dup=" + std::to_string(dup) + " indexed=" + std::to_string(idx) + " slot " + std::to_string(s), [&](std::string& d, std::string& k){
                std::string key = dup && b.v.recs.size() ? b.v.recs[0].key : orc::mkkey(70); std::string v = "zz"; u64 off = d.size(); d += orc::enc_rec(key, v);
                auto x = rd(S[s]); for(int q = 0; q < idx; ++q) x.e.push_back({off, v.size(), orc::hash64(b.v.salt, key.data(), key.size()) >> 16});
                if(x.e.size() > S[s].room) return; srt(x); if(idx) wr(d, k, S[s], x); });
        }
        // spill records exchanged, pointers shared or reversed
        h.next(b.name + "-pairs");
        std::vector<std::size_t> ptr; for(std::size_t i = 0; i < F.size(); ++i) if(F[i].kind == 'p') ptr.push_back(i);
        for(auto a : ptr) for(auto q : ptr) if(a < q) for(auto va : values(F[a], 1)) for(auto vb : values(F[q], T ? 1 : 0))
        { if(!h.next()){ if(h.stop()) return 0; continue; } apply({{F[a], va}, {F[q], vb}}, fname(F[a]) + " = " + std::to_string(va) + ", " + fname(F[q]) + " = " + std::to_string(vb), true); }
        // two fields of any kind, few values each
        h.next(b.name + "-two");
        for(std::size_t a = 0; a < F.size(); ++a) for(std::size_t q = a + 1; q < F.size(); ++q)
        {
            if(F[a].kind == 'x' || F[q].kind == 'x') continue;
            if(!T && !(F[a].dat == F[q].dat && F[q].off - F[a].off < 24)) continue;    // quick: neighbours
            for(auto va : values(F[a], 0)) for(auto vb : values(F[q], 0))
            { if(!h.next()){ if(h.stop()) return 0; continue; } apply({{F[a], va}, {F[q], vb}}, fname(F[a]) + " = " + std::to_string(va) + ", " + fname(F[q]) + " = " + std::to_string(vb), false); }
        }
        if(h.stop()) return 0;
    }
    // ---- recovery with a damaged log: safe, and a log record that is out of range is refused
    for(int lay = 0; lay < 2; ++lay)
    {
        Cfg q = c; q.lf = 0.6f; if(lay){ q.mode = 4; for(int i = 0; i < 80; ++i) q.table.push_back(0x100ull * i); q.lf = 0.9f; } q.use(); vfs::reset();
        error_code ec; docreate(q, ec);
        { DB<> db; db.open(ec); for(int i = 0; i < 7; ++i) db.insert(orc::mkkey(i), mkval(i, 3), ec); db.flush(); for(int i = 7; i < 12; ++i) db.insert(orc::mkkey(i), mkval(i, 3), ec);
          // the next commit stops before the log is cleared
          vfs::hook = [&](vfs::Call const& cc){ vfs::Action a; if(cc.path && *cc.path == LP && cc.sys == vfs::Sys::trunc) a.err = EIO; return a; };
          db.flush(); error_code e2; db.close(e2); vfs::hook = nullptr; }
        vfs::drop_fds();
        auto im = vfs::snapshot(); auto L = getf(im, LP), D0 = getf(im, DP), K0 = getf(im, KP);
        if(L.size() <= 62) h.fail("base", "no log to damage");
        h.next("log-" + std::to_string(lay));
        u64 nb = K0.size() / q.bs - 1;
        auto tryit = [&](std::string const& l, std::string const& what, std::string const& mustfail){
            h.describe(what); h.alive(); vfs::put(DP, D0); vfs::put(KP, K0); vfs::put(LP, l); error_code e;
            u64 hs = 1469598103934665603ull; for(char ch : l){ hs ^= (unsigned char)ch; hs *= 1099511628211ull; } h.state(hs); h.nontrivial(hs); h.count("traces"); h.count("logs");
            if(!guarded(h, "recover", [&]{ nudb::recover<MHash, nudb::native_file>(DP, KP, LP, e); })) vfs::drop_fds();
            h.count("transitions");
            if(!mustfail.empty() && !e) h.fail("recover accepts: " + mustfail, "recover reports success although: " + mustfail);
            auto k = getf(vfs::snapshot(), KP); if(k.compare(0, 104, K0, 0, 104)) h.fail("recover header", "recover changed the key file header"); };
        for(u64 o = 62; o < L.size(); ++o) for(int x = 1; x < 256; x = T ? x + 1 : x * 2){ if(!h.next()){ if(h.stop()) return 0; continue; } auto l = L; l[o] ^= x; tryit(l, "log byte " + std::to_string(o) + " xor " + std::to_string(x), ""); }
        // log records: index and count out of range
        u64 o = 62;
        while(o + 16 <= L.size())
        {
            u64 n = be(L, o + 8, 2); u64 cap = orc::capacity_of(q.bs);
            for(u64 v : {nb, nb + 1, nb + 2, u64(0xffffffff), u64(0x100000000ull), u64(0x100000001ull), ~u64(0), ~u64(0) - 1, u64(1) << 63}){ if(!h.next()) continue; auto l = L; setf(l, o, 8, v); tryit(l, "log index = " + std::to_string(v), "a log record names a bucket that does not exist"); }
            for(u64 v = cap + 1; v < 0x10000; v = v < cap + 12 ? v + 1 : v * 2){ if(!h.next()) continue; auto l = L; l.resize(l.size() + 18 * v, 'q'); setf(l, o + 8, 2, v); tryit(l, "log bucket count = " + std::to_string(v), "a log record holds more entries than a bucket"); }
            for(u64 v : {(u64)D0.size(), (u64)D0.size() + 1, u64(0xffffffffffff)}){ if(!h.next()) continue; auto l = L; setf(l, o + 10, 6, v); tryit(l, "log bucket spill = " + std::to_string(v), "a log record's spill pointer passes the end of the data file"); }
            o += 16 + 18 * n;
        }
        for(u64 n = 0; n < L.size(); ++n){ if(!h.next()){ if(h.stop()) return 0; continue; } tryit(L.substr(0, n), "log of length " + std::to_string(n), ""); }
    }
    return 0;
}
