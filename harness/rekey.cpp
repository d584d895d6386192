// C10 (rekey results), C11 (interrupted rekey).
#include "crash.hpp"
#include "hist.hpp"
#include "post.hpp"
#include <deque>
using namespace crash;
static H* g; static std::string prop;

struct RK { std::size_t bs = 104; float lf = 0.5f; std::uint64_t items = 1; std::size_t buf = 4096; 
  std::string str() const { char b[120]; std::snprintf(b, sizeof b, " rekey(bs=%zu lf=%g items=%llu buf=%zu)", bs, (double)lf, (unsigned long long)items, buf); return b; } };
static void dorekey(RK const& k, error_code& ec)
{ nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, k.bs, k.lf, k.items, k.buf, ec, nudb::no_progress{}); }

// A data file of n records; spills of block size bs0 are mixed in when sp.
static std::string mkdat(Cfg const& c, int n, int sp, Map& m, std::size_t big = 0)
{
    c.use();
    if(sp)
    {
        vfs::reset(); error_code ec; docreate(c, ec);
        DB<> db; db.open(ec);
        for(int i = 0; i < n; ++i){ auto k = orc::mkkey(i), v = mkval(i, big && i == n / 2 ? big : vsz(i)); db.insert(k, v, ec); m[k] = v; if(i % sp == sp - 1) db.flush(); }
        db.close(ec);
        return getf(vfs::snapshot(), DP);
    }
    auto d = orc::enc_dat_header(c.uid, c.app, c.ks);
    for(int i = 0; i < n; ++i){ auto k = orc::mkkey(i), v = mkval(i, big && i == n / 2 ? big : vsz(i)); m[k] = v; d += orc::enc_rec(k, v); }
    return d;
}
// The key file must index exactly the records of the original data file.
static std::string judge_db(H& h, std::string const& d0, Map const& m, RK const* rk, Image const& img)
{
    (void)h;
    auto d = getf(img, DP), k = getf(img, KP);
    if(d.compare(0, d0.size(), d0) || d.size() < d0.size()) return "existing data file bytes changed";
    auto v = orc::decode(d, k);
    if(!v.err.empty()) return "files do not decode: " + v.err;
    if(v.map != m) return "contents differ from the data file";
    if(rk)
    {
        if(v.bs != rk->bs) return "block size of the key file differs from the requested one";
        if(v.lf != std::min<u64>((u64)(65536.0f * rk->lf), 65535)) return "load factor of the key file differs from the requested one";
    }
    return {};
}
static void one10(H& h, Cfg const& c, std::string const& d0, Map const& m, int n, RK const& rk)
{
    vfs::reset(); vfs::hook = {}; vfs::put(DP, d0);
    c.use(); h.append(rk.str()); error_code ec;
    bool ok = guarded(h, "rekey", [&]{ dorekey(rk, ec); });
    h.count("transitions"); h.count("traces");
    int fds = vfs::open_fds(); vfs::drop_fds();
    if(!ok) return;
    if(fds) h.fail("rekey:fds", "rekey leaves descriptors open");
    if(ec){ h.fail("rekey:fails:" + ec.message(), "rekey fails on a valid data file: " + ec.message()); return; }
    auto img = vfs::snapshot(); h.state(img.hash()); h.sample(h.desc(), 2);
    if(img.has(LP)){ h.fail("rekey:log", "log remains after rekey"); return; }
    auto e = judge_db(h, d0, m, &rk, img);
    if(!e.empty()){ h.fail("rekey:" + sig(e), e); return; }
    h.nontrivial(img.hash());
    // number of buckets holds the item estimate at the load factor
    { auto v = orc::decode(getf(img, DP), getf(img, KP)); double need = double(rk.items) / (double(v.cap) * rk.lf);
      if(double(v.buckets) * (1 + 1e-5) < need || double(v.buckets) > need * 1.001 + 2) h.fail("rekey:buckets", "number of buckets does not follow the item count estimate"); }
    guarded(h, "verify after rekey", [&]{
        for(std::size_t b : {std::size_t(0), std::size_t(1) << 16}){ nudb::verify_info vi; ec = {}; nudb::verify<MHash>(vi, DP, KP, b, nudb::no_progress{}, ec); if(ec) h.fail("rekey:verify:" + ec.message(), "verify after rekey fails: " + ec.message()); }
    });
    guarded(h, "use after rekey", [&]{
        DB<> db; ec = {}; db.open(ec); if(ec){ h.fail("rekey:open:" + ec.message(), "open after rekey fails: " + ec.message()); return; }
        auto p = post_check(h, c, n + 2, db, vfs::snapshot());
        if(!p.err.empty()) h.fail("rekey:use:" + sig(p.err), p.err);
        else if(p.map != m) h.fail("rekey:content", "contents differ");
    });
    vfs::drop_fds();
}
static void c10(H& h)
{
    bool T = h.thorough(), small = !h.arg("small").empty();
    h.next("grid");
    std::vector<int> ns = {0,1,2,5,6,11,12,30}; if(small && !T) ns = {1,6,12}; if(T) for(int n : {3,4,7,10,16,17,50,100}) ns.push_back(n);
    std::vector<std::size_t> bss = {104,105,122,140,158,512}; if(T) for(std::size_t b : {121,123,176,1024,4096,65535}) bss.push_back(b);
    for(int n : ns) for(int mode : {0,1,2,3,6,7}) for(int sp : {0,4}) for(std::size_t bs0 : {104u,140u})
    for(auto bs : bss) for(float lf : {0.5f,0.1f,0.99f,0.9f})
    {
        if(!sp && bs0 != 104) continue;
        if(small && !T && (bs > 140 || bs == 122 || lf == 0.9f || mode > 3)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.lf = 0.99f; c.bs = bs0; Map m; auto d0 = mkdat(c, n, sp, m);
        std::set<u64> items = {0, 1, 2, 5, 6, (u64)n, (u64)n / 2, (u64)n * 3 + 1, 64};
        for(auto it : items)
        {
            std::set<std::size_t> bufs = {0, 1, bs - 1, bs, 2 * bs, 3 * bs + 1, std::size_t(1) << 20};
            for(auto b : bufs){ char q[100]; std::snprintf(q, sizeof q, "n=%d mode=%d spills=%d bs0=%zu", n, mode, sp, bs0); h.describe(q); one10(h, c, d0, m, n, {bs, lf, it, b}); }
            h.alive();
        }
    }
    // key sizes, big values, load factors
    h.next("dims");
    for(std::size_t ks : {1,2,3,8,31,32,33,64,255,256,4096,65535}) for(std::size_t big : {0,4096,70000,300000}) for(int mode : {0,5}) for(float lf : {0.001f, 0.5f})
    {
        if(small && (big > 4096 || ks > 4096)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.ks = ks; c.mode = mode; Map m; auto d0 = mkdat(c, 9, 0, m, big);
        for(std::size_t b : {0u, 300u, 1u << 18}){ char q[100]; std::snprintf(q, sizeof q, "ks=%zu big=%zu mode=%d", ks, big, mode); h.describe(q); one10(h, c, d0, m, 9, {104, lf, 9, b}); }
    }
    // every block size; spills need the write buffer (16 blocks) to wrap
    h.next("blocksize");
    for(std::size_t bs = 104; bs < (T ? 1200u : 260u); ++bs) for(int n : {13, 200})
    {
        if(small && (bs > 130 || n > 100)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = 1; Map m; auto d0 = mkdat(c, n, 0, m);
        char q[100]; std::snprintf(q, sizeof q, "blocksize n=%d mode=1", n); h.describe(q); one10(h, c, d0, m, n, {bs, 0.7f, (u64)n, 1000});
    }
    h.next("manyspills");
    for(int n : {700, 3000}) for(int mode : {1,2,3}) for(std::size_t bs : {104u,4000u}) for(std::size_t b : {0u,10000u,1u<<20}) 
    {
        if(small && (n > 700 || b == 10000)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; Map m; auto d0 = mkdat(c, n, 0, m);
        char q[100]; std::snprintf(q, sizeof q, "manyspills n=%d mode=%d", n, mode); h.describe(q); one10(h, c, d0, m, n, {bs, 0.9f, (u64)n, b});
    }
    // records at every position relative to the read buffer
    h.next("read-buffer");
    for(int sp = 0; sp < 2; ++sp)
    read_buffer_cases(4096 * 1024, 4, T, [&](std::vector<std::size_t> const& z){
        if(small && !T) return;
        if(!h.next() || h.stop()) return;
        Cfg c; c.mode = 1; Map m; auto d = orc::enc_dat_header(c.uid, c.app, c.ks); orc::Bkt o; o.e.assign(5, {92, 1, 5}); int i = 0;
        for(auto n : z){ auto k = orc::mkkey(i), v = mkval(i, n); m[k] = v; d += orc::enc_rec(k, v); if(sp && !i) d += orc::enc_spill(o); ++i; }
        char q[100]; std::snprintf(q, sizeof q, "read buffer %zu %zu %zu spill=%d", z[0], z[1], z[2], sp); h.describe(q);
        one10(h, c, d, m, 3, {104, 0.7f, 3, 1000});
    });
    // refusals leave everything as it was
    h.next("refuse");
    for(int what = 0; what < 14; ++what) for(int n : {0, 5})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        h.describef("refusal %d n=%d", what, n);
        Cfg c; Map m; auto d0 = mkdat(c, n, 0, m); vfs::reset(); RK rk{104, 0.5f, (u64)n + 1, 4096};
        error_code want; bool any = false;
        vfs::put(DP, d0);
        switch(what){
        case 0: vfs::put(LP, ""); want = nudb::error::log_file_exists; break;
        case 1: vfs::put(LP, orc::enc_log_header(c.uid, c.app, c.ks, c.salt, orc::pepper(c.salt), 104, 208, 92)); want = nudb::error::log_file_exists; break;
        case 2: vfs::put(KP, "something"); any = true; break;
        case 3: vfs::put(KP, ""); any = true; break;
        case 4: vfs::remove(DP); any = true; break;
        case 5: vfs::put(DP, "short"); any = true; break;
        case 6: { auto d = d0; d[0] = 'x'; vfs::put(DP, d); any = true; break; }
        case 7: { auto d = d0; d[9] = 9; vfs::put(DP, d); any = true; break; }
        case 8: rk.bs = 103; any = true; break;
        case 9: rk.bs = 65536; any = true; break;
        case 10: rk.lf = 0; any = true; break;
        case 11: rk.lf = 1; any = true; break;
        case 12: rk.lf = -0.5f; any = true; break;
        case 13: rk.lf = std::numeric_limits<float>::quiet_NaN(); any = true; break;
        }
        auto before = vfs::snapshot(); error_code ec;
        bool ok = guarded(h, "rekey", [&]{ dorekey(rk, ec); });
        vfs::drop_fds(); h.count("transitions"); h.count("traces");
        if(!ok) continue;
        if(any ? !ec : ec != want) h.fail("refuse:" + std::to_string(what), "rekey does not refuse: " + ec.message());
        if(!(vfs::snapshot() == before)) h.fail("refuse:changes:" + std::to_string(what), "a refused rekey changes files");
    }
    // a damaged data file makes rekey fail with an error, the data file stays, recover + nothing lost
    h.next("truncated");
    for(int n : {1, 6}) for(int sp : {0, 2}) for(int cut = 1; cut < 60; ++cut)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        h.describef("truncated data n=%d sp=%d cut=%d", n, sp, cut);
        Cfg c; c.mode = 1; Map m; auto d0 = mkdat(c, n, sp, m); if((int)d0.size() - cut < 92) continue;
        d0.resize(d0.size() - cut); orc::View v; bool clean = orc::decode_dat(d0, v).empty();
        vfs::reset(); vfs::put(DP, d0); error_code ec;
        bool ok = guarded(h, "rekey", [&]{ dorekey({104, 0.5f, 5, 300}, ec); });
        vfs::drop_fds(); h.count("transitions");
        if(!ok) continue;
        if(!clean && !ec) h.fail("truncated:accept", "rekey accepts a truncated data file");
        auto d = getf(vfs::snapshot(), DP);
        if(d.compare(0, d0.size(), d0)) h.fail("truncated:changes", "rekey changes existing data bytes");
        if(ec)
        {
            error_code e2; guarded(h, "recover", [&]{ nudb::recover<MHash, nudb::native_file>(DP, KP, LP, e2); }); vfs::drop_fds();
            if(getf(vfs::snapshot(), DP) != d0) h.fail("truncated:recover", "recover after a failed rekey does not restore the data file");
            if(vfs::exists(KP) || vfs::exists(LP)) h.fail("truncated:files", "recover after a failed rekey leaves files behind");
        }
    }
}

// ------------------------------------------------------------------- C11
struct Node { Image img; int depth; std::string path; };
enum { BEGIN = 1, END = 2 };
static void c11_one(H& h, Cfg const& c, std::string const& d0, Map const& m, RK const& rk, int maxDepth, int lvl, bool power2)
{
    (void)c; h.append(rk.str()); h.sample(h.desc(), 2);
    std::unordered_set<u64> seen; std::deque<Node> work; u64 capped = 0; int nv = 0;
    auto push = [&](Image const& i, int d, std::string const& p, long x, long y){
        h.count("images"); if((h.counters["images"] & 1023) == 0) h.alive();
        if(seen.insert(i.hash()).second){ char b[60]; std::snprintf(b, sizeof b, "%ld", x); std::string q = p + b; if(y >= 0) q += "/" + std::to_string(y); work.push_back({i, d, q}); } };
    Image start; { vfs::reset(); vfs::put(DP, d0); start = vfs::snapshot(); }
    push(start, 0, "start", 0, -1);
    auto bad = [&](Node const& n, std::string const& s, std::string const& msg){ ++nv; auto d = h.desc(); h.append(" " + n.path); h.fail(s, msg); h.describe(d); };
    while(!work.empty() && nv < 20)
    {
        Node n = std::move(work.front()); work.pop_front();
        if(h.counters["maxdepth"] < (u64)n.depth) h.counters["maxdepth"] = n.depth;
        h.count("nodes"); h.state(n.img.hash()); h.nontrivial(n.img.hash());
        // 1. a store must not accept a partial key file
        for(int first = 0; first < 2; ++first)
        {
            bool viaOpen = first == 0;
            // path A: open as is.  path B: recover, then (rekey if there is no key file), then open.
            vfs::load(n.img); vfs::random_state_reset(); auto base = vfs::disk(); vfs::log.clear(); vfs::logging = !viaOpen; vfs::seq = 0;
            error_code ec; u64 calls = 0; std::vector<Op> log; bool opened = false; bool done = false;
            bool ok = guarded(h, viaOpen ? "open after interrupted rekey" : "recover and rekey", [&]{
                if(viaOpen)
                {
                    DB<> db; db.open(ec);
                    if(!ec)
                    {
                        opened = true; auto e = judge_db(h, d0, m, nullptr, vfs::snapshot());
                        if(!e.empty()){ bad(n, "open:partial:" + sig(e), "an incomplete rekey is accepted: " + e); return; }
                        for(auto& x : m){ auto e2 = check_fetch(db, x.first, m); if(!e2.empty()){ bad(n, "open:fetch", e2); break; } }
                        db.close(ec);
                        if(n.depth == 0) bad(n, "open:nokey", "a database opens without key file");
                    }
                    // then redo
                }
                ec = {};
                nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec);
                if(ec && ec != nudb::error::no_key_file && ec != nudb::errc::no_such_file_or_directory){ bad(n, "recover:" + ec.message(), "recover after an interrupted rekey fails: " + ec.message()); return; }
                if(ec && getf(vfs::snapshot(), DP).compare(0, d0.size(), d0)){ bad(n, "recover:data", "recover damages the data file"); return; }
                ec = {};
                if(!vfs::exists(KP))
                {
                    if(vfs::exists(LP)){ bad(n, "recover:stuck", "after recover there is no key file but a log: rekey cannot be redone"); return; }
                    vfs::mark(BEGIN);
                    dorekey(rk, ec);
                    if(ec){ bad(n, "redo:" + ec.message(), "redoing rekey fails: " + ec.message()); return; }
                    vfs::mark(END);
                }
                done = true;
            });
            calls = vfs::seq; vfs::logging = false; log = std::move(vfs::log); vfs::log.clear(); vfs::drop_fds();
            if(!ok || !done) continue;
            h.count("transitions"); h.count("traces");
            auto fin = vfs::snapshot();
            auto e = judge_db(h, d0, m, nullptr, fin);
            if(!e.empty()){ bad(n, "final:" + sig(e), "recovery and rekey do not give the complete database: " + e); continue; }
            if(fin.has(LP) && fin.files[LP].size){ bad(n, "final:log", "log remains"); continue; }
            if(viaOpen || log.empty()) continue;
            // 2. once rekey returned, power loss changes nothing
            bool marked = !log.empty() && log.back().kind == OpKind::mark && log.back().tag == END;
            if(marked)
            {
                std::unordered_set<u64> s2; u64 cap2 = 0; int fails = 0;
                power_images_at(base, log, log.size(), lvl, 64, cap2, [&](Image const& x){
                    if(fails > 2 || !s2.insert(x.hash()).second) return;
                    h.count("durable_images");
                    vfs::load(x); error_code e3; std::string err;
                    guarded(h, "open after power loss", [&]{ DB<> db; db.open(e3); if(!e3) err = judge_db(h, d0, m, nullptr, vfs::snapshot()); });
                    vfs::drop_fds();
                    if(e3 || !err.empty()){ ++fails; bad(n, "durable:" + (e3 ? e3.message() : sig(err)), "power loss after rekey returned: " + (e3 ? "open fails: " + e3.message() : err)); }
                });
            }
            if(n.depth >= maxDepth) { h.count("depth_limit"); continue; }
            // 3. interrupt: crash, power loss, failing operation
            kill_images(base, log, n.depth ? 0 : lvl, [&](Image const& x, std::size_t i, long t){ push(x, n.depth + 1, n.path + " crash@", i, t); });
            if(power2 || n.depth < 1) power_images(base, log, n.depth ? 0 : lvl, 32, capped, [&](Image const& x, std::size_t i){ push(x, n.depth + 1, n.path + " power@", i, -1); });
            for(u64 k = 0; k < calls; ++k) for(int part = 0; part < 2; ++part)
            {
                vfs::load(n.img); vfs::random_state_reset(); vfs::seq = 0; bool hit = false;
                vfs::hook = [&](vfs::Call const& cl) -> vfs::Action {
                    if(cl.seq != k || cl.sys == vfs::Sys::close) return {};
                    if(part){ if(cl.sys != vfs::Sys::write || cl.len < 2) return {}; hit = true; return {28, (std::int64_t)(cl.len / 2), true}; }
                    hit = true; return {5}; };
                error_code e1, e2; bool rk2 = false;
                guarded(h, "rekey under fault", [&]{
                    nudb::recover<MHash, nudb::native_file>(DP, KP, LP, e1);
                    if(e1 && e1 != nudb::error::no_key_file && e1 != nudb::errc::no_such_file_or_directory) return;
                    if(!vfs::exists(KP)){ rk2 = true; dorekey(rk, e2); }
                });
                vfs::hook = {}; int fds = vfs::open_fds(); vfs::drop_fds();
                if(!hit) continue;
                h.count("faults"); h.count("transitions");
                auto x = vfs::snapshot();
                if(fds) bad(n, "fault:fds", "descriptors left open after a failing rekey");
                if(rk2 && !e2 && !judge_db(h, d0, m, nullptr, x).empty()) bad(n, "fault:swallow", "rekey reports success although operation " + std::to_string(k) + " failed");
                push(x, n.depth + 1, n.path + " fault@", k, -1);
            }
        }
    }
    if(capped) h.count("capped_products", capped);
}
static void c11(H& h)
{
    bool T = h.thorough();
    h.next("interrupt");
    for(int n : {0,1,2,3,5,7,9,12}) for(int mode : {0,1,3}) for(int sp : {0,3}) for(std::size_t bs : {104u,140u}) for(u64 items : {1ull,6ull,14ull}) for(std::size_t buf : {104u,250u,4096u})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.lf = 0.99f; Map m; auto d0 = mkdat(c, n, sp, m);
        h.describef("n=%d mode=%d spills=%d", n, mode, sp);
        c11_one(h, c, d0, m, {bs, 0.9f, items, buf}, T ? 99 : 6, T ? 2 : 1, true);
    }
    // data that is flushed in several writes
    h.next("flushes");
    for(int n : {300}) for(std::size_t buf : {104u, 100000u})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = 1; Map m; auto d0 = mkdat(c, n, 0, m);
        h.describef("n=%d mode=1", n);
        c11_one(h, c, d0, m, {4000, 0.9f, 5, buf}, 1, 0, false);
    }
}
int main(int argc, char** argv)
{
    H h(argc, argv, "C10"); g = &h; prop = h.prop;
    if(prop == "C10") c10(h); else c11(h);
    h.finish();
}
