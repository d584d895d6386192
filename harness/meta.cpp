// C16 (create), C17 (foreign and mismatched files).
#include "db.hpp"
#include <nudb/recover.hpp>
#include <cfloat>
#include <cmath>
#include <limits>
#include <cerrno>
using vfs::Image; using vfs::u64; using orc::be;

static H* g; static std::string prop;
static std::string const VD = "virt:dat", VK = "virt:key", VL = "virt:log";

// A user supplied File: maps its own names, counts, takes constructor arguments.
struct Env { int made = 0, alive = 0, erased = 0; std::vector<std::string> erases; bool wrongArgs = false; };
static Env env;
static std::string vpath(std::string const& p)
{ return p == VD ? DP : p == VK ? KP : p == VL ? LP : "/vfs/none/" + p; }
struct WFile {
    nudb::posix_file f; int tag = 0;
    WFile(){ env.wrongArgs = true; ++env.made; ++env.alive; }
    explicit WFile(int t, std::string const& s) : tag(t) { if(t != 77 || s != "arg") env.wrongArgs = true; ++env.made; ++env.alive; }
    WFile(WFile&& o) : f(std::move(o.f)), tag(o.tag) { ++env.alive; }
    WFile& operator=(WFile&&) = default;
    ~WFile(){ --env.alive; }
    bool is_open() const { return f.is_open(); }
    void close(){ f.close(); }
    void create(nudb::file_mode m, nudb::path_type const& p, error_code& ec){ f.create(m, vpath(p), ec); }
    void open(nudb::file_mode m, nudb::path_type const& p, error_code& ec){ f.open(m, vpath(p), ec); }
    static void erase(nudb::path_type const& p, error_code& ec){ ++env.erased; nudb::posix_file::erase(vpath(p), ec); }
    std::uint64_t size(error_code& ec) const { return f.size(ec); }
    void read(std::uint64_t o, void* b, std::size_t n, error_code& ec){ f.read(o, b, n, ec); }
    void write(std::uint64_t o, void const* b, std::size_t n, error_code& ec){ f.write(o, b, n, ec); }
    void sync(error_code& ec){ f.sync(ec); }
    void trunc(std::uint64_t n, error_code& ec){ f.trunc(n, ec); }
};

struct CP { std::size_t ks = 4, bs = 104; float lf = 0.5f; u64 app = 1, uid = 2, salt = 3; bool nouid = false;
  std::string str() const { char b[200]; std::snprintf(b, sizeof b, "create(ks=%zu bs=%zu lf=%.9g app=%llx uid=%llx salt=%llx nouid=%d)", ks, bs, (double)lf, (unsigned long long)app, (unsigned long long)uid, (unsigned long long)salt, (int)nouid); return b; } };
static void callcreate(CP const& p, error_code& ec, std::string const& d = DP, std::string const& k = KP, std::string const& l = LP)
{
    if(p.nouid) nudb::create<MHash, nudb::native_file>(d, k, l, p.app, p.salt, p.ks, p.bs, p.lf, ec);
    else nudb::create<MHash, nudb::native_file>(d, k, l, p.app, p.uid, p.salt, p.ks, p.bs, p.lf, ec);
}
static bool valid(CP const& p)
{
    double x = 65536.0 * (double)p.lf;
    return p.ks >= 1 && p.ks <= 65535 && p.bs >= 104 && p.bs <= 65535 && x >= 1.0 && p.lf < 1.0f;
}
// The three files of a fresh database with these parameters; empty if right.
static std::string fresh(CP const& p, Image const& img)
{
    if(!img.has(DP) || !img.has(KP) || !img.has(LP)) return "create leaves out a file";
    auto d = getf(img, DP), k = getf(img, KP), l = getf(img, LP);
    if(d.size() != 92) return "data file of a new database is not just a header";
    if(k.size() != 2 * p.bs) return "key file of a new database is not a header and one bucket";
    auto v = orc::decode(d, k);
    if(!v.err.empty()) return "new database does not decode: " + v.err;
    if(!l.empty()) return "log of a new database is not empty";
    if(v.app != p.app) return "application number differs";
    if(!p.nouid && v.uid != p.uid) return "uid differs";
    if(v.salt != p.salt) return "salt differs";
    if(v.ks != p.ks) return "key size differs";
    if(v.bs != p.bs) return "block size differs";
    if(v.lf != (u64)std::floor(65536.0 * (double)p.lf)) return "load factor differs";
    if(v.recs.size() || !v.chains[0][0].e.empty()) return "new database is not empty";
    return {};
}
static std::string useit(CP const& p)
{
    Cfg c; c.ks = p.ks; c.bs = p.bs; c.lf = p.lf; c.mode = 0; c.use();
    Map m; error_code ec;
    for(int round = 0; round < 2; ++round)
    {
        DB<> db; db.open(ec); if(ec) return "new database does not open: " + ec.message();
        if(db.s->appnum() != p.app) return "appnum() differs";
        if(db.s->key_size() != p.ks) return "key_size() differs";
        if(db.s->block_size() != p.bs) return "block_size() differs";
        if(db.s->dat_path() != DP || db.s->key_path() != KP || db.s->log_path() != LP) return "paths differ";
        for(int i = round * 4; i < round * 4 + 4; ++i)
        {
            auto k = orc::mkkey(i), v = mkval(i, vsz(i)); if(m.count(k)) continue;
            std::string o; if(db.fetch(k, o, ec)) return "new database has contents"; ec = {};
            db.insert(k, v, ec); if(ec) return "insert fails: " + ec.message();
            m[k] = v; if(i & 1) db.flush();
        }
        for(auto& x : m){ auto e = check_fetch(db, x.first, m); if(!e.empty()) return e; }
        db.close(ec); if(ec) return "close fails: " + ec.message();
    }
    auto img = vfs::snapshot(); auto v = orc::decode(getf(img, DP), getf(img, KP));
    if(!v.err.empty()) return "does not decode after use: " + v.err;
    if(v.map != m) return "contents differ after use";
    return {};
}
static bool same(Image const& a, Image const& b){ return a == b; }
static std::string diff(Image const& before, Image const& now)
{
    for(auto& f : before.files) { if(!now.has(f.first)) return "file removed: " + f.first; if(!(f.second == now.files.at(f.first))) return "file changed: " + f.first; }
    for(auto& f : now.files) if(!before.has(f.first)) return "file left behind: " + f.first;
    return {};
}
static void onecreate(H& h, CP const& p, bool use)
{
    vfs::reset(); vfs::hook = {}; h.describe(p.str()); Cfg{}.use(); orc::hc().key_size = std::min<std::size_t>(std::max<std::size_t>(p.ks, 1), 65535);
    error_code ec; Image none;
    bool ok = guarded(h, "create", [&]{ callcreate(p, ec); });
    h.count("transitions"); h.count("traces");
    int fds = vfs::open_fds(); vfs::drop_fds(); if(!ok) return;
    if(fds) h.fail("create:fds", "create leaves descriptors open");
    auto img = vfs::snapshot(); h.state(img.hash() ^ (ec ? 0 : 1));
    if(ec)
    {
        h.count("rejected");
        if(valid(p)) h.fail("create:rejects:" + ec.message(), "create rejects valid parameters: " + ec.message());
        if(!same(none, img)) h.fail("create:left", "create failed but " + diff(none, img));
        return;
    }
    if(!valid(p))
    {
        // only parameters the files cannot represent
        h.fail("create:accepts", "create accepts parameters that the files cannot represent");
        return;
    }
    auto e = fresh(p, img); if(!e.empty()){ h.fail("create:" + sig(e), e); return; }
    h.nontrivial(img.hash()); h.count("created"); h.sample(p.str());
    if(use) guarded(h, "use of the new database", [&]{ auto x = useit(p); if(!x.empty()) h.fail("create:use:" + sig(x), x); });
    vfs::drop_fds();
}
// kept: files of the test's directory put there before
static void c16(H& h)
{
    bool T = h.thorough();
    float const inf = std::numeric_limits<float>::infinity(), q = 1.0f / 65536;
    std::vector<float> lfs = {0.f, -0.f, -1.f, -0.5f, -inf, inf, std::nanf(""), FLT_MIN, FLT_TRUE_MIN, 1e-10f, FLT_EPSILON, q / 2, std::nextafter(q, 0.f), q, std::nextafter(q, 1.f), 2 * q, std::nextafter(2 * q, 0.f), 3 * q, 0.1f, 0.25f, 0.333333f, 0.5f, 0.75f, 0.99f, 65535 * q, std::nextafter(65535 * q, 0.f), std::nextafter(65535 * q, 1.f), std::nextafter(1.f, 0.f), 1.f, std::nextafter(1.f, 2.f), 1.5f, 2.f, 65535.f, 65536.f, FLT_MAX};
    std::vector<std::size_t> kss = {0, 1, 2, 3, 4, 7, 8, 32, 64, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 131072, 131076, 0x7fffffff, 0x80000000, 0xffffffffull, 0x100000000ull, 0x100000004ull, ~std::size_t(0), ~std::size_t(0) - 3, std::size_t(1) << 63};
    std::vector<std::size_t> bss = {0, 1, 7, 8, 25, 26, 27, 48, 60, 92, 102, 103, 104, 105, 121, 122, 123, 255, 256, 4095, 4096, 32768, 65534, 65535, 65536, 65537, 65536 + 104, 65536 + 4096, 131072, 0xffffffffull, 0x100000000ull, 0x100000000ull + 4096, ~std::size_t(0), ~std::size_t(0) - 7};
    h.next("params");
    for(auto ks : kss) for(auto bs : bss) for(auto lf : lfs)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        CP p; p.ks = ks; p.bs = bs; p.lf = lf; onecreate(h, p, true);
    }
    // every representable step of the load factor and every block and key size alone
    h.next("loadfactors");
    for(int i = 0; i <= 65537; i += T ? 1 : 7) for(int d = -1; d <= 1; ++d)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        CP p; p.lf = i / 65536.0f; if(d < 0) p.lf = std::nextafter(p.lf, -1.f); if(d > 0) p.lf = std::nextafter(p.lf, 2.f); onecreate(h, p, false);
    }
    h.next("blocksizes");
    for(std::size_t b = 0; b <= 66000; b += (T || b < 600) ? 1 : 13){ if(!h.next()){ if(h.stop()) return; continue; } CP p; p.bs = b; onecreate(h, p, b < 600 || T); }
    h.next("keysizes");
    for(std::size_t k = 0; k <= 66000; k += (T || k < 600) ? 1 : 37){ if(!h.next()){ if(h.stop()) return; continue; } CP p; p.ks = k; onecreate(h, p, true); }
    h.next("ids");
    std::vector<u64> ids = {0, 1, 0xff, 0xff00, 0x8000000000000000ull, ~0ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0xffffffffull, 0x100000000ull};
    for(auto a : ids) for(auto u : ids) for(auto s : ids) for(int no = 0; no < 2; ++no)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        CP p; p.app = a; p.uid = u; p.salt = s; p.nouid = no; onecreate(h, p, (a ^ u ^ s) % 3 == 0 || T);
    }
    // files that exist already, and paths that coincide
    std::string const paths[3] = {DP, KP, LP};
    std::vector<std::string> contents = {"", "x", std::string(92, 'd'), std::string(5000, 'k'), orc::enc_dat_header(1, 2, 4)};
    h.next("exists");
    for(int al = 0; al < 5; ++al) for(int mask = 0; mask < 8; ++mask) for(auto& c : contents) for(int no = 0; no < 2; ++no) for(int badp = 0; badp < 4; ++badp)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        std::string P[3] = {DP, KP, LP};
        if(al == 1) P[1] = P[0]; if(al == 2) P[2] = P[0]; if(al == 3) P[2] = P[1]; if(al == 4) P[1] = P[2] = P[0];
        vfs::reset(); Cfg{}.use(); std::string what = "existing:";
        for(int i = 0; i < 3; ++i) if(mask >> i & 1){ vfs::put(P[i], c + std::to_string(i)); what += " " + P[i]; }
        auto before = vfs::snapshot(); CP p; p.nouid = no; if(badp == 1) p.ks = 0; if(badp == 2) p.bs = 50; if(badp == 3) p.lf = 1.0f;
        h.describe(p.str() + " " + what + " aliasing " + std::to_string(al)); error_code ec;
        guarded(h, "create", [&]{ callcreate(p, ec, P[0], P[1], P[2]); });
        h.count("transitions"); h.count("traces"); vfs::drop_fds();
        auto now = vfs::snapshot(); h.state(now.hash() * 31 + al * 8 + mask);
        if(mask == 0 && al == 0 && badp == 0){ if(ec) h.fail("create:fails", "create fails: " + ec.message()); continue; }
        if(!ec) h.fail("exists:success", "create succeeds although a file existed, paths coincide or a parameter is invalid");
        if(!same(before, now)) h.fail("exists:" + sig(diff(before, now)), "create failed but " + diff(before, now));
        h.nontrivial(now.hash() * 31 + al * 8 + mask);
    }
    // every failing call
    h.next("faults");
    int const errs[] = {EIO, ENOSPC, EACCES, EMFILE, ENOENT, EROFS, EEXIST, EINVAL};
    for(int mask = 0; mask < 8; ++mask) for(int kind = 0; kind < 4; ++kind) for(int no = 0; no < 2; ++no) for(int e : errs) for(int bsx = 0; bsx < 2; ++bsx) for(long at = 0; at < 60; ++at)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        // kind 0: one call fails; 1: all from there on but removal; 2: a write stops half way; 3: as 0 with stale errno
        vfs::reset(); Cfg{}.use();
        for(int i = 0; i < 3; ++i) if(mask >> i & 1) vfs::put(paths[i], "old" + std::to_string(i));
        auto before = vfs::snapshot(); CP p; p.nouid = no; p.bs = bsx ? 4096 : 104;
        long n = 0; bool hit = false; vfs::Sys what = vfs::Sys::other;
        vfs::hook = [&](vfs::Call const& c) -> vfs::Action {
            if(c.sys == vfs::Sys::close) return {};
            long i = n++;
            if(kind == 1 ? (i >= at && c.sys != vfs::Sys::unlink) : i == at)
            {
                if(c.sys == vfs::Sys::unlink) return {};
                if(kind == 2){ if(c.sys != vfs::Sys::write) return {}; hit = true; what = c.sys; return {e, (std::int64_t)(c.len / 2), true}; }
                if(!hit) what = c.sys; hit = true; return {e};
            }
            return {}; };
        char b[120]; std::snprintf(b, sizeof b, " call %ld fails, kind %d errno %d existing mask %d", at, kind, e, mask); h.describe(p.str() + b);
        error_code ec; errno = kind == 3 ? ERANGE : 0;
        guarded(h, "create", [&]{ callcreate(p, ec); });
        vfs::hook = {}; h.count("transitions"); h.count("traces"); if(!hit){ vfs::drop_fds(); continue; }
        int fds = vfs::open_fds(); vfs::drop_fds(); if(fds) h.fail("fault:fds", "a failing create leaves descriptors open");
        auto now = vfs::snapshot(); h.count("faults"); h.state(now.hash() * 131 + at); h.nontrivial(n * 1000003ull + at * 8 + mask + kind * 4096 + e * 65536);
        if(ec)
        {
            if(!same(before, now)) h.fail("fault:" + sig(diff(before, now)), "create failed (" + ec.message() + ", failing call " + vfs::name(what) + ") but " + diff(before, now));
            if(ec.value() != e && mask == 0) h.fail("fault:code:" + ec.message(), "create reports " + ec.message() + " but the failing call's error was " + std::strerror(e));
        }
        else
        {
            if(what != vfs::Sys::advise || mask) { h.fail(std::string("fault:swallowed:") + vfs::name(what), std::string("create succeeds although a ") + vfs::name(what) + " failed"); continue; }
            auto x = fresh(p, now); if(!x.empty()) h.fail("fault:" + sig(x), x);
        }
    }
    // a create that does not finish leaves nothing that opens as something else
    h.next("interrupted");
    for(std::size_t bs : {104, 105, 121, 122, 208, 4096}) for(std::size_t ks : {1, 8, 300})
    {
        CP p; p.bs = bs; p.ks = ks; Cfg c; c.bs = bs; c.ks = ks; c.use();
        vfs::reset(); vfs::log.clear(); vfs::logging = true; vfs::Disk start = vfs::disk(); error_code ec; callcreate(p, ec); vfs::logging = false; auto log = vfs::log; vfs::log.clear();
        if(ec){ h.describe(p.str()); h.fail("create:fails", "create fails"); continue; }
        for(std::size_t i = 0; i <= log.size(); ++i)
        {
            u64 tn = i < log.size() && log[i].kind == vfs::OpKind::write ? log[i].data.size() : 1;
            for(u64 t = 0; t < tn; t += (t < 300 || t + 40 > tn) ? 1 : 61)
            {
                if(!h.next()){ if(h.stop()) return; continue; }
                vfs::Disk d = start; for(std::size_t j = 0; j < i; ++j) d.apply(log[j]); if(t) d.apply(log[i], t);
                auto img = d.image(); h.describe(p.str() + " killed in step " + std::to_string(i) + " after " + std::to_string(t) + " bytes");
                vfs::reset(); vfs::load(img); c.use(); h.state(img.hash()); h.nontrivial(img.hash()); h.count("transitions"); h.count("traces");
                error_code e; bool opened = false;
                guarded(h, "open", [&]{ DB<> db; db.open(e); opened = !e; if(opened){ error_code x; db.close(x); } });
                if(opened) { guarded(h, "use", [&]{ auto x = useit(p); if(!x.empty()) h.fail("interrupted:" + sig(x), "an interrupted create left a database that opens but " + x); }); h.count("opened"); }
                vfs::drop_fds();
            }
        }
    }
    // user supplied File types
    h.next("file");
    for(int no = 0; no < 2; ++no) for(long at = -1; at < 60; ++at) for(int kind = 0; kind < 2; ++kind) for(int mask = 0; mask < 8; ++mask)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        vfs::reset(); Cfg c; c.use(); env = Env{}; CP p; p.nouid = no;
        for(int i = 0; i < 3; ++i) if(mask >> i & 1) vfs::put(paths[i], "old");
        auto before = vfs::snapshot(); long n = 0; bool hit = false; std::string foreign;
        vfs::hook = [&](vfs::Call const& cc) -> vfs::Action {
            if(cc.sys == vfs::Sys::close) return {};
            long i = n++; if(at >= 0 && (kind ? i >= at : i == at) && cc.sys != vfs::Sys::unlink){ hit = true; return {EIO}; } return {}; };
        h.describe("user File, nouid=" + std::to_string(no) + " fault@" + std::to_string(at) + " kind " + std::to_string(kind) + " mask " + std::to_string(mask)); error_code ec;
        int a77 = 77; std::string s = "arg";
        guarded(h, "create with a user File", [&]{
            if(no) nudb::create<MHash, WFile>(VD, VK, VL, p.app, p.salt, p.ks, p.bs, p.lf, ec);      // with the default constructor
            else nudb::create<MHash, WFile>(VD, VK, VL, p.app, p.uid, p.salt, p.ks, p.bs, p.lf, ec, a77, s); });
        vfs::hook = {}; auto now = vfs::snapshot(); h.count("transitions"); h.count("traces"); h.state(now.hash() + at); h.nontrivial(at * 64 + mask * 8 + kind * 2 + no);
        if(vfs::open_fds()) h.fail("file:fds", "create leaves descriptors open"); vfs::drop_fds();
        if(env.alive) h.fail("file:alive", "create leaves File objects");
        if(env.wrongArgs && !no) h.fail("file:args", "create does not pass its arguments to the File constructors");
        if(!env.made) h.fail("file:unused", "create does not use the File type it was given");
        if(ec)
        {
            if(!hit && !mask) h.fail("file:fails", "create with a user File fails: " + ec.message());
            if(!same(before, now)) h.fail("file:" + sig(diff(before, now)), "create with a user File failed but " + diff(before, now));
            continue;
        }
        if(mask) { h.fail("file:exists", "create with a user File overwrote a file"); continue; }
        auto x = fresh(p, now); if(!x.empty()){ h.fail("file:" + sig(x), x); continue; }
        // open, use, crash and recover with the same File type
        if(at < 0) guarded(h, "use with a user File", [&]{
            env.wrongArgs = false;
            nudb::context ctx; nudb::basic_store<MHash, WFile> st(ctx); error_code e; st.open(VD, VK, VL, e, a77, s); if(e){ h.fail("file:open", "open with a user File fails: " + e.message()); return; }
            for(int i = 0; i < 9; ++i) st.insert(orc::mkkey(i).data(), "abc", 3, e); ctx.flush();
            auto mid = vfs::snapshot(); st.close(e); if(e) h.fail("file:close", e.message());
            if(vfs::exists(LP)) h.fail("file:log", "log remains after close with a user File");
            if(env.wrongArgs) h.fail("file:args", "open does not pass its arguments to the File constructors");
            vfs::drop_fds(); vfs::load(mid); nudb::recover<MHash, WFile>(VD, VK, VL, e, a77, s); if(e) h.fail("file:recover", "recover with a user File fails: " + e.message());
            if(vfs::exists(LP)) h.fail("file:log", "log remains after recover with a user File");
            // an unfinished rekey
            auto k = getf(mid, KP); vfs::load(mid); vfs::put(KP, k.substr(0, 104)); vfs::put(LP, "");
            e = {}; nudb::recover<MHash, WFile>(VD, VK, VL, e, a77, s);
            if(e != nudb::error::no_key_file) h.fail("file:nokey", "recover of an unfinished rekey with a user File: expected no_key_file, got " + e.message());
            if(vfs::exists(LP) || vfs::exists(KP)) h.fail("file:nokey", "recover of an unfinished rekey with a user File leaves files");
            e = {}; nudb::rekey<MHash, WFile>(VD, VK, VL, 104, 0.5f, 9, 4096, e, nudb::no_progress{}, a77, s); if(e) h.fail("file:rekey", "rekey with a user File fails: " + e.message());
            auto w = vfs::snapshot(); auto v = orc::decode(getf(w, DP), getf(w, KP)); if(!v.err.empty() || v.map.size() != 9) h.fail("file:rekey", "rekey with a user File: wrong result " + v.err);
        });
        vfs::drop_fds();
    }
}

// ------------------------------------------------------------------- C17
struct DBF { std::string name; Cfg c; std::string d, k;            // clean database
    std::string d2, k2, clog;                                      // stopped in a commit
    std::string rk, rk2, rlog, rd; };                              // stopped in a rekey: full and partial key file, data
struct Ident { u64 uid, app, ks, salt, pep, bs; };
static Ident idd(std::string const& d){ return {be(d,10,8), be(d,18,8), be(d,26,2), 0, 0, 0}; }
static Ident idk(std::string const& k){ return {be(k,10,8), be(k,18,8), be(k,26,2), be(k,28,8), be(k,36,8), be(k,44,2)}; }
static bool eqd(Ident const& a, Ident const& b){ return a.uid == b.uid && a.app == b.app && a.ks == b.ks; }
static bool eqk(Ident const& a, Ident const& b){ return eqd(a, b) && a.salt == b.salt && a.pep == b.pep && a.bs == b.bs; }

static DBF mkdb(H& h, std::string const& name, Cfg const& c, int n)
{
    DBF f; f.name = name; f.c = c; vfs::reset(); vfs::hook = {}; error_code ec; docreate(c, ec);
    if(ec){ h.describe(name); h.fail("base", "create fails"); return f; }
    Image mid; bool have = false;
    {
        DB<> db; db.open(ec); for(int i = 0; i < n; ++i) db.insert(orc::mkkey(i), mkval(i, vsz(i)), ec); db.flush();
        for(int i = n; i < n + 7; ++i) db.insert(orc::mkkey(i), mkval(i, vsz(i)), ec);
        // image when the log is about to be emptied
        vfs::hook = [&](vfs::Call const& cc) -> vfs::Action { if(cc.path && *cc.path == LP && cc.sys == vfs::Sys::trunc && !have && cc.len == 0){ have = true; mid = vfs::snapshot(); } return {}; };
        db.flush(); vfs::hook = {}; db.close(ec);
    }
    auto img = vfs::snapshot(); f.d = getf(img, DP); f.k = getf(img, KP); f.d2 = getf(mid, DP); f.k2 = getf(mid, KP); f.clog = getf(mid, LP);
    if(!have || f.clog.size() <= 62) { h.describe(name); h.fail("base", "no commit log found"); }
    // rekey
    vfs::reset(); vfs::put(DP, f.d); have = false; Image late; bool l2 = false; Image early; u64 seen = 0;
    vfs::hook = [&](vfs::Call const& cc) -> vfs::Action {
        if(cc.path && *cc.path == LP && cc.sys == vfs::Sys::trunc && !l2){ l2 = true; late = vfs::snapshot(); }
        if(cc.path && *cc.path == KP && cc.sys == vfs::Sys::write && ++seen == 3){ early = vfs::snapshot(); }
        return {}; };
    vfs::random_state_reset(); ec = {}; nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, c.bs, c.lf, n, 4096, ec, nudb::no_progress{}); vfs::hook = {};
    f.rk = getf(late, KP); f.rk2 = getf(early, KP); f.rlog = getf(late, LP); f.rd = getf(late, DP);
    if(ec || f.rlog.size() < 62) { h.describe(name); h.fail("base", "no rekey log found " + ec.message()); }
    vfs::drop_fds();
    return f;
}
// Run every entry point on the files; none may succeed and no content may change.
static void refuse(H& h, Cfg const& c, std::string const& d, std::string const& k, std::string const* l, bool keymissing = false)
{
    (void)keymissing;
    for(int api = 0; api < 5; ++api)
    {
        vfs::reset(); vfs::hook = {}; vfs::put(DP, d); vfs::put(KP, k); if(l) vfs::put(LP, *l); c.use(); h.alive();
        auto before = vfs::snapshot(); error_code ec; h.count("transitions"); h.state(before.hash() * 8 + api);
        static char const* nm[] = {"open", "recover", "open again", "verify", "rekey"};
        if(api == 3 && l) continue;           // verify does not look at logs
        guarded(h, nm[api], [&]{
            if(api == 1) nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec);
            else if(api == 3){ nudb::verify_info vi; nudb::verify<MHash>(vi, DP, KP, 0, nudb::no_progress{}, ec); }
            else if(api == 4) nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, 104, 0.5f, 10, 4096, ec, nudb::no_progress{});
            else { DB<> db; db.open(ec); if(ec && api == 2){ ec = {}; db.open(ec); } if(!ec){ error_code x; db.close(x); } } });
        vfs::drop_fds();
        bool mayskip = api == 1 && (!l || l->size() < 62);        // nothing to recover: the key file is not looked at
        if(!ec && !mayskip) h.fail(std::string(nm[api]) + ":accepts", std::string(nm[api]) + " accepts files that do not belong together or have an invalid header");
        auto now = vfs::snapshot();
        if(now.has(LP) && !before.has(LP) && now.files.at(LP).size == 0) now.files.erase(LP);      // an empty log holds nothing
        if(before.has(LP) && before.files.at(LP).size == 0 && !now.has(LP)) before.files.erase(LP);
        if(!same(before, now)) h.fail(std::string(nm[api]) + ":" + sig(diff(before, now)), std::string(nm[api]) + " refuses the files but " + diff(before, now));
        h.nontrivial(before.hash() * 8 + api);
    }
    h.count("traces");
}
static void c17(H& h)
{
    bool T = h.thorough();
    Cfg a; a.lf = 0.6f; a.bs = 104; std::vector<DBF> D; int nrec = 9;
    D.push_back(mkdb(h, "a", a, nrec));
    { auto c = a; c.uid ^= 1; D.push_back(mkdb(h, "uid", c, nrec)); }
    { auto c = a; c.app ^= 1ull << 63; D.push_back(mkdb(h, "app", c, nrec)); }
    { auto c = a; c.ks = 5; D.push_back(mkdb(h, "ks", c, nrec)); }
    { auto c = a; c.salt ^= 0x100; D.push_back(mkdb(h, "salt", c, nrec)); }
    { auto c = a; c.bs = 122; D.push_back(mkdb(h, "bs", c, nrec)); }
    { auto c = a; c.mode = 5; D.push_back(mkdb(h, "hasher", c, nrec)); }
    { auto c = a; c.uid ^= 1ull << 40; c.app ^= 4; c.salt = 77; D.push_back(mkdb(h, "all", c, nrec + 5)); }
    { auto c = a; c.uid = a.app; c.app = a.uid; D.push_back(mkdb(h, "swapped", c, nrec)); }
    if(T){ auto c = a; c.uid ^= 0xff00000000000000ull; D.push_back(mkdb(h, "uid2", c, nrec)); c = a; c.app ^= 1; D.push_back(mkdb(h, "app2", c, nrec)); c = a; c.bs = 512; D.push_back(mkdb(h, "bs2", c, nrec)); c = a; c.ks = 260; D.push_back(mkdb(h, "ks2", c, nrec)); c = a; c.salt = 0; D.push_back(mkdb(h, "salt2", c, nrec)); }
    h.next("pairings");
    for(auto& i : D) for(auto& j : D) for(auto& k : D) for(int lk = 0; lk < 4; ++lk) for(int dv = 0; dv < 3; ++dv) for(int kv = 0; kv < 4; ++kv) for(int hs = 0; hs < 2; ++hs)
    {
        if(lk < 2 && &k != &D[0]) continue;                                  // no log content
        if(!h.next()){ if(h.stop()) return; continue; }
        // files: no log / empty log / commit log / rekey log
        std::string const& d = dv == 0 ? i.d : dv == 1 ? i.d2 : i.rd; std::string const& key = kv == 0 ? j.k : kv == 1 ? j.k2 : kv == 2 ? j.rk : j.rk2;
        if(key.size() <= 104) continue;
        std::string empty; std::string const* l = lk == 0 ? nullptr : lk == 1 ? &empty : lk == 2 ? &k.clog : &k.rlog;
        Cfg c = i.c; if(hs) c.mode = c.mode == 5 ? 0 : 5;                      // the caller's hash function
        auto ok = [&](std::string const& f){ Cfg cc = c; cc.use(); return be(f, 36, 8) == orc::pepper(be(f, 28, 8)); };
        bool bad = false, partial = key.size() < 2 * be(key, 44, 2);
        if(l && l->size() >= 62)
        {
            auto li = Ident{be(*l,10,8), be(*l,18,8), be(*l,26,2), be(*l,28,8), be(*l,36,8), be(*l,44,2)};
            if(!ok(*l) || !eqd(li, idd(d))) bad = true;
            if(lk == 2 || !partial) if(!eqk(li, idk(key))) bad = lk == 2 || ok(key) ? true : bad;
            if(lk == 2 && partial) bad = true;
        }
        else { if(!ok(key) || !eqd(idd(d), idk(key)) || partial) bad = true; }
        h.describe("data of " + i.name + "/" + std::to_string(dv) + ", key file of " + j.name + "/" + std::to_string(kv) + ", log " + (lk == 0 ? "none" : lk == 1 ? "empty" : (lk == 2 ? "commit of " : "rekey of ") + k.name) + (hs ? ", other hash function" : ""));
        if(!bad){ h.count("matching"); continue; }
        h.count("mismatching"); h.sample(h.desc(), 6);
        refuse(h, c, d, key, l);
    }
    // every header byte
    h.next("bytes");
    int nd = T ? (int)D.size() : 3;
    for(int q = 0; q < nd; ++q) for(int lk = 0; lk < 4; ++lk) for(int file = 0; file < 3; ++file) for(int off = 0; off < 104; ++off) for(int x = 1; x < 256; x = T || x < 4 ? x + 1 : x * 2 + (x == 4))
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        auto& f = D[q == 1 ? 5 : q == 2 ? 6 : q];
        std::string d = lk == 2 ? f.d2 : lk == 3 ? f.rd : f.d, k = lk == 2 ? f.k2 : lk == 3 ? f.rk : f.k, l = lk == 2 ? f.clog : lk == 3 ? f.rlog : ""; bool hasl = lk > 0;
        std::string* s = file == 0 ? &d : file == 1 ? &k : &l; int hl = file == 0 ? 92 : file == 1 ? 104 : 62;
        if(off >= hl || (file == 2 && lk < 2)) continue;
        (*s)[off] ^= x;
        h.describe(f.name + (file == 0 ? " data" : file == 1 ? " key" : " log") + " header byte " + std::to_string(off) + " xor " + std::to_string(x) + ", log kind " + std::to_string(lk));
        // bytes that do not identify anything
        bool judged = true;
        if(file == 0 && off >= 28) judged = false;
        if(file == 1 && off >= 46 && !(off <= 47 && be(k, 46, 2) == 0)) judged = false;
        if(file == 2 && off >= 46) judged = false;
        if(file == 1 && (off == 44 || off == 45) && lk < 2 && orc::capacity_of(be(k, 44, 2)) >= 1 && k.size() >= 2 * be(k, 44, 2)) judged = false;   // detected only with a log
        if(file == 1 && lk == 3 && off != 44 && off != 45){ Cfg cc = f.c; cc.use(); if(k.compare(0, 8, "nudb.key") || be(k, 8, 2) != 2 || be(k, 36, 8) != orc::pepper(be(k, 28, 8)) || be(k, 26, 2) < 1 || be(k, 46, 2) < 1) judged = false; }        // a partial key file of a rekey
        if(file == 1 && lk == 3 && (off == 44 || off == 45) && (orc::capacity_of(be(k, 44, 2)) < 1 || k.size() < 2 * be(k, 44, 2))) judged = false;
        if(!judged)
        {
            // anything but a crash, and what is refused is left alone
            vfs::reset(); vfs::put(DP, d); vfs::put(KP, k); if(hasl) vfs::put(LP, l); f.c.use(); error_code ec; h.count("transitions"); h.count("traces"); h.count("unidentifying");
            guarded(h, "open", [&]{ DB<> db; db.open(ec); error_code e; if(!ec) db.close(e); }); vfs::drop_fds();
            continue;
        }
        h.count("mismatching"); refuse(h, f.c, d, k, hasl ? &l : nullptr);
    }
    // every length
    h.next("lengths");
    for(int q = 0; q < 2; ++q) for(int lk = 0; lk < 4; ++lk) for(int file = 0; file < 2; ++file) for(std::size_t n = 0; n < 4 * 122; ++n)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        auto& f = D[q ? 5 : 0];
        std::string d = lk == 2 ? f.d2 : lk == 3 ? f.rd : f.d, k = lk == 2 ? f.k2 : lk == 3 ? f.rk : f.k, l = lk == 2 ? f.clog : lk == 3 ? f.rlog : "";
        if(file == 0){ if(n >= 92) continue; d.resize(n); }
        else { if(n <= 104 || n >= 2 * f.c.bs || lk == 3) continue; k.resize(n); }      // up to 104 bytes: an unfinished rekey, removed on purpose
        h.describe(f.name + (file == 0 ? " data" : " key") + " file cut to " + std::to_string(n) + " bytes, log kind " + std::to_string(lk));
        h.count("mismatching"); refuse(h, f.c, d, k, lk ? &l : nullptr);
    }
    // missing files
    h.next("missing");
    for(int lk = 0; lk < 4; ++lk) for(int miss = 1; miss < 4; ++miss) for(int api = 0; api < 2; ++api)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        auto& f = D[0]; vfs::reset(); f.c.use();
        if(!(miss & 1)) vfs::put(DP, f.d); if(!(miss & 2)) vfs::put(KP, f.k); if(lk) vfs::put(LP, lk == 1 ? std::string() : lk == 2 ? f.clog : f.rlog);
        auto before = vfs::snapshot(); error_code ec; h.describe("missing mask " + std::to_string(miss) + " log kind " + std::to_string(lk));
        guarded(h, "open", [&]{ if(api) nudb::recover<MHash, nudb::native_file>(DP, KP, LP, ec); else { DB<> db; db.open(ec); } }); vfs::drop_fds();
        h.count("transitions"); h.count("traces"); h.nontrivial(lk * 16 + miss * 2 + api); h.state(before.hash() + api);
        if(!ec) h.fail("missing:accepts", "open succeeds although a file is missing");
        else if(ec != boost::system::errc::no_such_file_or_directory) h.fail("missing:code", "open of missing files reports " + ec.message());
        auto now = vfs::snapshot(); if(!same(before, now)) h.fail("missing:" + sig(diff(before, now)), "open fails but " + diff(before, now));
    }
    // pairs of differing header fields between the files, swapped file roles
    h.next("roles");
    std::string const* pool[4]; 
    for(auto& f : D) for(int x = 0; x < 64; ++x)
    {
        if(!h.next()){ if(h.stop()) return; continue; }
        pool[0] = &f.d2; pool[1] = &f.k2; pool[2] = &f.clog; pool[3] = &f.rlog;
        int pd = x & 3, pk = x >> 2 & 3, pl = x >> 4 & 3;
        if(pd == 0 && pk == 1 && pl == 2) continue;
        if(pd == 0 && pk == 1 && pl == 3){ h.count("roles_same"); }
        if(pool[pk]->size() <= 104) continue;
        h.describe(f.name + " roles: data=" + std::to_string(pd) + " key=" + std::to_string(pk) + " log=" + std::to_string(pl));
        if(pd == 0 && pk == 1 && pl == 3 ) { auto li = idk(*pool[3]); if(eqk(li, idk(f.k2))) continue; }
        h.count("mismatching");
        if(pd == 0 && pl == 3 && pk != 1) continue;              // a key file of wrong type next to a matching rekey log is an unfinished one
        refuse(h, f.c, *pool[pd], *pool[pk], pool[pl]);
    }
}
int main(int argc, char** argv)
{
    H h(argc, argv, "C16"); g = &h; prop = h.prop;
    if(prop == "C16") c16(h); else c17(h);
    h.finish();
}
