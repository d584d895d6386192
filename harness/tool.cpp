// C24: the command line tool.  Every command with every combination of arguments
// on every enumerated state of the files, compared with the library call it stands
// for and with an independent reader.
#define main nudb_tool_main
#include <nudb/../../tools/nudb.cpp>
#undef main
#include "crash.hpp"
#include <fcntl.h>
using vfs::Image; using orc::u64; using nudb::xxhasher;
static H* g;
struct Run { int rc = -1; std::string out, err; bool threw = false; };
static Run tool(std::vector<std::string> a)
{
    a.insert(a.begin(), "/opt/bin/nudb.exe");
    std::vector<char const*> av; for(auto& s : a) av.push_back(s.c_str()); av.push_back(nullptr);
    std::stringstream so, se; auto o = std::cout.rdbuf(so.rdbuf()); auto e = std::cerr.rdbuf(se.rdbuf());
    std::ios def(nullptr); std::cout.copyfmt(def); std::cerr.copyfmt(def);
    Run r;
    bool ok = guarded(*g, "the tool", [&]{ r.rc = nudb_tool_main((int)a.size(), av.data()); });
    r.threw = !ok; std::cout.rdbuf(o); std::cerr.rdbuf(e); r.out = so.str(); r.err = se.str();
    return r;
}
// ---- expected text, formatted independently
static std::string dec(u64 v){ auto s = std::to_string(v); for(int i = (int)s.size() - 3; i > 0; i -= 3) s.insert(i, ","); return s; }
static std::string hx(u64 v){ char b[32]; std::snprintf(b, sizeof b, "0x%016llx", (unsigned long long)v); return b; }
static std::string flt(double v, int p){ char b[64]; std::snprintf(b, sizeof b, "%.*f", p, v); return b; }
using Tab = std::vector<std::pair<std::string, std::string>>;
// label, rest of line
static Tab parse(std::string const& s)
{
    Tab t; std::stringstream ss(s); std::string l;
    while(std::getline(ss, l))
    {
        if(l.empty()) continue;
        auto p = l.substr(0, 4) == "data" || l.substr(0, 4) == "key " || l.substr(0, 4) == "log " || l.substr(0, 4) == "file" ? l.find(':') : l.find_first_of(": ");
        if(p == std::string::npos){ t.emplace_back(l, ""); continue; }
        auto q = l.find_first_not_of(": ", p); t.emplace_back(l.substr(0, p), q == std::string::npos ? "" : l.substr(q));
    }
    return t;
}
static std::string diff(Tab const& got, Tab const& want)
{
    for(auto& w : want)
    {
        bool any = false; std::string v;
        for(auto& x : got) if(x.first == w.first){ v = x.second; if(v == w.second) any = true; }
        if(!any) return "line '" + w.first + "' is '" + v + "', expected '" + w.second + "'";
    }
    return {};
}
static u64 rdn(std::string const& s, std::size_t o, int n){ return orc::be(s, o, n); }
// what info has to print about a file: nothing for files it cannot read
static Tab header(std::string const& path, std::string const& s)
{
    Tab t; std::string q = "\"" + path + "\""; (void)q;
    auto ty = s.substr(0, 8); std::size_t need = ty == "nudb.dat" ? 92 : ty == "nudb.key" ? 104 : ty == "nudb.log" ? 62 : 0;
    if(!need || s.size() < need) return t;
    t.emplace_back(ty == "nudb.dat" ? "data file" : ty == "nudb.key" ? "key file" : "log file", path);
    t.emplace_back("file size", dec(s.size())); t.emplace_back("type", "'" + ty + "'"); t.emplace_back("version", std::to_string(rdn(s, 8, 2)));
    t.emplace_back("uid", hx(rdn(s, 10, 8))); t.emplace_back("appnum", hx(rdn(s, 18, 8))); t.emplace_back("key_size", std::to_string(rdn(s, 26, 2)));
    if(need == 92) return t;
    t.emplace_back("salt", hx(rdn(s, 28, 8))); t.emplace_back("pepper", hx(rdn(s, 36, 8))); t.emplace_back("block_size", dec(rdn(s, 44, 2)));
    if(need == 62){ t.emplace_back("key_file_size", dec(rdn(s, 46, 8))); t.emplace_back("dat_file_size", dec(rdn(s, 54, 8))); }
    return t;
}
static Tab stats(nudb::verify_info const& i)
{
    Tab t; auto a = [&](char const* n, std::string v){ t.emplace_back(n, std::move(v)); };
    a("dat_path", i.dat_path); a("key_path", i.key_path); a("algorithm", i.algorithm ? "fast" : "normal");
    a("avg_fetch", flt(i.avg_fetch, 3)); a("waste", flt(i.waste * 100, 3) + "%"); a("overhead", flt(i.overhead * 100, 1) + "%"); a("actual_load", flt(i.actual_load * 100, 0) + "%");
    a("version", dec(i.version)); a("uid", hx(i.uid)); a("appnum", hx(i.appnum)); a("key_size", dec(i.key_size)); a("salt", hx(i.salt)); a("pepper", hx(i.pepper));
    a("block_size", dec(i.block_size)); a("bucket_size", dec(i.bucket_size)); a("load_factor", flt(i.load_factor * 100, 0) + "%"); a("capacity", dec(i.capacity)); a("buckets", dec(i.buckets));
    a("key_count", dec(i.key_count)); a("value_count", dec(i.value_count)); a("value_bytes", dec(i.value_bytes)); a("spill_count", dec(i.spill_count)); a("spill_count_tot", dec(i.spill_count_tot));
    a("spill_bytes", dec(i.spill_bytes)); a("spill_bytes_tot", dec(i.spill_bytes_tot)); a("key_file_size", dec(i.key_file_size)); a("dat_file_size", dec(i.dat_file_size));
    std::size_t n = i.hist.size() - 1; while(n > 0 && !i.hist[n]) --n; std::string s; for(std::size_t j = 0; j <= n; ++j) s += (j ? ", " : "") + std::to_string(i.hist[j]); a("hist", s);
    return t;
}
// ---- one command on one state
enum Cmd { RECOVER, REKEY, VERIFY, VISIT, INFO };
struct Job { Cmd c; u64 count = 0, buffer = 0; bool hasbuf = false; };
static std::string jstr(Job const& j)
{ static char const* n[] = {"recover", "rekey", "verify", "visit", "info"}; return std::string(n[j.c]) + (j.c == REKEY ? " count=" + std::to_string(j.count) : "") + (j.hasbuf ? " buffer=" + std::to_string(j.buffer) : ""); }
static std::vector<std::string> argv_of(Job const& j)
{
    switch(j.c)
    {
    case RECOVER: return {"recover", DP, KP, LP};
    case REKEY: return {"rekey", DP, KP, LP, "--count=" + std::to_string(j.count), "--buffer=" + std::to_string(j.buffer)};
    case VERIFY: { std::vector<std::string> v{"verify", DP, KP}; if(j.hasbuf) v.push_back("--buffer=" + std::to_string(j.buffer)); return v; }
    case VISIT: return {"visit", DP};
    case INFO: return {"info", DP, KP, LP};
    }
    return {};
}
struct Lib { bool ok = false; std::string why; nudb::verify_info vi; u64 n = 0; std::array<u64, 64> hist{}; };
static Lib lib(Job const& j)
{
    Lib r; error_code ec;
    try {
        switch(j.c)
        {
        case RECOVER: nudb::recover<xxhasher>(DP, KP, LP, ec); break;
        case REKEY: nudb::rekey<xxhasher, nudb::native_file>(DP, KP, LP, 4096, 0.5f, j.count, j.buffer, ec, nudb::no_progress{}); break;
        case VERIFY: nudb::verify<xxhasher>(r.vi, DP, KP, j.buffer, nudb::no_progress{}, ec); break;
        case VISIT: nudb::visit(DP, [&](void const*, std::size_t, void const*, std::size_t n, error_code&){ ++r.n; int b = 0; while(b < 63 && (n >> (b + 1))) ++b; ++r.hist[b]; }, nudb::no_progress{}, ec); break;
        case INFO: break;
        }
        r.ok = !ec; if(ec) r.why = ec.message();
    } catch(std::exception const& e){ r.why = e.what(); }
    return r;
}
using Hook = std::function<vfs::Action(vfs::Call const&)>;
static void setup(Image const& im, Hook const& hook){ vfs::hook = {}; vfs::after = {}; vfs::reset(); vfs::load(im); vfs::random_state_reset(); vfs::seq = 0; vfs::logging = false; vfs::hook = hook; }
// judge the tool's run r that turned image a into b, given what the library did
static void judge(H& h, Job const& j, Image const& a, Run const& r, Image const& b, Lib const* l, Image const* bl, bool fault)
{
    std::string c = jstr(j).substr(0, jstr(j).find(' '));
    if(r.threw) return;
    if(j.c == INFO)
    {
        if(r.rc != 0) h.fail("info:status", "info fails on files that are given");
        if(!(a == b)) h.fail("info:modifies", "info changes a file");
        if(fault) return;
        auto got = parse(r.out);
        // headers appear in the order of the files
        std::size_t at = 0;
        for(auto& p : {DP, KP, LP})
        {
            auto s = getf(a, p); auto w = header(p, s);
            if(w.empty()){ if(r.out.find(p) == std::string::npos) h.fail("info:silent", "info says nothing about a file it cannot show"); continue; }
            auto pos = r.out.find(w[0].second, at); if(pos == std::string::npos){ h.fail("info:missing", "info does not show a file"); return; }
            auto end = r.out.find("\n\n", pos); auto beg = r.out.rfind('\n', pos); beg = beg == std::string::npos ? 0 : beg + 1;
            auto d = diff(parse(r.out.substr(beg, end == std::string::npos ? end : end - beg)), w); at = end == std::string::npos ? pos : end;
            if(!d.empty()){ h.fail("info:" + sig(d), "info: " + d); return; }
        }
        return;
    }
    if(j.c == VERIFY || j.c == VISIT) if(!(a == b)) h.fail(c + ":modifies", c + " changes a file");
    bool ok = r.rc == 0;
    if(!ok && r.err.empty() && r.out.empty()) h.fail(c + ":silent", "a failing " + c + " prints nothing");
    if(l)
    {
        if(ok != l->ok){ h.fail(c + ":status", c + (ok ? " reports success although the library fails: " + l->why : " fails although the library succeeds: " + r.err)); return; }
        if(!ok && (r.err + r.out).find(l->why) == std::string::npos) h.fail(c + ":reason", c + " does not name the error '" + l->why + "': " + r.err);
        if(ok && !r.err.empty()) h.fail(c + ":noise", c + " prints an error although it succeeds: " + r.err);
        if(!(b == *bl)) h.fail(c + ":effect", c + " does not leave the files as the library does");
        if(!ok) return;
        if(j.c == VERIFY){ auto d = diff(parse(r.out), stats(l->vi)); if(!d.empty()) h.fail("verify:" + sig(d), "verify: " + d); }
    }
    if(j.c == VISIT && ok)
    {
        auto s = getf(a, DP); orc::View v;
        auto s0 = s; for(std::size_t i = 28; i < 92 && i < s.size(); ++i) s[i] = 0;  // reserved bytes do not matter
        auto e = orc::decode_dat(s, v); s = s0; std::array<u64, 64> hist{}; u64 n = 0;
        for(auto& x : v.recs){ ++n; int k = 0; while(x.val.size() >> (k + 1)) ++k; ++hist[k]; }
        Tab w = header(DP, s); w.emplace_back("value_count", dec(n));
        std::size_t m = 63; while(m > 0 && !hist[m]) --m; std::string q; for(std::size_t i = 0; i <= m; ++i) q += (i ? ", " : "") + std::to_string(hist[i]); w.emplace_back("sizes", q);
        if(!e.empty()){ if(fault || l) h.fail("visit:accepts", "visit reports success on a data file that does not decode: " + e); return; }
        auto d = diff(parse(r.out), w); if(!d.empty()) h.fail("visit:" + sig(d), "visit: " + d);
    }
}
static void one(H& h, Image const& im, Job const& j, Hook const& hook = {})
{
    setup(im, hook); auto r = tool(argv_of(j)); vfs::hook = {}; int fds = vfs::open_fds(); auto b = vfs::snapshot(); vfs::drop_fds();
    if(fds) h.fail("fds", "the tool leaves descriptors open");
    h.count("transitions"); h.count("traces"); h.state(im.hash() * 1000003 ^ std::hash<std::string>()(jstr(j))); if(r.rc == 0) h.nontrivial(im.hash() ^ b.hash() * 31 ^ std::hash<std::string>()(jstr(j)));
    Lib l; Image bl; bool cmp = !hook || j.c == RECOVER || j.c == REKEY || j.c == VERIFY;
    if(cmp && j.c != INFO){ setup(im, hook); l = lib(j); vfs::hook = {}; vfs::drop_fds(); bl = vfs::snapshot(); }
    judge(h, j, im, r, b, cmp && j.c != INFO ? &l : nullptr, &bl, bool(hook));
    if(h.trace){ std::fprintf(stderr, "%s -> %d\n%s%s", jstr(j).c_str(), r.rc, r.out.c_str(), r.err.c_str()); }
}
static std::vector<Job> jobs(u64 n, std::size_t ksize)
{
    std::vector<Job> v{{RECOVER}, {VISIT}, {INFO}, {VERIFY}};
    for(u64 b : {u64(0), u64(1), u64(300), u64(10000), u64(1) << 22, u64(ksize), u64(ksize) + 4096}) v.push_back({VERIFY, 0, b, true});
    for(u64 c : {u64(0), u64(1), n, 4 * n + 300, u64(100000)}) for(u64 b : {u64(0), u64(1), u64(4096), u64(10000), u64(1) << 22}) if(c < 100000 || b > 4096) v.push_back({REKEY, c, b, true});
    return v;
}
struct St { std::string name; Image im; u64 n; };
static Cfg cfg(std::size_t ks, std::size_t bs, float lf){ Cfg c; c.ks = ks; c.bs = bs; c.lf = lf; c.mode = 5; return c; }
static Image make(Cfg const& c, int n, int per, bool big)
{
    vfs::hook = {}; vfs::reset(); c.use(); error_code ec;
    nudb::create<xxhasher>(DP, KP, LP, c.app, c.uid, c.salt, c.ks, c.bs, c.lf, ec);
    DB<xxhasher> db; db.open(ec);
    for(int i = 0; i < n; ++i){ db.insert(orc::mkkey(i), mkval(i, big ? (1u << (i % 18)) + i : vsz(i)), ec); if(i % per == per - 1) db.flush(); }
    db.close(ec); return vfs::snapshot();
}
// operations of the last commit of a database
static std::vector<vfs::Op> commit_log(Image const& im, int from, int n, vfs::Disk& base)
{
    vfs::reset(); vfs::load(im); error_code ec; std::vector<vfs::Op> log;
    DB<xxhasher> db; db.open(ec); for(int i = from; i < from + n; ++i) db.insert(orc::mkkey(i), mkval(i, vsz(i)), ec);
    base = vfs::disk(); vfs::log.clear(); vfs::logging = true; db.flush(); vfs::logging = false; log = std::move(vfs::log); vfs::log.clear(); db.close(ec); return log;
}
int main(int argc, char** argv)
{
    H h(argc, argv, "C24"); g = &h; bool T = h.thorough();
    std::vector<St> st;
    struct D { std::size_t ks, bs; float lf; int n, per; bool big; };
    std::vector<D> ds = {{4,104,0.5f,0,1,false},{4,104,0.99f,5,5,false},{4,104,0.99f,40,7,false},{8,512,0.1f,60,60,false},{33,4096,0.5f,30,9,true}};
    if(T){ ds.push_back({1,121,0.9f,100,13,false}); ds.push_back({300,65535,0.5f,50,50,true}); ds.push_back({4,104,0.99f,300,300,false}); }
    for(auto& d : ds){ auto c = cfg(d.ks, d.bs, d.lf); St s; s.im = make(c, d.n, d.per, d.big); s.n = d.n; s.name = "ks=" + std::to_string(d.ks) + " bs=" + std::to_string(d.bs) + " n=" + std::to_string(d.n); st.push_back(s); }
    auto use = [&](std::size_t i){ cfg(ds[i].ks, ds[i].bs, ds[i].lf).use(); };

    // every command on whole databases and with each subset of the files missing, empty or swapped
    h.next("whole");
    for(std::size_t i = 0; i < st.size(); ++i) for(int what = 0; what < 64; ++what)
    {
        Image im = st[i].im; std::string p[3] = {DP, KP, LP}; int y = what;
        im.files[LP];  // an empty log
        for(int k = 0; k < 3; ++k){ int a = y % 4; y /= 4; if(a == 1) im.files.erase(p[k]); else if(a == 2) im.files[p[k]].trunc(0); else if(a == 3) im.files[p[k]] = st[i].im.files.at(k == 1 ? DP : KP); }
        for(auto& j : jobs(st[i].n, st[i].im.files.at(KP).size))
        {
            if(!h.next()){ if(h.stop()) break; continue; }
            use(i); h.describef("%s files=%d %s", st[i].name.c_str(), what, jstr(j).c_str()); h.sample(h.desc()); one(h, im, j);
        }
    }
    // files that may only be read: info, verify and visit do the same
    h.next("readonly");
    for(std::size_t i = 0; i < st.size(); ++i) for(auto& j : {Job{INFO}, Job{VISIT}, Job{VERIFY}, Job{VERIFY, 0, 1 << 20, true}})
    {
        if(!h.next()){ if(h.stop()) break; continue; }
        use(i); h.describef("%s read-only %s", st[i].name.c_str(), jstr(j).c_str());
        setup(st[i].im, {}); auto a = tool(argv_of(j)); vfs::drop_fds();
        setup(st[i].im, [](vfs::Call const& c) -> vfs::Action { if(vfs::mutating(c.sys) || (c.sys == vfs::Sys::open && (c.off & O_ACCMODE) != O_RDONLY)) return {EACCES}; return {}; });
        auto b = tool(argv_of(j)); vfs::hook = {}; vfs::drop_fds(); h.count("transitions"); h.count("traces"); if(a.threw || b.threw) continue;
        if(a.rc != b.rc || a.out != b.out) h.fail(jstr(j) + ":readonly", jstr(j) + " needs to write: " + b.out + b.err);
    }
    // interrupted commits: each kill image
    h.next("crashed");
    for(std::size_t i = 0; i < st.size(); ++i)
    {
        if(st[i].n > 60) continue;
        use(i); vfs::Disk base; auto log = commit_log(st[i].im, 1000, 7, base); int x = 0;
        crash::kill_images(base, log, T ? 1 : 0, [&](Image const& im, std::size_t at, long torn){
            for(auto& j : {Job{RECOVER}, Job{INFO}, Job{VISIT}, Job{VERIFY}, Job{VERIFY, 0, 1 << 20, true}, Job{REKEY, 50, 4096, true}})
            {
                if(!h.next() || h.stop()) continue;
                use(i); h.describef("%s killed at operation %zu+%ld of a commit, %s", st[i].name.c_str(), at, torn, jstr(j).c_str()); one(h, im, j);
                if(j.c != RECOVER) continue;
                // afterwards it verifies
                auto r = tool({"verify", DP, KP}); if(r.rc) h.fail("recover:verify", "after recover verify fails: " + r.err);
            }
            ++x; });
    }
    // interrupted rekey: recover, rekey and verify bring it back
    h.next("rekeyed");
    for(std::size_t i = 0; i < st.size(); ++i) for(u64 buf : {u64(0), u64(1) << 20})
    {
        use(i); Image im = st[i].im; im.files.erase(KP); im.files.erase(LP); auto want = orc::View{}; orc::decode_dat(getf(im, DP), want); Job rk{REKEY, st[i].n * 150, buf, true};
        setup(im, {}); auto base = vfs::disk(); vfs::log.clear(); vfs::logging = true; tool(argv_of(rk)); vfs::logging = false; auto log = std::move(vfs::log); vfs::log.clear();
        crash::kill_images(base, log, T ? 1 : 0, [&](Image const& x, std::size_t at, long torn){
            if(!h.next() || h.stop()) return;
            use(i); h.describef("%s rekey buffer=%llu killed at operation %zu+%ld", st[i].name.c_str(), (unsigned long long)buf, at, torn);
            for(auto& j : {Job{INFO}, Job{VISIT}, Job{VERIFY}, Job{VERIFY, 0, 1 << 20, true}, rk, Job{RECOVER}}) one(h, x, j);
            setup(x, {}); tool({"recover", DP, KP, LP});
            if(!vfs::exists(KP)){ auto r = tool(argv_of(rk)); if(r.rc) h.fail("rekey:redo", "rekey cannot be redone after recover: " + r.err); }
            auto r = tool({"verify", DP, KP, "--buffer=100000"}); if(r.rc) h.fail("rekey:verify", "after recover and rekey verify fails: " + r.err);
            auto im2 = vfs::snapshot(); auto v = orc::decode(getf(im2, DP), getf(im2, KP));
            if(!v.err.empty()) h.fail("rekey:decode:" + sig(v.err), "after recover and rekey: " + v.err);
            else { bool same = v.recs.size() == want.recs.size(); for(std::size_t k = 0; same && k < v.recs.size(); ++k) same = v.recs[k].key == want.recs[k].key && v.recs[k].val == want.recs[k].val; if(!same) h.fail("rekey:content", "after recover and rekey the records differ"); }
        });
    }
    // failing calls: every one, by number
    h.next("faults");
    for(std::size_t i : {1, 2}) for(auto& j : {Job{RECOVER}, Job{INFO}, Job{VISIT}, Job{VERIFY}, Job{VERIFY, 0, 1000, true}, Job{REKEY, 40, 9000, true}}) for(int from = 0; from < 2; ++from)
    {
        use(i); Image im = st[i].im;
        if(j.c == RECOVER){ vfs::Disk base; auto log = commit_log(im, 1000, 7, base); for(std::size_t k = 0; k + 3 < log.size(); ++k) base.apply(log[k]); im = base.image(); }
        if(j.c == REKEY){ im.files.erase(KP); im.files.erase(LP); }
        setup(im, {}); tool(argv_of(j)); u64 calls = vfs::seq;
        for(u64 k = 0; k < calls; ++k)
        {
            if(!h.next()){ if(h.stop()) break; continue; }
            use(i); h.describef("%s %s, call %llu%s fails", st[i].name.c_str(), jstr(j).c_str(), (unsigned long long)k, from ? " and all after it" : "");
            one(h, im, j, [&](vfs::Call const& c) -> vfs::Action { if(c.sys == vfs::Sys::close || (from ? c.seq < k : c.seq != k)) return {}; return {EIO}; });
        }
    }
    // damaged files: every length near the header, every byte of the headers
    h.next("damaged");
    for(std::size_t i : {1, 2}) for(int f = 0; f < 2; ++f) for(int kind = 0; kind < 3; ++kind)
    {
        std::string p = f ? KP : DP; auto s = getf(st[i].im, p); std::size_t n = kind ? std::size_t(f ? 104 : 92) : s.size();
        for(std::size_t o = 0; o < n; o += (kind || o < 260 || T) ? 1 : 7) for(auto& j : {Job{RECOVER}, Job{INFO}, Job{VISIT}, Job{VERIFY}, Job{VERIFY, 0, 1 << 20, true}})
        {
            if(!h.next()){ if(h.stop()) break; continue; }
            use(i); Image im = st[i].im; auto& c = im.files[p]; unsigned char b;
            if(!kind) c.trunc(o); else { b = s[o]; b = kind == 1 ? b ^ 1 : ~b; c.write(o, &b, 1); }
            h.describef("%s %s file %s %zu, %s", st[i].name.c_str(), f ? "key" : "data", kind ? "byte changed" : "cut to", o, jstr(j).c_str()); one(h, im, j);
        }
    }
    // arguments: refused without touching anything, or understood in each notation
    h.next("args");
    {
        std::vector<std::vector<std::string>> bad = {{}, {"frobnicate"}, {"frobnicate", DP, KP, LP}, {"Verify", DP, KP}, {"verif", DP, KP}, {""},
            {"recover"}, {"recover", DP}, {"recover", DP, KP}, {"recover", "-d", DP, "-l", LP}, {"recover", "-k", KP, "-l", LP}, {"recover", DP, KP, LP, "more"},
            {"verify"}, {"verify", DP}, {"verify", "-k", KP}, {"visit"}, {"visit", "-k", KP}, {"info"}, {"info", "--bogus", DP}, {"verify", DP, KP, "--buffer"}, {"verify", DP, KP, "--buffer=x"}, {"verify", DP, KP, "--buffer=1.5"},
            {"verify", DP, KP, "--buffer="}, {"verify", DP, KP, "--buffer=99999999999999999999"}, {"verify", DP, KP, "--buffer=1", "--buffer=2"}, {"visit", DP, "--bogus"}, {"recover", DP, KP, LP, "--zzz=1"}};
        // rekey with each proper subset of what it needs
        std::vector<std::string> need = {"--dat=" + DP, "--key=" + KP, "--log=" + LP, "--count=5", "--buffer=4096"};
        for(int m = 0; m < 31; ++m){ std::vector<std::string> a{"rekey"}; for(int k = 0; k < 5; ++k) if(m >> k & 1) a.push_back(need[k]); bad.push_back(a); }
        for(auto n : {"x", "", "1e3", "5 5", "0x10", "18446744073709551616"}){ bad.push_back({"rekey", DP, KP, LP, std::string("--count=") + n, "--buffer=1"}); bad.push_back({"rekey", DP, KP, LP, "--count=1", std::string("--buffer=") + n}); }
        for(std::size_t i = 0; i < 2; ++i) for(auto& a : bad) for(int key = 0; key < 2; ++key)
        {
            if(!h.next()){ if(h.stop()) break; continue; }
            use(i); Image im = st[i].im; if(!key){ im.files.erase(KP); im.files.erase(LP); }
            std::string d; for(auto& x : a) d += " " + x; h.describe("refused:" + d + (key ? "" : " (no key file)"));
            setup(im, {}); auto r = tool(a); h.count("transitions"); h.count("traces"); h.state(std::hash<std::string>()(d)); vfs::drop_fds(); if(r.threw) continue;
            if(r.rc == 0) h.fail("args:accepted", "wrong arguments are accepted"); if(r.err.empty()) h.fail("args:silent", "wrong arguments are refused without a message");
            if(!(vfs::snapshot() == im)) h.fail("args:effect", "files change although the arguments are refused");
        }
        // the same in every notation
        struct Eq { std::vector<std::string> a; Job j; };
        std::vector<Eq> eq;
        auto perms = [&](std::string cmd, std::vector<std::vector<std::string>> parts, Job j){
            std::vector<int> ix(parts.size()); for(std::size_t k = 0; k < ix.size(); ++k) ix[k] = k;
            do for(std::size_t at = 0; at <= parts.size(); ++at){ Eq e; e.j = j; for(std::size_t k = 0; k <= parts.size(); ++k){ if(k == at) e.a.push_back(cmd); if(k < parts.size()) for(auto& x : parts[ix[k]]) e.a.push_back(x); } eq.push_back(e); } while(std::next_permutation(ix.begin(), ix.end())); };
        for(int nt = 0; nt < 3; ++nt)
        {
            auto o = [&](char sh, char const* ln, std::string v){ return nt == 0 ? std::vector<std::string>{std::string("-") + sh, v} : nt == 1 ? std::vector<std::string>{std::string("--") + ln, v} : std::vector<std::string>{std::string("--") + ln + "=" + v}; };
            auto d = o('d', "dat", DP), k = o('k', "key", KP), l = o('l', "log", LP), b = o('b', "buffer", "5000"), n = o('n', "count", "77");
            perms("recover", {d, k, l}, {RECOVER}); perms("verify", {d, k}, {VERIFY}); perms("verify", {d, k, b}, {VERIFY, 0, 5000, true}); perms("visit", {d}, {VISIT}); perms("rekey", {d, k, l, b, n}, {REKEY, 77, 5000, true}); perms("info", {d, k, l}, {INFO});
        }
        eq.push_back({{"verify", DP, KP, "-b5000"}, {VERIFY, 0, 5000, true}}); eq.push_back({{"rekey", DP, KP, LP, "-n", "77", "-b", "5000"}, {REKEY, 77, 5000, true}});
        for(auto& e : eq)
        {
            if(!h.next()){ if(h.stop()) break; continue; }
            use(2); Image im = st[2].im; if(e.j.c == REKEY){ im.files.erase(KP); im.files.erase(LP); }
            std::string d; for(auto& x : e.a) d += " " + x; h.describe("notation:" + d);
            setup(im, {}); auto r = tool(e.a); vfs::drop_fds(); auto b = vfs::snapshot(); h.count("transitions"); h.count("traces"); h.nontrivial(std::hash<std::string>()(d));
            setup(im, {}); auto l = lib(e.j); vfs::drop_fds(); auto bl = vfs::snapshot(); judge(h, e.j, im, r, b, e.j.c == INFO ? nullptr : &l, &bl, false);
        }
        if(h.next()){ h.describe("help"); auto r = tool({"help"}); if(r.rc || r.out.empty()) h.fail("help", "help fails"); for(auto x : {"info", "recover", "rekey", "verify", "visit", "--buffer", "--count"}) if(r.out.find(x) == std::string::npos) h.fail("help:text", std::string("help does not mention ") + x); }
    }
    h.finish();
}
