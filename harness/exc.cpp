// C25: exceptions thrown by callbacks of the caller and by failing allocations.
#define LONG_NAMES
#include "hist.hpp"
#include <new>
using vfs::Image; using vfs::u64;

// ------------------------------------------------- allocations of the library
static int libdepth = 0; static long nalloc = 0, failAt = -1; static bool failRest = false; static bool hit = false; static std::int64_t held = 0;
struct Lib { Lib(){ ++libdepth; } ~Lib(){ --libdepth; } };
// harness code that the library (or the file system model) calls
struct Mine { int d, i; Mine() : d(libdepth), i(vfs::inside) { libdepth = 0; vfs::inside = 0; } ~Mine(){ libdepth = d; vfs::inside = i; } };
struct alignas(16) Hdr { std::size_t n, tag; };
static void* get(std::size_t n)
{
    bool mine = libdepth > 0 && vfs::inside == 0;
    if(mine){ auto k = nalloc++; if(failAt >= 0 && (k == failAt || (failRest && k > failAt))){ hit = true; throw std::bad_alloc(); } }
    auto p = static_cast<Hdr*>(std::malloc(n + sizeof(Hdr))); if(!p) throw std::bad_alloc();
    p->n = n; p->tag = mine; if(mine) held += n;
    return p + 1;
}
static void put(void* q){ if(!q) return; auto p = static_cast<Hdr*>(q) - 1; if(p->tag) held -= p->n; std::free(p); }
void* operator new(std::size_t n){ return get(n); }
void* operator new[](std::size_t n){ return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }

static H* g;
struct Boom { u64 tag; };
static u64 boom = 0;
enum class R { ok, boom, nomem, other };
// Run a library call; an exception of ours must arrive unchanged.
template<class F> static R attempt(F&& f)
{
    Lib l;
    try { f(); return R::ok; }
    catch(Boom const& b){ return b.tag == boom ? R::boom : R::other; }
    catch(std::bad_alloc const&){ return hit ? R::nomem : R::other; }
    catch(std::length_error const&){ return R::other; }
}
static void arm(long k, bool rest){ nalloc = 0; failAt = k; failRest = rest; hit = false; }
static void disarm(){ failAt = -1; }

using St = nudb::basic_store<MHash, nudb::native_file>;
// fetch with a callback that throws after looking at the value
static std::string tfetch(St& s, std::string const& k, Map const& m)
{
    auto it = m.find(k); error_code ec; int n = 0; bool right = false; ++boom;
    auto r = attempt([&]{ s.fetch(k.data(), [&](void const* p, std::size_t z){ ++n; { Mine q; right = it != m.end() && it->second.size() == z && !std::memcmp(p, it->second.data(), z); } throw Boom{boom}; }, ec); });
    g->count("transitions"); g->count("throwing_fetches");
    if(it == m.end()){ if(r != R::ok || n || ec != nudb::error::key_not_found) return "fetch of an absent key with a throwing callback does not give key_not_found"; return {}; }
    if(r != R::boom) return r == R::ok ? "the exception of a fetch callback does not reach the caller" : "the exception of a fetch callback changes on its way";
    if(n != 1) return "a throwing fetch callback is called " + std::to_string(n) + " times";
    if(!right) return "a throwing fetch callback is given wrong bytes";
    if(ec) return "a fetch whose callback throws also reports an error";
    return {};
}
static std::string all(DB<>& db, int n, Map const& m)
{
    for(int i = 0; i < n; ++i){ auto e = check_fetch(db, orc::mkkey(i), m); if(!e.empty()) return e; g->count("fetches"); }
    return {};
}
// A fetch that runs out of memory at each of its allocations in turn.
static std::string ofetch(St& s, std::string const& k, Map const& m)
{
    auto it = m.find(k);
    for(long a = 0; ; ++a)
    {
        error_code ec; int n = 0; bool right = true; arm(a, false); auto h0 = held;
        auto r = attempt([&]{ s.fetch(k.data(), [&](void const* p, std::size_t z){ ++n; Mine q; right = it != m.end() && it->second.size() == z && !std::memcmp(p, it->second.data(), z); }, ec); });
        disarm(); g->count("transitions");
        if(held != h0) return "a fetch keeps memory";
        if(r == R::nomem){ if(n) return "a fetch without memory makes a callback"; g->count("failed_allocations"); continue; }
        if(r != R::ok) return "a fetch throws something else than the failure";
        if(hit) return "a fetch swallows a failing allocation";
        if(it == m.end() ? n || ec != nudb::error::key_not_found : n != 1 || ec || !right) return "a fetch after failing ones is wrong";
        return {};
    }
}
static bool inflush = false;
// ------------------------------------------------------- histories
// what: 0 throwing callbacks, 1 failing allocations, 2 both also at file operation `at` of each commit
static long one(H& h, Hist const& t, int what, long at)
{
    t.cfg.use(); vfs::reset(); vfs::random_state_reset(); vfs::hook = {}; disarm(); long ops = 0; int maxk = t.nkeys;
    guarded(h, "history", [&]{
        error_code ec; docreate(t.cfg, ec); DB<> db; Map m; std::string bad, where;
        auto note = [&](std::string const& e, std::string const& w){ if(bad.empty() && !e.empty()){ bad = e; where = w; } };
        auto images = [&](Image const& i, std::string const& w){ if(bad.empty() && !(vfs::snapshot() == i)) note("a call that throws changes a file", w); };
        auto open = [&]{
            if(what == 1) for(long a = 0; bad.empty(); ++a)
            {
                error_code e; auto h0 = held; auto d = getf(vfs::snapshot(), DP), k = getf(vfs::snapshot(), KP); int fds = vfs::open_fds();
                arm(a, false); auto r = attempt([&]{ db.s->open(DP, KP, LP, e); }); disarm(); h.count("transitions");
                if(r == R::ok){ if(hit || e) note("open after failing ones: " + e.message(), "open"); break; }
                h.count("failed_allocations");
                if(r != R::nomem) note("open throws something else", "open");
                if(db.is_open()) note("a store is open after an open that threw", "open");
                if(vfs::open_fds() != fds) note("an open that threw leaves descriptors", "open");
                if(held != h0) note("an open that threw leaves memory", "open");
                auto i = vfs::snapshot(); if(getf(i, DP) != d || getf(i, KP) != k) note("an open that threw changes the database", "open");
            }
            else db.open(ec);
        };
        auto lookups = [&](std::string const& w){
            auto im = vfs::snapshot(); h.state(im.hash()); h.nontrivial(im.hash() * 31 + m.size());
            for(int i = 0; i < maxk && bad.empty(); ++i) note(what == 1 ? ofetch(*db.s, orc::mkkey(i), m) : tfetch(*db.s, orc::mkkey(i), m), w);
            images(im, w); if(bad.empty()) note(all(db, maxk, m), w + ", afterwards");
        };
        auto insert = [&](int i, std::size_t z){
            auto k = orc::mkkey(i); auto v = mkval(i, z); bool had = m.count(k);
            if(what == 1)
            {
                for(long a = 0; bad.empty(); ++a)
                {
                    error_code e; auto im = vfs::snapshot(); arm(a, false); auto r = attempt([&]{ db.s->insert(k.data(), v.data(), v.size(), e); }); disarm(); h.count("transitions");
                    images(im, "insert");
                    if(r == R::ok){ if(hit) note("an insert swallows a failing allocation", "insert"); if(had ? e != nudb::error::key_exists : bool(e)) note("insert after failing ones gives " + e.message(), "insert"); break; }
                    h.count("failed_allocations");
                    if(r != R::nomem) note("insert throws something else", "insert");
                    if(bad.empty()) note(check_fetch(db, k, m), "after an insert that threw");
                }
            }
            else { ec = {}; db.insert(k, v, ec); if(had ? ec != nudb::error::key_exists : bool(ec)) note("insert gives " + ec.message(), "insert"); }
            if(!had) m[k] = v;
        };
        auto commit = [&](bool closing){
            long n = 0; bool busy = false, off = false;
            // re-entry into the library while close() runs: only as long as the commit lasts
            if(at >= 0) vfs::hook = [&](vfs::Call const& c) -> vfs::Action {
                if(busy || off) return {};
                Mine q;
                if(n++ != at) return {};
                busy = true;
                auto w = "file operation " + std::to_string(at) + " (" + vfs::name(c.sys) + ") of a commit";
                for(int i = 0; i < maxk && bad.empty(); ++i){ note(tfetch(*db.s, orc::mkkey(i), m), w); if(bad.empty()) note(ofetch(*db.s, orc::mkkey(i), m), w); if(bad.empty()) note(check_fetch(db, orc::mkkey(i), m), w); }
                busy = false; return {}; };
            ec = {}; if(closing){ vfs::hook = {}; db.close(ec); } else db.flush();
            vfs::hook = {}; ops = std::max(ops, n);
            if(ec) note("close gives " + ec.message(), "close");
        };
        open(); if(ec || !bad.empty()){ h.fail("exc:open:" + sig(bad), bad + " " + ec.message()); return; }
        for(auto& o : t.ops)
        {
            if(!bad.empty()) break;
            if(o.t == 'I'){ insert(o.k, o.sz); if(what == 0 && at < 0) note(tfetch(*db.s, orc::mkkey(o.k), m), "a pending value"); }
            else if(o.t == 'F'){ if(at < 0) lookups("before a flush"); commit(false); if(at < 0 && bad.empty()) lookups("after a flush"); }
            else if(o.t == 'R'){ commit(true); ec = {}; if(bad.empty()) open(); if(ec) note("reopen: " + ec.message(), "reopen"); if(at < 0 && bad.empty()) lookups("after reopening"); }
        }
        if(bad.empty() && at < 0) lookups("at the end");
        if(bad.empty()) commit(true);
        if(bad.empty())
        {
            auto v = orc::decode(getf(vfs::snapshot(), DP), getf(vfs::snapshot(), KP));
            if(!v.err.empty()) note("files do not decode: " + v.err, "the end"); else if(v.map != m) note("final contents are wrong", "the end");
            if(vfs::open_fds()) note("descriptors left open", "the end");
        }
        if(!bad.empty()){ char b[60]; std::snprintf(b, sizeof b, " what=%d at=%ld", what, at); h.describe(hstr(t) + b); h.fail("exc:" + sig(bad), bad + " (" + where + ")"); }
    });
    vfs::hook = {}; disarm(); libdepth = 0; vfs::drop_fds(); h.count("traces"); h.alive();
    return ops;
}
static void both(H& h, Hist const& t)
{
    h.describe(hstr(t)); if(h.counters["cases"] % 997 == 1) h.sample(h.desc());
    one(h, t, 0, -1); if(!h.sigs.empty()) return;
    one(h, t, 1, -1); if(!h.sigs.empty()) return;
    long n = 1; for(long at = 0; at < n && h.sigs.empty(); ++at) n = one(h, t, 2, at);
}

// ------------------------------------- verify, visit, rekey, recover, create
static std::string mk(Cfg const& c, int n, int sp, std::size_t big, Map& m)
{
    c.use(); vfs::reset(); vfs::random_state_reset(); error_code ec; docreate(c, ec); DB<> db; db.open(ec);
    for(int i = 0; i < n; ++i){ auto k = orc::mkkey(i), v = mkval(i, big && i == n / 2 ? big : vsz(i)); db.insert(k, v, ec); m[k] = v; if(sp && i % sp == sp - 1) db.flush(); }
    db.close(ec); return ec ? ec.message() : std::string{};
}
// Calls f(j, mode): mode 0 throws at the j-th callback, 1 (2) fails the j-th (and every later) allocation.
static void tools(H& h)
{
    h.next("tools");
    bool T = h.thorough();
    for(int mode : {0, 1, 3}) for(int n : {0, 1, 6, 13, 30}) for(int sp : {1, 4, 100}) for(std::size_t big : {0u, 5000u}) for(int ks : {4, 40}) for(int op = 0; op < 5; ++op)
    for(std::size_t buf : {0u, 1u, 300u, 100000u})
    {
        if(op == 1 && buf) continue; if(op == 4 && buf > 1) continue; if(op == 3 && buf) continue;
        if(!T && (n == 30 && (sp == 1 || ks == 40))) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Cfg c; c.mode = mode; c.ks = ks; c.lf = mode == 0 ? 0.5f : 0.95f; Map m;
        static char const* on[] = {"verify", "visit", "rekey", "recover", "create"};
        h.describef("%s: %s n=%d sp=%d big=%zu buf=%zu", on[op], c.str().c_str(), n, sp, big, buf);
        if(h.counters["cases"] % 97 == 1) h.sample(h.desc());
        auto e0 = mk(c, n, sp, big, m); if(!e0.empty()){ h.fail("exc:prepare", e0); return; }
        auto base = vfs::snapshot(); auto want = base;
        if(op == 2){ vfs::remove(KP); base = vfs::snapshot(); }
        if(op == 3)
        {
            // a database whose last commit was cut short
            std::vector<Image> pre; DB<> db; error_code ec; db.open(ec); for(int i = 0; i < 3; ++i) db.insert(orc::mkkey(50 + i), mkval(50 + i, 9), ec);
            long w = 0; vfs::hook = [&](vfs::Call const& q) -> vfs::Action { if(q.sys == vfs::Sys::write && *q.path == KP && w++ == (buf ? 0 : 1)) pre.push_back(vfs::snapshot()); else if(q.sys == vfs::Sys::write && *q.path == KP) pre.push_back(vfs::snapshot()); return {}; };
            db.flush(); vfs::hook = {}; db.close(ec); if(pre.empty()){ h.fail("exc:prepare", "no commit"); return; }
            base = pre.back();
        }
        if(op == 4){ vfs::reset(); base = vfs::snapshot(); }
        std::string bad; auto note = [&](std::string const& s){ if(bad.empty()) bad = s; };
        auto key = c;
        for(int how = 0; how < 3 && bad.empty(); ++how) for(long j = 0; bad.empty(); ++j)
        {
            if(op >= 3 && how == 0) break;
            vfs::load(base); vfs::random_state_reset(); key.use(); error_code ec; long calls = 0; ++boom;
            auto tick = [&]{ if(how == 0 && calls++ == j) throw Boom{boom}; };
            auto progress = [&](u64, u64){ tick(); };
            Map seen; auto h0 = held; R r = R::ok;
            bool fine = guarded(h, on[op], [&]{
                if(how) arm(j, how == 2);
                r = attempt([&]{ switch(op)
                {
                case 0: { nudb::verify_info vi; nudb::verify<MHash>(vi, DP, KP, buf, progress, ec); break; }
                case 1: nudb::visit(DP, [&](void const* k, std::size_t kz, void const* v, std::size_t vz, error_code&){ { Mine q; seen[std::string((char const*)k, kz)] = std::string((char const*)v, vz); } tick(); }, progress, ec); break;
                case 2: nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, c.bs, c.lf, std::max<u64>(n, 1), std::max<std::size_t>(buf, 1), ec, progress); break;
                case 3: nudb::recover<MHash>(DP, KP, LP, ec); break;
                case 4: nudb::create<MHash>(DP, KP, LP, c.app, c.uid, c.salt, c.ks, c.bs, c.lf, ec); break;
                } });
                disarm();
            });
            h.count("transitions"); h.count("traces"); h.state(vfs::snapshot().hash());
            if(!fine) return;
            bool done = r == R::ok && !(how ? hit : calls > j);
            if(vfs::open_fds()){ note("descriptors left open"); break; }
            if(r == R::ok && !done){ note(how ? "a failing allocation is swallowed" : "the exception of a callback does not reach the caller"); break; }
            if(r == R::other){ note("another exception reaches the caller"); break; }
            if(done && ec){ note("fails without an exception: " + ec.message()); break; }
            if(held != h0) note("memory is kept");
            auto im = vfs::snapshot();
            if(!done) h.count(how ? "failed_allocations" : "throwing_callbacks"); h.nontrivial(im.hash() * 131 + j * 3 + how);
            if(op <= 1){ if(!(im == base)) note("files change"); if(done && op == 1 && seen != m) note("visit after failing ones misses records"); for(auto& s : seen) if(!m.count(s.first) || m[s.first] != s.second) note("visit shows a wrong record"); }
            else if(op == 2)
            {
                if(getf(im, DP).compare(0, getf(base, DP).size(), getf(base, DP))) note("existing data file bytes change");
                if(!done)
                {
                    error_code e; guarded(h, "recover after an exception", [&]{ nudb::recover<MHash>(DP, KP, LP, e); });
                    if(e && e != nudb::error::no_key_file && e != boost::system::errc::no_such_file_or_directory) note("recover after an exception in rekey: " + e.message());
                    auto i2 = vfs::snapshot(); if(getf(i2, DP) != getf(base, DP)) note("recover after an exception in rekey does not restore the data file");
                    if(i2.has(KP) || i2.has(LP)) note("files of an unfinished rekey remain after recover");
                    e = {}; guarded(h, "rekey again", [&]{ nudb::rekey<MHash, nudb::native_file>(DP, KP, LP, c.bs, c.lf, std::max<u64>(n, 1), std::max<std::size_t>(buf, 1), e, nudb::no_progress{}); });
                    if(e) note("rekey again fails: " + e.message());
                }
            }
            else if(op == 3)
            {
                if(!done){ error_code e; guarded(h, "recover again", [&]{ nudb::recover<MHash>(DP, KP, LP, e); }); if(e) note("recover again fails: " + e.message()); }
                if(vfs::exists(LP)) note("the log remains");
            }
            else if(!done)
            {
                // the files of a create that threw, if any, are not taken for a database with contents
                for(auto& p : {DP, KP, LP}) vfs::remove(p);
                error_code e; nudb::create<MHash>(DP, KP, LP, c.app, c.uid, c.salt, c.ks, c.bs, c.lf, e); if(e) note("create again: " + e.message());
            }
            if(bad.empty() && op >= 2)
            {
                auto i2 = vfs::snapshot(); auto v = orc::decode(getf(i2, DP), getf(i2, KP));
                if(!v.err.empty()) note("files do not decode: " + v.err); else if(v.map != (op == 4 ? Map{} : m)) note("contents are wrong");
                if(bad.empty()) guarded(h, "use afterwards", [&]{ DB<> db; error_code e; db.open(e); if(e){ note("open afterwards: " + e.message()); return; } auto x = all(db, 12, op == 4 ? Map{} : m); if(!x.empty()) note(x); db.close(e); });
            }
            if(!bad.empty()){ char b[60]; std::snprintf(b, sizeof b, " how=%d j=%ld", how, j); h.append(b); break; }
            if(done) break;
            h.alive();
        }
        if(!bad.empty()) h.fail(std::string("exc:") + on[op] + ":" + sig(bad), std::string(on[op]) + ": " + bad);
        vfs::drop_fds();
    }
}

int main(int argc, char** argv)
{
    H h(argc, argv, "C25"); g = &h;
    auto f = [&](Hist const& t){ both(h, t); };
    bool small = !h.arg("small").empty();
    int sc = h.thorough() ? (small ? 0 : 1) : small ? -1 : 0;
    tools(h);
    hist_masks(h, sc, f); hist_hashes(h, sc, f); hist_values(h, sc, f); hist_ops(h, sc, f); hist_dims(h, h.thorough() ? 0 : -1, f);
    h.finish();
}
