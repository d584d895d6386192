// Driving the real library on the VFS.
#pragma once
#include "../engine/h.hpp"
#include "../engine/oracle.hpp"
#include <nudb/nudb.hpp>
#include <cassert>
#include <memory>
#include <set>

using nudb::error_code;
using orc::MHash;
#ifdef LONG_NAMES       // copies of the paths take memory
static std::string const DP = "/vfs/a/some-database.dat", KP = "/vfs/b/some-database.key", LP = "/vfs/c/some-database.log";
#else
static std::string const DP = "/vfs/a/db.dat", KP = "/vfs/b/db.key", LP = "/vfs/c/db.log";
#endif

struct Cfg {
    std::size_t ks = 4, bs = 104;
    float lf = 0.5f;
    int mode = 0;
    bool first = false;
    std::uint64_t salt = 0x0123456789abcdefull, uid = 0x1122334455667788ull, app = 0xfedcba9876543210ull;
    std::vector<orc::u64> table;
    std::string str() const
    {
        char b[160]; std::snprintf(b, sizeof b, "ks=%zu bs=%zu lf=%g hash=%d first=%d", ks, bs, (double)lf, mode, (int)first);
        std::string s = b;
        if(mode == 4){ s += " table="; for(auto t : table){ std::snprintf(b, sizeof b, "%llx,", (unsigned long long)t); s += b; } }
        return s;
    }
    void use() const { auto& c = orc::hc(); c.mode = mode; c.key_size = ks; c.first = first; c.table = table; }
};

inline std::string mkval(std::uint64_t idx, std::size_t n, unsigned ver = 0)
{
    std::string v(n, '\0');
    for(std::size_t j = 0; j < n; ++j) v[j] = char(idx * 131 + j * 7 + (j >> 8) * 13 + ver * 61 + n + 1);
    return v;
}
// default value size of key idx: varied small sizes
inline std::size_t vsz(std::uint64_t idx){ return 1 + (idx * 5) % 17; }

using Map = std::map<std::string, std::string>;

inline void docreate(Cfg const& c, error_code& ec)
{
    c.use();
    nudb::create<MHash>(DP, KP, LP, c.app, c.uid, c.salt, c.ks, c.bs, c.lf, ec);
}

// A store driven deterministically: commits happen in flush() and close() only.
template<class Hasher = MHash>
struct DB {
    using store = nudb::basic_store<Hasher, nudb::native_file>;
    std::unique_ptr<nudb::context> ctx{new nudb::context};
    std::unique_ptr<store> s{new store(*ctx)};
    void open(error_code& ec){ s->open(DP, KP, LP, ec); }
    void flush(){ ctx->flush(); }
    void close(error_code& ec){ s->close(ec); }
    bool is_open() const { return s->is_open(); }
    void insert(std::string const& k, std::string const& v, error_code& ec)
    {
        // pass copies and scribble over them afterwards
        std::unique_ptr<char[]> kb(new char[k.size()]), vb(new char[v.size()]);
        std::memcpy(kb.get(), k.data(), k.size()); std::memcpy(vb.get(), v.data(), v.size());
        s->insert(kb.get(), vb.get(), v.size(), ec);
        std::memset(kb.get(), 0xEE, k.size()); std::memset(vb.get(), 0xEE, v.size());
    }
    // returns number of callbacks; value of the last in out
    int fetch(std::string const& k, std::string& out, error_code& ec)
    {
        std::unique_ptr<char[]> kb(new char[k.size()]);
        std::memcpy(kb.get(), k.data(), k.size());
        int n = 0;
        s->fetch(kb.get(), [&](void const* p, std::size_t sz){ ++n; out.assign((char const*)p, sz); }, ec);
        return n;
    }
    // after a failed assertion inside the library its locks may be held: leave the objects alone
    ~DB(){ if(std::uncaught_exceptions()){ s.release(); ctx.release(); return; } s.reset(); ctx.reset(); }
};

// Compare one fetch with the expected state.  Returns an error description.
template<class D>
std::string check_fetch(D& db, std::string const& k, Map const& m)
{
    error_code ec; std::string got; int n = db.fetch(k, got, ec);
    auto it = m.find(k);
    if(it != m.end())
    {
        if(ec) return "fetch of a present key failed: " + ec.message();
        if(n != 1) return "fetch of a present key made " + std::to_string(n) + " callbacks";
        if(got != it->second) return "fetch returned wrong bytes: " + hex(got) + " expected " + hex(it->second);
    }
    else
    {
        if(n) return "fetch of an absent key made a callback";
        if(ec != nudb::error::key_not_found) return "fetch of an absent key: expected key_not_found, got " + (ec ? ec.message() : std::string("success"));
    }
    return {};
}
inline std::string getf(vfs::Image const& m, std::string const& p)
{ auto it = m.files.find(p); return it == m.files.end() ? std::string{} : it->second.str(); }

inline bool is_short(std::string const& s){ return s.empty(); }
// Signature helper: strip digits so that equal defects share a signature.
inline std::string sig(std::string s){ std::string o; for(char c : s) if(!(c >= '0' && c <= '9')) o += c; return o.substr(0, 90); }
