// Bounded enumeration of operation histories, shared by several checks.
#pragma once
#include "db.hpp"

struct HOp { char t; int k; std::size_t sz; };      // I insert, F flush, R close+open, C open again after destroy, T time passes (k ms)
struct Hist { Cfg cfg; std::vector<HOp> ops; int nkeys = 0; };

inline std::string hstr(Hist const& h)
{
    std::string s = h.cfg.str() + " ops=";
    char b[40];
    for(auto& o : h.ops)
    {
        if(o.t == 'I'){ std::snprintf(b, sizeof b, o.sz == vsz(o.k) ? "I%d " : "I%d:%zu ", o.k, o.sz); s += b; }
        else if(o.t == 'T'){ std::snprintf(b, sizeof b, "T%d ", o.k); s += b; }
        else { s += o.t; s += ' '; }
    }
    return s;
}
inline HOp I(int k){ return {'I', k, vsz(k)}; }
inline HOp Iz(int k, std::size_t n){ return {'I', k, n}; }
static HOp const OF{'F',0,0}, OR{'R',0,0};

// depth levels: scale 0 = small (crash/fault products), 1 = quick, 2 = thorough
template<class Fn>
void hist_ops(H& h, int scale, Fn&& fn)
{
    // all operation sequences over {insert k0..k3, flush, reopen} from several prefixes
    int L = scale < 0 ? 2 : scale == 0 ? 3 : scale == 1 ? 4 : 6;
    std::vector<std::vector<HOp>> pre;
    pre.push_back({});
    { std::vector<HOp> p; for(int i = 10; i < 15; ++i) p.push_back(I(i)); p.push_back(OF); pre.push_back(p); }         // full bucket
    { std::vector<HOp> p; for(int i = 10; i < 21; ++i) p.push_back(I(i)); p.push_back(OF); pre.push_back(p); }         // spilled
    { std::vector<HOp> p; for(int i = 10; i < 22; ++i){ p.push_back(I(i)); if(i % 3 == 0) p.push_back(OF); } pre.push_back(p); } // memory + disk
    struct M { int mode; float lf; };
    std::vector<M> ms = {{0,0.5f},{1,0.5f},{1,0.99f},{2,0.99f},{3,0.99f}};
    if(scale <= 0) ms = {{0,0.5f},{1,0.99f}};
    if(scale == 2){ ms.push_back({6,0.25f}); ms.push_back({7,0.75f}); ms.push_back({0,0.99f}); }
    h.next("ops");
    std::uint64_t n = 1; for(int i = 0; i < L; ++i) n *= 6;
    for(auto& m : ms) for(std::size_t p = 0; p < pre.size(); ++p) for(std::uint64_t x = 0; x < n; ++x)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = m.mode; t.cfg.lf = m.lf; t.ops = pre[p]; t.nkeys = 22;
        std::uint64_t y = x;
        for(int i = 0; i < L; ++i){ int a = y % 6; y /= 6; t.ops.push_back(a < 4 ? I(a) : a == 4 ? OF : OR); }
        fn(t);
    }
}
template<class Fn>
void hist_masks(H& h, int scale, Fn&& fn)
{
    // n distinct inserts with every placement of {nothing, flush, reopen} between them
    int n = scale < -1 ? 2 : scale < 0 ? 4 : scale == 0 ? 6 : scale == 1 ? 7 : 9;
    std::vector<std::pair<std::size_t,float>> bl = {{104,0.5f},{104,0.99f},{122,0.8f},{104,0.1f}};
    std::vector<int> modes = {0,1,2,3,6,7};
    if(scale <= 0){ bl = {{104,0.5f},{104,0.99f}}; modes = {0,1,3}; }
    h.next("mask3");
    std::uint64_t c = 1; for(int i = 0; i < n; ++i) c *= 3;
    for(auto& b : bl) for(int m : modes) for(std::uint64_t x = 0; x < c; ++x)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = m; t.cfg.bs = b.first; t.cfg.lf = b.second; t.nkeys = n + 1;
        std::uint64_t y = x;
        for(int i = 0; i < n; ++i){ t.ops.push_back(I(i)); int a = y % 3; y /= 3; if(a == 1) t.ops.push_back(OF); if(a == 2) t.ops.push_back(OR); }
        fn(t);
    }
    int n2 = scale < -1 ? 3 : scale < 0 ? 7 : scale == 0 ? 9 : scale == 1 ? 12 : 17;
    h.next("mask2");
    std::vector<std::pair<int,float>> ml = {{1,0.99f},{3,0.6f}};
    if(scale >= 1) ml.push_back({0,0.35f});
    for(auto& m : ml) for(std::uint64_t x = 0; x < (1ull << (n2 - 1)); ++x)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = m.first; t.cfg.lf = m.second; t.nkeys = n2 + 1;
        for(int i = 0; i < n2; ++i){ t.ops.push_back(I(i)); if(i == n2 - 1 || (x >> i & 1)) t.ops.push_back(OF); }
        fn(t);
    }
}
template<class Fn>
void hist_hashes(H& h, int scale, Fn&& fn)
{
    // every assignment of keys to hash classes related by splitting
    static orc::u64 const cls[] = {0, 1, 2, 0x800000000000ull, 0xffffffffffffull, 4};
    int n = scale < 0 ? 4 : scale == 0 ? 5 : scale == 1 ? 7 : 9, c = scale == 2 ? 4 : 4;
    std::vector<std::pair<float,int>> lf = {{0.5f,100},{0.99f,3},{0.3f,4}};
    if(scale <= 0) lf = {{0.6f,3}};
    std::uint64_t N = 1; for(int i = 0; i < n; ++i) N *= c;
    h.next("hash");
    for(auto& l : lf) for(std::uint64_t x = 0; x < N; ++x)
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = 4; t.cfg.lf = l.first; t.nkeys = n + 3;
        std::uint64_t y = x;
        t.cfg.table.resize(n + 3);
        for(int i = 0; i < n; ++i){ t.cfg.table[i] = cls[y % c]; y /= c; }
        t.cfg.table[n] = 0; t.cfg.table[n + 1] = 1; t.cfg.table[n + 2] = 0xffffffffffffull;
        // preload colliding keys so that buckets are nearly full
        for(int i = 0; i < n; ++i){ t.ops.push_back(I(i)); if((i + 1) % l.second == 0) t.ops.push_back(OF); }
        t.ops.push_back(OF);
        fn(t);
    }
}
template<class Fn>
void hist_values(H& h, int scale, Fn&& fn)
{
    // value sizes around every buffer boundary
    std::vector<std::size_t> v = {1,2,255,256,4095,4096,65535,65536,131051,131052,131061,131062,131063,131066,131071,131072,131073,262144,300001};
    if(scale == 0) v = {1,4096,131062,131063}; if(scale < 0) v = {1,131063};
    h.next("values");
    for(auto a : v) for(auto b : v) for(auto c : v)
    {
        if(scale == 1 && !(a == b || b == c || a == 1 || b == 1 || c == 1 || a + b > 131000)) continue;
        if(scale == 1 && ((a > 200000) + (b > 200000) + (c > 200000) > 1)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.nkeys = 4; t.cfg.lf = 0.3f;
        t.ops = {Iz(0,a), Iz(1,b), Iz(2,c), OF, OR};
        fn(t);
    }
    // splits that read a spill still in the write buffer, behind and beyond a big value
    h.next("bigspill");
    for(auto a : v) for(int pos = 0; pos < 14; ++pos) for(float lf : {0.99f, 0.5f}) for(int fl = 0; fl < 3; ++fl) for(int mode : {1,3})
    {
        if(scale <= 0) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.nkeys = 15; t.cfg.mode = mode; t.cfg.lf = lf;
        for(int i = 0; i < 14; ++i){ t.ops.push_back(i == pos ? Iz(i, a) : I(i)); if(fl && (i + 1) % (fl * 5) == 0) t.ops.push_back(OF); }
        t.ops.push_back(OF);
        fn(t);
    }
}
// Value sizes of up to four records that put record headers, keys and values at
// every interesting position relative to the end of a read buffer of R bytes.
template<class Fn>
void read_buffer_cases(std::size_t R, std::size_t ks, bool dense, Fn&& fn)
{
    std::size_t ov = 6 + ks;
    std::vector<std::size_t> v = {1, 100, R / 2, R - ov - 1, R - ov, R - ov + 1, R, 2 * R + 5};
    for(auto a : v) for(auto b : v) for(auto c : v) if(dense || (a > 1) + (b > 1) + (c > 1) < 3 || a == b) fn(std::vector<std::size_t>{a, b, c});
    // the second record starts d bytes before the end of the buffer
    for(std::size_t d = 0; d <= 2 * ov + 2; ++d) for(auto b : {std::size_t(1), std::size_t(3000), R, R + 7}) fn(std::vector<std::size_t>{R - ov - d, b, 5});
}
template<class Fn>
void hist_dims(H& h, int scale, Fn&& fn)
{
    // key sizes, block sizes, load factors
    h.next("keysize");
    std::vector<std::size_t> ks; for(std::size_t i = 1; i <= 72; ++i) ks.push_back(i);
    for(std::size_t i : {100,127,128,255,256,257,1000,4095,4096,32768,65535}) ks.push_back(i);
    if(scale <= 0) ks = {1,8,32,300};
    for(auto k : ks) for(int first = 0; first < 2; ++first) for(int mode : {0,1,5})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.ks = k; t.cfg.first = first; t.cfg.mode = mode; t.nkeys = 14;
        for(int i = 0; i < 12; ++i){ t.ops.push_back(I(i)); if(i % 5 == 4) t.ops.push_back(OF); if(i == 7) t.ops.push_back(OR); }
        t.ops.push_back(OF);
        fn(t);
    }
    h.next("blocksize");
    std::vector<std::size_t> bs; for(std::size_t i = 104; i <= (scale == 2 ? 420u : 160u); ++i) bs.push_back(i);
    for(std::size_t i : {255,256,257,511,512,513,1024,4096,8192,16384,32768,65534,65535}) bs.push_back(i);
    if(scale <= 0) bs = {104,121,122,512};
    for(auto b : bs) for(float lf : {0.0005f,0.1f,0.25f,0.5f,0.75f,0.9f,0.999f}) for(int mode : {0,1,3})
    {
        if(scale <= 0 && lf != 0.5f) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.bs = b; t.cfg.lf = lf; t.cfg.mode = mode; t.nkeys = 28;
        int n = b < 600 && scale >= 0 ? 26 : 12;
        for(int i = 0; i < n; ++i){ t.ops.push_back(I(i)); if(i % 7 == 6) t.ops.push_back(OF); if(i == 10) t.ops.push_back(OR); }
        t.ops.push_back(OF);
        fn(t);
    }
    // growth: many inserts flushed every j
    h.next("growth");
    int n = scale < 0 ? 14 : scale == 0 ? 40 : scale == 1 ? 70 : 200;
    for(int j = 1; j <= (scale <= 0 ? 3 : 40); ++j) for(int mode : {0,1,2,3,5,6,7}) for(float lf : {0.99f,0.5f,0.2f}) for(std::size_t b : {104u,140u})
    {
        if(scale <= 0 && (b != 104 || lf == 0.2f)) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = mode; t.cfg.lf = lf; t.cfg.bs = b; t.nkeys = n + 2;
        for(int i = 0; i < n; ++i){ t.ops.push_back(I(i)); if(i % j == j - 1) t.ops.push_back(OF); if(i == n / 2) t.ops.push_back(OR); }
        t.ops.push_back(OF);
        fn(t);
    }
}
// time passes between operations: the library tunes its memory blocks by the rate of inserts
template<class Fn>
void hist_clock(H& h, int scale, Fn&& fn)
{
    int L = scale < 2 ? 5 : 6;
    h.next("clock");
    std::uint64_t n = 1; for(int i = 0; i < L; ++i) n *= 8;
    for(int mode : {0, 1}) for(std::size_t ks : {4u, 33u}) for(std::uint64_t x = 0; x < n; ++x)
    {
        if(mode == 1 && ks == 33) continue;
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; t.cfg.mode = mode; t.cfg.ks = ks; int k = 0; std::uint64_t y = x;
        for(int i = 0; i < L; ++i)
        {
            int a = y % 8; y /= 8;
            switch(a)
            {
            case 0: t.ops.push_back(I(k++)); break;
            case 1: for(int q = 0; q < 9; ++q){ t.ops.push_back(Iz(k, 1 + (k * 7) % 40)); ++k; } break;
            case 2: t.ops.push_back(Iz(k++, 5000)); t.ops.push_back(Iz(k++, 3)); break;
            case 3: t.ops.push_back(OF); break;
            case 4: t.ops.push_back({'T', 499, 0}); break;
            case 5: t.ops.push_back({'T', 600, 0}); t.ops.push_back(OF); break;
            case 6: for(int q = 0; q < 6; ++q){ t.ops.push_back({'T', 100000, 0}); t.ops.push_back(OF); } break;
            case 7: t.ops.push_back(OR); break;
            }
        }
        t.ops.push_back(I(k++)); t.nkeys = k + 1;
        fn(t);
    }
    // long histories: the block size walks up and down
    h.next("clocklong");
    for(int up : {1, 3, 30}) for(int down : {1, 12, 40}) for(std::size_t z : {8u, 700u, 70000u}) for(int rounds : {1, 3}) for(int ms : {499, 500, 2000})
    {
        if(!h.next()) { if(h.stop()) return; continue; }
        Hist t; int k = 0;
        for(int r = 0; r < rounds; ++r)
        {
            for(int u = 0; u < up && k < 40; ++u){ for(int q = 0; q < 3; ++q) t.ops.push_back(Iz(k++, z + q)); t.ops.push_back({'T', ms, 0}); t.ops.push_back(OF); }
            for(int d = 0; d < down; ++d){ t.ops.push_back({'T', ms, 0}); t.ops.push_back(OF); }
            t.ops.push_back(I(k++)); t.ops.push_back(I(k++));
        }
        t.nkeys = k + 1; fn(t);
    }
}
template<class Fn>
void all_hist(H& h, int scale, Fn&& fn)
{
    hist_ops(h, scale, fn); hist_masks(h, scale, fn); hist_hashes(h, scale, fn); hist_values(h, scale, fn); hist_dims(h, scale, fn);
}
