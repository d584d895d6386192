// Independent reader/writer of the documented NuDB file format, reference
// xxHash64, and the harness hash function.  Uses nothing from /repo.
#pragma once
#include "vfs.hpp"
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace orc {
using u64 = std::uint64_t; using u32 = std::uint32_t; using u8 = unsigned char;

// ------------------------------------------------ xxHash64, from its specification
inline u64 rotl(u64 x, int r){ return (x << r) | (x >> (64 - r)); }
inline u64 le64(u8 const* p){ u64 v = 0; for(int i = 7; i >= 0; --i) v = v << 8 | p[i]; return v; }
inline u32 le32(u8 const* p){ u32 v = 0; for(int i = 3; i >= 0; --i) v = v << 8 | p[i]; return v; }
inline u64 xxh64(void const* data, std::size_t n, u64 seed)
{
    const u64 P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull, P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
    auto p = static_cast<u8 const*>(data), e = p + n;
    u64 h;
    auto round = [&](u64 acc, u64 v){ acc += v * P2; acc = rotl(acc, 31); return acc * P1; };
    if(n >= 32)
    {
        u64 a[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        while(e - p >= 32){ for(int i = 0; i < 4; ++i) a[i] = round(a[i], le64(p + 8 * i)); p += 32; }
        h = rotl(a[0], 1) + rotl(a[1], 7) + rotl(a[2], 12) + rotl(a[3], 18);
        for(int i = 0; i < 4; ++i){ h ^= round(0, a[i]); h = h * P1 + P4; }
    }
    else h = seed + P5;
    h += n;
    while(e - p >= 8){ h ^= round(0, le64(p)); h = rotl(h, 27) * P1 + P4; p += 8; }
    if(e - p >= 4){ h ^= u64(le32(p)) * P1; h = rotl(h, 23) * P2 + P3; p += 4; }
    while(p < e){ h ^= *p++ * P5; h = rotl(h, 11) * P1; }
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
    return h;
}

// ------------------------------------------------ the harness hash function
// Keys carry an index; the mode maps the index to a 48 bit hash.
struct HashCfg {
    int mode = 0;
    std::vector<u64> table;      // mode 4
    std::size_t key_size = 4;
    bool first = false;          // index in the first bytes (else last)
};
inline HashCfg& hc(){ static HashCfg c; return c; }
inline std::string mkkey(u64 idx)
{
    auto& c = hc(); std::string k(c.key_size, '\0');
    for(std::size_t j = 0; j < c.key_size; ++j) k[j] = char(0x41 + j * 7);
    // up to 3 bytes of index, big end first
    std::size_t nb = std::min<std::size_t>(3, c.key_size);
    for(std::size_t j = 0; j < nb; ++j)
    {
        u8 b = idx >> (8 * j);
        if(c.first) k[j] = b; else k[c.key_size - 1 - j] = b;
    }
    return k;
}
inline u64 keyidx(void const* key, std::size_t n)
{
    auto& c = hc(); auto p = static_cast<u8 const*>(key); u64 idx = 0;
    std::size_t nb = std::min<std::size_t>(3, n);
    for(std::size_t j = 0; j < nb; ++j) idx |= u64(c.first ? p[j] : p[n - 1 - j]) << (8 * j);
    return idx;
}
inline u64 h48_of(u64 idx)
{
    auto& c = hc();
    switch(c.mode)
    {
    case 0: return (idx | ((idx * 2654435761u & 0xffff) << 16) | ((idx * 40503u & 0xffff) << 32)) & 0xffffffffffffull;
    case 1: return 0xffffffffffffull;
    case 2: return (idx / 2) | (((idx / 2) * 40503u & 0xffff) << 32);
    case 3: return (idx << 33) & 0xffffffffffffull;
    case 4: return idx < c.table.size() ? c.table[idx] : (idx * 0x9E3779B97F4A7C15ull) & 0xffffffffffffull;
    case 6: return 0;
    case 7: return (0xffffffffffffull - idx * 3) & 0xffffffffffffull;
    }
    return 0;
}
// the full hash function as the library sees it
inline u64 hash64(u64 salt, void const* key, std::size_t n)
{
    auto& c = hc();
    if(c.mode == 5) return xxh64(key, n, salt);
    if(n == 8 && le64(static_cast<u8 const*>(key)) == salt) return salt * 0x9E3779B97F4A7C15ull ^ 0x5bd1e995;
    u64 idx = keyidx(key, n);
    return h48_of(idx) << 16 | (0xffff - (idx * 977 & 0xffff));
}
struct MHash {
    u64 salt;
    explicit MHash(u64 s) : salt(s) {}
    u64 operator()(void const* p, std::size_t n) const noexcept { return hash64(salt, p, n); }
};
inline u64 pepper(u64 salt){ u8 b[8]; for(int i = 0; i < 8; ++i) b[i] = salt >> (8 * i); return hash64(salt, b, 8); }

// ------------------------------------------------ decoding
inline u64 be(u8 const* p, int n){ u64 v = 0; for(int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
inline u64 be(std::string const& s, std::size_t o, int n){ return be(reinterpret_cast<u8 const*>(s.data()) + o, n); }
inline void put(std::string& s, u64 v, int n){ for(int i = n - 1; i >= 0; --i) s += char(v >> (8 * i)); }

struct Rec { u64 off; std::string key, val; };
struct Spill { u64 off; u64 size; std::string body; };       // off: offset of the record (zero field)
struct Ent { u64 off, size, hash; };
struct Bkt { std::vector<Ent> e; u64 spill = 0; };
struct View {
    std::string err;                 // empty if everything decodes and is consistent
    // headers
    u64 ver = 0, uid = 0, app = 0, ks = 0, salt = 0, pep = 0, bs = 0, lf = 0, cap = 0, buckets = 0, modulus = 0;
    std::vector<Rec> recs; std::vector<Spill> spills;
    std::vector<std::vector<Bkt>> chains;   // per bucket: key file bucket then spills
    std::vector<std::vector<u64>> chainOffs; // offsets of spill bodies in chain order
    u64 dsize = 0, ksize = 0;
    std::map<std::string,std::string> map;
};
inline u64 capacity_of(u64 bs){ return bs < 104 || bs < 8 ? 0 : (bs - 8) / 18; }
inline u64 bsize(u64 cap){ return 8 + 18 * cap; }
inline u64 pow2ceil(u64 n){ u64 m = 1; while(m < n) m *= 2; return m; }
inline u64 bindex(u64 h, u64 buckets, u64 mod){ u64 n = h % mod; if(n >= buckets) n -= mod / 2; return n; }
inline Bkt rdbkt(std::string const& s, std::size_t o)
{
    Bkt b; u64 n = be(s, o, 2); b.spill = be(s, o + 2, 6);
    for(u64 i = 0; i < n && o + 8 + 18 * (i + 1) <= s.size(); ++i)
        b.e.push_back({be(s, o + 8 + 18 * i, 6), be(s, o + 14 + 18 * i, 6), be(s, o + 20 + 18 * i, 6)});
    return b;
}
// Decode the data file alone.
inline std::string decode_dat(std::string const& d, View& v)
{
    if(d.size() < 92) return "data file shorter than its header";
    if(d.compare(0, 8, "nudb.dat")) return "data file type";
    v.ver = be(d, 8, 2); v.uid = be(d, 10, 8); v.app = be(d, 18, 8); v.ks = be(d, 26, 2);
    if(v.ver != 2) return "data file version";
    if(v.ks < 1) return "key size 0";
    for(int i = 28; i < 92; ++i) if(d[i]) return "data header reserved bytes not zero";
    v.dsize = d.size();
    u64 o = 92;
    while(o < d.size())
    {
        if(o + 6 > d.size()) return "truncated record at " + std::to_string(o);
        u64 n = be(d, o, 6);
        if(n)
        {
            if(o + 6 + v.ks + n > d.size()) return "record passes end of data file at " + std::to_string(o);
            Rec r; r.off = o; r.key = d.substr(o + 6, v.ks); r.val = d.substr(o + 6 + v.ks, n);
            if(!v.map.emplace(r.key, r.val).second) return "duplicate key in data file";
            v.recs.push_back(std::move(r)); o += 6 + v.ks + n;
        }
        else
        {
            if(o + 8 > d.size()) return "truncated spill record";
            u64 m = be(d, o + 6, 2);
            if(o + 8 + m > d.size()) return "spill passes end of data file";
            v.spills.push_back({o, m, d.substr(o + 8, m)}); o += 8 + m;
        }
    }
    return {};
}
// Decode both files and check every structural rule of the format.
inline View decode(std::string const& d, std::string const& k, bool strictOrder = true)
{
    View v;
    v.err = decode_dat(d, v); if(!v.err.empty()) return v;
    auto E = [&](std::string const& s){ if(v.err.empty()) v.err = s; };
    if(k.size() < 104){ E("key file shorter than its header"); return v; }
    if(k.compare(0, 8, "nudb.key")){ E("key file type"); return v; }
    if(be(k, 8, 2) != 2) E("key file version");
    if(be(k, 10, 8) != v.uid) E("uid differs"); if(be(k, 18, 8) != v.app) E("appnum differs"); if(be(k, 26, 2) != v.ks) E("key size differs");
    v.salt = be(k, 28, 8); v.pep = be(k, 36, 8); v.bs = be(k, 44, 2); v.lf = be(k, 46, 2); v.ksize = k.size();
    if(v.pep != pepper(v.salt)) E("pepper is not the hash of the salt");
    if(v.lf < 1) E("load factor 0");
    v.cap = capacity_of(v.bs); if(v.cap < 1){ E("block size"); return v; }
    if(k.size() % v.bs || k.size() < 2 * v.bs){ E("key file size not a multiple of the block size"); return v; }
    for(u64 i = 48; i < v.bs; ++i) if(k[i]){ E("key header padding not zero"); break; }
    v.buckets = k.size() / v.bs - 1; v.modulus = pow2ceil(v.buckets);
    std::map<u64, Rec const*> at; for(auto& r : v.recs) at[r.off] = &r;
    std::map<u64, Spill const*> sat; for(auto& s : v.spills) sat[s.off + 8] = &s;
    std::set<u64> seen; std::set<u64> seenSpill;
    v.chains.resize(v.buckets); v.chainOffs.resize(v.buckets);
    for(u64 n = 0; n < v.buckets; ++n)
    {
        u64 o = (n + 1) * v.bs; u64 cnt = be(k, o, 2);
        if(cnt > v.cap){ E("bucket count exceeds capacity"); return v; }
        Bkt b = rdbkt(k, o);
        for(u64 i = 8 + 18 * cnt; i < v.bs; ++i) if(k[o + i]){ E("bucket padding not zero in bucket " + std::to_string(n)); break; }
        v.chains[n].push_back(b);
        u64 sp = b.spill;
        while(sp)
        {
            auto it = sat.find(sp);
            if(it == sat.end()){ E("spill pointer does not point at a spill record"); return v; }
            if(!seenSpill.insert(sp).second){ E("spill record used twice"); return v; }
            auto& body = it->second->body;
            if(body.size() < bsize(0)){ E("spill too small"); return v; }
            u64 c2 = be(body, 0, 2);
            if(c2 > v.cap || body.size() < bsize(c2)){ E("spill count"); return v; }
            v.chains[n].push_back(rdbkt(body, 0)); v.chainOffs[n].push_back(sp);
            sp = v.chains[n].back().spill;
        }
        for(auto& c : v.chains[n])
        {
            u64 prev = 0; bool first = true;
            for(auto& e : c.e)
            {
                if(!first && e.hash < prev) E("entries not sorted by hash");
                first = false; prev = e.hash;
                auto it = at.find(e.off);
                if(it == at.end()){ E("entry points at no record"); continue; }
                if(!seen.insert(e.off).second) E("record indexed twice");
                if(it->second->val.size() != e.size) E("entry size differs from record");
                u64 h = hash64(v.salt, it->second->key.data(), v.ks) >> 16;
                if(h != e.hash) E("entry hash differs from key hash");
                if(bindex(h, v.buckets, v.modulus) != n) E("entry in wrong bucket");
            }
        }
    }
    if(seen.size() != v.recs.size()) E("record not indexed");
    (void)strictOrder;
    return v;
}
// ------------------------------------------------ encoding
inline std::string enc_dat_header(u64 uid, u64 app, u64 ks)
{ std::string s = "nudb.dat"; put(s, 2, 2); put(s, uid, 8); put(s, app, 8); put(s, ks, 2); s.resize(92, '\0'); return s; }
inline std::string enc_key_header(u64 uid, u64 app, u64 ks, u64 salt, u64 pep, u64 bs, u64 lf)
{ std::string s = "nudb.key"; put(s, 2, 2); put(s, uid, 8); put(s, app, 8); put(s, ks, 2); put(s, salt, 8); put(s, pep, 8); put(s, bs, 2); put(s, lf, 2); s.resize(bs, '\0'); return s; }
inline std::string enc_log_header(u64 uid, u64 app, u64 ks, u64 salt, u64 pep, u64 bs, u64 kfs, u64 dfs)
{ std::string s = "nudb.log"; put(s, 2, 2); put(s, uid, 8); put(s, app, 8); put(s, ks, 2); put(s, salt, 8); put(s, pep, 8); put(s, bs, 2); put(s, kfs, 8); put(s, dfs, 8); return s; }
inline std::string enc_bucket(Bkt const& b, u64 padto = 0)
{ std::string s; put(s, b.e.size(), 2); put(s, b.spill, 6); for(auto& e : b.e){ put(s, e.off, 6); put(s, e.size, 6); put(s, e.hash, 6); } if(s.size() < padto) s.resize(padto, '\0'); return s; }
inline std::string enc_rec(std::string const& k, std::string const& v){ std::string s; put(s, v.size(), 6); return s + k + v; }
inline std::string enc_spill(Bkt const& b){ std::string body = enc_bucket(b), s; put(s, 0, 6); put(s, body.size(), 2); return s + body; }
} // orc
