// Crash image enumeration over a log of file system operations.
#pragma once
#include "db.hpp"
#include <unordered_map>

namespace crash {
using vfs::Op; using vfs::OpKind; using vfs::Disk; using vfs::Image; using vfs::u64;

// torn prefix lengths of a write of n bytes (excluding 0 and n)
// level 0: sparse, 1: dense ends, 2: thorough
inline std::vector<u64> torn_points(u64 n, int level)
{
    std::vector<u64> t; bool thorough = level == 2;
    if(level == 0){ std::set<u64> s; for(u64 i : {u64(1), u64(6), u64(8), u64(9), u64(16), u64(26), n / 4, n / 2, n - 18, n - 1}) if(i > 0 && i < n) s.insert(i); t.assign(s.begin(), s.end()); return t; }
    u64 dense = thorough ? 1024 : 48;
    if(n <= 2 * dense){ for(u64 i = 1; i < n; ++i) t.push_back(i); return t; }
    for(u64 i = 1; i <= dense; ++i) t.push_back(i);
    u64 step = thorough ? 13 : std::max<u64>(11, n / 40);
    if(n / step > 4000) step = n / 4000;
    for(u64 i = dense + step; i < n - 24; i += step) t.push_back(i);
    for(u64 i = n - 24; i < n; ++i) t.push_back(i);
    return t;
}

// Process crash: after every operation and inside every write.  The state
// after operation i is passed with index i+1 (number of complete operations).
template<class F>
void kill_images(Disk d, std::vector<Op> const& log, int level, F&& f)
{
    f(d.image(), 0, -1);
    for(std::size_t i = 0; i < log.size(); ++i)
    {
        auto& o = log[i];
        if(o.kind == OpKind::write)
            for(auto t : torn_points(o.data.size(), level)){ Disk e = d; e.apply(o, t); f(e.image(), i, (long)t); }
        d.apply(o);
        if(o.kind != OpKind::sync) f(d.image(), i + 1, -1);
    }
}

// Power loss at the point where the first n operations have been issued.
// Kept: everything synced; of the rest any subset of overwrites, any prefix of
// size changing operations per file (the last append torn), any prefix of
// namespace operations.
struct PState { Disk base; std::vector<Op> const* log; };
template<class F>
void power_images_at(Disk const& base, std::vector<Op> const& log, std::size_t n, int level, u64 maxsub, u64& capped, F&& f)
{
    // last sync of each inode, last sync of any
    std::map<int, std::size_t> lastsync; std::size_t anysync = 0;
    for(std::size_t i = 0; i < n; ++i) if(log[i].kind == OpKind::sync){ lastsync[log[i].ino] = i + 1; anysync = i + 1; }
    Disk durable = base;
    std::vector<std::size_t> ns;                         // unsynced namespace operations
    std::map<int, std::vector<std::size_t>> pend;        // unsynced data operations
    for(std::size_t i = 0; i < n; ++i)
    {
        auto& o = log[i];
        if(o.kind == OpKind::create || o.kind == OpKind::unlink)
        {
            if(i < anysync) durable.apply(o); else { ns.push_back(i); if(o.kind == OpKind::create) durable.inodes[o.ino]; }
        }
        else if(o.kind == OpKind::write || o.kind == OpKind::trunc)
        {
            if(i < lastsync[o.ino]) durable.apply(o); else pend[o.ino].push_back(i);
        }
    }
    // per inode list of possible contents
    std::vector<int> inos; std::vector<std::vector<vfs::Content>> opts;
    for(auto& p : pend)
    {
        std::vector<vfs::Content> cs; std::set<u64> seen;
        auto add = [&](vfs::Content const& c){ if(seen.insert(c.hash()).second) cs.push_back(c); };
        // classify
        struct It { std::size_t op; bool over; };
        std::vector<It> its; u64 sz = durable.inodes[p.first].size;
        for(auto i : p.second)
        {
            auto& o = log[i];
            if(o.kind == OpKind::trunc){ its.push_back({i, false}); sz = o.len; }
            else { bool ov = o.off + o.data.size() <= sz; its.push_back({i, ov}); sz = std::max<u64>(sz, o.off + o.data.size()); }
        }
        std::vector<std::size_t> ov, ap;
        for(std::size_t k = 0; k < its.size(); ++k) (its[k].over ? ov : ap).push_back(k);
        // build with the set of overwrites given by predicate, prefix a of the size ops, torn t of the next append
        auto build = [&](auto&& has, std::size_t a, u64 t, int tornOv, u64 tornLen){
            vfs::Content c = durable.inodes[p.first]; std::size_t na = 0;
            for(std::size_t k = 0; k < its.size(); ++k)
            {
                auto& o = log[its[k].op];
                if(its[k].over)
                {
                    u64 len = o.data.size();
                    if((int)k == tornOv) len = tornLen; else if(!has(k)) continue;
                    if(o.off >= c.size) continue;
                    c.write(o.off, o.data.data(), std::min<u64>(len, c.size - o.off));
                }
                else
                {
                    if(na == a){ if(t && o.kind == OpKind::write) c.write(o.off, o.data.data(), std::min<u64>(t, o.data.size())); t = 0; ++na; continue; }
                    if(na > a){ ++na; continue; }
                    ++na;
                    if(o.kind == OpKind::trunc) c.trunc(o.len); else c.write(o.off, o.data.data(), o.data.size());
                }
            }
            add(c);
        };
        // order: full application first, then all the rest
        std::size_t A = ap.size();
        auto all = [](std::size_t){ return true; }; auto none = [](std::size_t){ return false; };
        // prefixes of the size operations with all / none of the overwrites
        for(std::size_t a = 0; a <= A; ++a)
        {
            build(all, a, 0, -1, 0); build(none, a, 0, -1, 0);
            if(a < A && log[its[ap[a]].op].kind == OpKind::write)
                for(auto t : torn_points(log[its[ap[a]].op].data.size(), level)){ build(none, a, t, -1, 0); if(!ov.empty()) build(all, a, t, -1, 0); }
        }
        // subsets of the overwrites, with all and with none of the size operations
        if(!ov.empty())
        {
            u64 m = ov.size();
            if(m < 63 && (1ull << m) <= maxsub)
            {
                for(u64 s = 0; s < (1ull << m); ++s)
                {
                    auto has = [&](std::size_t k){ auto i = std::lower_bound(ov.begin(), ov.end(), k) - ov.begin(); return (s >> i & 1) != 0; };
                    build(has, A, 0, -1, 0); if(A) build(has, 0, 0, -1, 0);
                }
            }
            else
            {
                ++capped;
                for(std::size_t i = 0; i < m; ++i) for(std::size_t j = i; j < m; ++j) for(int neg = 0; neg < 2; ++neg)
                {
                    if(m > 40 && j != i && j != i + 1) continue;
                    auto has = [&](std::size_t k){ bool x = k == ov[i] || k == ov[j]; return neg ? !x : x; };
                    build(has, A, 0, -1, 0); if(A) build(has, 0, 0, -1, 0);
                }
                for(std::size_t i = 0; i <= m; ++i){ auto has = [&](std::size_t k){ return i < m && k < ov[i]; }; build(has, A, 0, -1, 0); }
            }
            // torn overwrites
            for(std::size_t i = 0; i < m && i < 24; ++i)
            {
                u64 n2 = log[its[ov[i]].op].data.size();
                for(u64 t : {u64(1), u64(2), u64(5), u64(8), n2 / 2, n2 - 1}) if(t && t < n2)
                { build(all, A, 0, (int)ov[i], t); build(none, A, 0, (int)ov[i], t); if(A){ build(none, 0, 0, (int)ov[i], t); } }
            }
        }
        inos.push_back(p.first); opts.push_back(std::move(cs));
    }
    // product over files and namespace prefixes
    std::vector<std::size_t> idx(inos.size(), 0);
    // full product if small, else each file against {first few} of the others
    u64 prod = 1; for(auto& o : opts){ prod *= o.size(); if(prod > 4 * maxsub) break; }
    auto emit = [&](Disk& d){
        Disk e = d; f(e.image());
        for(std::size_t k = 0; k < ns.size(); ++k){ e.apply(log[ns[k]]); f(e.image()); }
    };
    if(prod <= 4 * maxsub)
    {
        for(;;)
        {
            Disk d = durable;
            for(std::size_t k = 0; k < inos.size(); ++k) d.inodes[inos[k]] = opts[k][idx[k]];
            emit(d);
            std::size_t k = 0;
            for(; k < inos.size(); ++k){ if(++idx[k] < opts[k].size()) break; idx[k] = 0; }
            if(k == inos.size()) break;
        }
    }
    else
    {
        // every content of one file against nothing / everything / all torn ends of the others
        ++capped;
        for(std::size_t k = 0; k < inos.size(); ++k)
            for(std::size_t a = 0; a < opts[k].size(); ++a)
                for(int sel = 0; sel < 3; ++sel)
                {
                    Disk d = durable;
                    for(std::size_t j = 0; j < inos.size(); ++j)
                        if(j == k) d.inodes[inos[j]] = opts[k][a];
                        else if(sel == 1){ for(auto i : pend[inos[j]]) d.apply(log[i]); }
                        else if(sel == 2) d.inodes[inos[j]] = opts[j][(a * 7 + 3) % opts[j].size()];
                    emit(d);
                }
    }
}
// All power loss images of a log: at each sync, each mark and at the end.
template<class F>
void power_images(Disk const& base, std::vector<Op> const& log, int level, u64 maxsub, u64& capped, F&& f)
{
    for(std::size_t n = 0; n <= log.size(); ++n)
        if(n == log.size() || log[n].kind == OpKind::sync || log[n].kind == OpKind::mark || (n && log[n - 1].kind == OpKind::mark))
            power_images_at(base, log, n, level, maxsub, capped, [&](Image const& m){ f(m, n); });
}
inline u64 hmap(Map const& m)
{
    u64 h = 17; auto mx = [&](std::string const& s){ h = h * 0x9E3779B97F4A7C15ull + s.size(); for(unsigned char c : s){ h ^= c; h *= 0x100000001b3ull; } h ^= h >> 31; };
    for(auto& p : m){ mx(p.first); mx(p.second); } return h;
}
} // crash
