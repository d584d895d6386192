// Full check of a (re)opened database, including continued use.
#pragma once
#include "crash.hpp"
using vfs::Image; using vfs::u64;
struct Post { std::string err; Map map; };
static std::unordered_map<u64, Post> postMemo;

// The recovered database, open in db; image is its current state.
static Post post_check(H& h, Cfg const& c, int nkeys, DB<>& db, Image const& img)
{
    Post p;
    auto v = orc::decode(getf(img, DP), getf(img, KP));
    h.count("recovered_states");
    if(!v.err.empty()){ p.err = "files do not decode after recovery: " + v.err; return p; }
    p.map = v.map;
    auto l = img.files.find(LP);
    if(l != img.files.end() && l->second.size){ p.err = "log not empty after recovery"; return p; }
    error_code ec;
    for(int i = 0; i < nkeys; ++i)
    {
        auto e = check_fetch(db, orc::mkkey(i), v.map);
        if(!e.empty()){ p.err = "after recovery " + e; return p; }
    }
    // continued use
    Map m = v.map;
    for(int round = 0; round < 2; ++round)
    {
        for(int i = 0; i < 3; ++i){ auto k = orc::mkkey((c.ks > 1 ? 60000 : 230) + round * 3 + i), val = mkval(i + 9, 5 + i); db.insert(k, val, ec); if(ec){ p.err = "insert after recovery failed: " + ec.message(); return p; } m[k] = val; }
        for(int i = 0; i < nkeys; ++i) if(!v.map.count(orc::mkkey(i)) && i % 3 == round){ auto k = orc::mkkey(i), val = mkval(i, vsz(i), 7); db.insert(k, val, ec); if(ec){ p.err = "re-insert after recovery failed: " + ec.message(); return p; } m[k] = val; }
        if(round == 0) db.flush();
    }
    for(auto& x : m){ auto e = check_fetch(db, x.first, m); if(!e.empty()){ p.err = "after recovery and inserts " + e; return p; } }
    db.close(ec); if(ec){ p.err = "close after recovery failed: " + ec.message(); return p; }
    auto img2 = vfs::snapshot();
    auto w = orc::decode(getf(img2, DP), getf(img2, KP));
    if(!w.err.empty()){ p.err = "files do not decode after recovery and inserts: " + w.err; return p; }
    if(w.map != m){ p.err = "wrong contents after recovery and inserts"; return p; }
    nudb::verify_info vi; nudb::verify<MHash>(vi, DP, KP, 0, nudb::no_progress{}, ec);
    if(ec){ p.err = "verify after recovery: " + ec.message(); return p; }
    (void)c;
    return p;
}

