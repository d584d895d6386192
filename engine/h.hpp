// Harness support: enumeration partitioning, counters, violations, output.
#pragma once
#include "vfs.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

struct AssertFail { std::string what; };
struct Hang { std::string what; };

class H {
public:
    H(int argc, char** argv, char const* defprop);
    ~H();
    bool thorough() const { return tier == "thorough"; }
    std::string arg(std::string const& k, std::string const& d = {}) const
    { auto i = args.find(k); return i == args.end() ? d : i->second; }
    // Enumeration: true if this worker runs this case.  Every worker walks the
    // same sequence of cases; case numbers are the replay handles.
    bool next(std::string const& group);
    bool next();                       // next case of the current group
    bool stop() const { return stop_; }
    void alive();                      // restart the CPU limit (progress inside a long case)
    void describe(std::string const& d) { desc_ = d; }
    template<class... A> void describef(char const* f, A... a)
    { char b[2000]; std::snprintf(b, sizeof b, f, a...); desc_ = b; }
    void append(std::string const& d) { desc_ += d; }
    std::string const& desc() const { return desc_; }
    void count(std::string const& k, std::uint64_t n = 1) { counters[k] += n; }
    void state(std::uint64_t h) { states.insert(h); }
    void nontrivial(std::uint64_t h) { nontriv.insert(h); }
    void sample(std::string const& s, std::size_t max = 4) { if(samples.size() < max) samples.push_back(s); }
    // record a violation of the property being checked
    void fail(std::string const& sig, std::string const& msg);
    void finish();
    void fatal(std::string const& what);        // from signal/abort handlers

    std::string tier = "quick", prop, out, only;
    int worker = 0, nworkers = 1;
    long seed = 1;
    std::uint64_t caseno = 0;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> states, nontriv;
    std::vector<std::string> samples;
    std::map<std::string,std::string> args;
    struct V { std::string sig, msg, cas; };
    std::vector<V> violations;
    std::map<std::string, std::uint64_t> sigs;
    double deadline = 1e18;
    bool complete = true;
    bool trace = false;
    std::string group_;
private:
    std::string desc_;
    std::uint64_t stride_ = 0;
    bool stop_ = false, done_ = false;
    double t0_ = 0;
};
extern H* gH;
double now_s();

// Run f, turning assertion failures and unexpected exceptions into violations.
template<class F>
bool guarded(H& h, char const* where, F&& f)
{
    try { f(); return true; }
    catch(AssertFail const& e){ h.fail(std::string("assert:") + e.what, std::string("assertion failed in ") + where + ": " + e.what); }
    catch(Hang const& e){ h.fail(std::string("hang:") + where, std::string("no termination in ") + where + ": " + e.what); }
    catch(std::exception const& e){ h.fail(std::string("exception:") + where + ":" + e.what(), std::string("unexpected exception in ") + where + ": " + e.what()); }
    return false;
}
std::string hex(std::string const& s, std::size_t max = 64);
