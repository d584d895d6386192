// Controlled scheduler: threads of the code under test become fibers, every
// pthread call, atomic access and file operation is a scheduling point, time
// is virtual, and a happens-before detector watches memory and file regions.
#pragma once
#include "h.hpp"
#include <functional>
#include <string>
#include <vector>

namespace sch {
constexpr int MAXT = 8;

struct Choice { unsigned char n, chosen; };     // options offered, option taken

enum class Out { ok, deadlock, livelock, abandoned };
struct Result {
    Out out = Out::ok;
    std::string why;
    std::vector<Choice> choices;
    unsigned steps = 0, threads = 0, switches = 0, preemptions = 0;
    std::vector<std::pair<std::string,std::string>> races;   // signature, text
};
struct Opts {
    int bound = 2;              // preemptions, early timeouts and spurious wakeups together
    bool spurious = true;       // spurious condition wakeups (each costs one)
    bool early_timers = true;   // timeouts that fire while others could run (each costs one)
    bool file_points = true;    // file operations are scheduling points
    bool races = true;          // happens-before detection
    unsigned max_steps = 20000;
    int max_timers = 60;        // forced timeouts before declaring no progress
};
// Run main under the schedule prefix; default choices afterwards.
Result run(Opts const& o, std::vector<unsigned char> const& prefix, std::function<void()> const& main);

bool active();
int  self();                    // fiber number, 0 = main
unsigned now();                 // scheduler steps so far
void yield_point();             // explicit scheduling point
[[noreturn]] void abandon(std::string const& why);   // give up this execution, from a fiber
// A thread that reaches a scheduling point while suspended(thread) is true stays there.
extern std::function<bool(int thread)> suspended;
extern std::function<void(int thread, vfs::Call const&)> on_file;   // before each file operation
void yield();                   // let the others run first
extern unsigned long long total_steps, total_execs, total_accesses;
std::string describe(std::vector<unsigned char> const& prefix);
void ignore(bool on);           // stop/resume race recording on this fiber

struct Quiet { Quiet(){ ignore(true); } ~Quiet(){ ignore(false); } };

// Explore every schedule within the bound.  body runs as main fiber, check
// after each execution (outside).  Cases are sharded by first deviation.
struct Prog {
    std::string name;
    std::function<void()> setup, body;
    std::function<void(Result const&)> check;
};
void explore(H& h, Opts const& o, Prog const& p, unsigned long long maxexec = ~0ull);
}
