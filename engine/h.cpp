#include "h.hpp"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <malloc.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <boost/assert.hpp>

H* gH = nullptr;
double now_s(){ timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool g_assert_aborts = false;
void (*g_assert_hook)(std::string const&) = nullptr;
namespace boost {
void assertion_failed(char const* expr, char const* fn, char const* file, long line)
{
    char const* b = std::strrchr(file, '/');
    std::string w = std::string(b ? b + 1 : file) + ": " + expr;
    (void)fn; (void)line;
    if(g_assert_hook) g_assert_hook(w);
    if(g_assert_aborts && gH){ gH->fatal("assertion failed: " + w); _exit(77); }
    throw AssertFail{w};
}
void assertion_failed_msg(char const* expr, char const*, char const* fn, char const* file, long line)
{ assertion_failed(expr, fn, file, line); }
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options()
{ return "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=70000:malloc_fill_byte=190:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:allocator_release_to_os_interval_ms=-1:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=6000:detect_stack_use_after_return=0:print_summary=1"; }
static void asan_death(){ if(gH){ gH->fatal("memory error (AddressSanitizer)"); } }
#endif

static void on_signal(int s)
{
    if(gH)
    {
        if(s == SIGVTALRM) gH->fatal("no termination (CPU limit) in case");
        else gH->fatal(std::string("crash: signal ") + std::to_string(s));
    }
    _exit(77);
}
// Every 10 s of real time: asleep (no processor time used, no new case) for a minute is a hang.
static void on_alarm(int)
{
    static int idle = 0; static std::uint64_t last_case = 0; static double last_cpu = 0;
    timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    double cpu = t.tv_sec + t.tv_nsec * 1e-9; std::uint64_t n = gH ? gH->caseno : 0;
    idle = n == last_case && cpu - last_cpu < 0.02 ? idle + 1 : 0;
    last_case = n; last_cpu = cpu;
    if(idle >= 6)
    {
        if(gH) gH->fatal("hang: waits forever");
        _exit(77);
    }
}
static void on_terminate(){ if(gH) gH->fatal("std::terminate called"); _exit(77); }

static std::string js(std::string const& s)
{
    std::string o = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\'){ o += '\\'; o += c; }
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126){ char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static void arm(int cpu)
{
    itimerval it{}; it.it_value.tv_sec = cpu; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void H::alive(){ arm(60); }

H::H(int argc, char** argv, char const* defprop)
{
    gH = this; prop = defprop; t0_ = now_s();
    if(argc > 2 && !std::strcmp(argv[1], "--merge"))
    {
        // union of hash dumps: prints number of distinct values
        std::unordered_set<std::uint64_t> u;
        for(int i = 2; i < argc; ++i)
            if(FILE* f = std::fopen(argv[i], "rb")){ std::uint64_t v; while(std::fread(&v, 8, 1, f) == 1) u.insert(v); std::fclose(f); }
        std::printf("%zu\n", u.size()); std::fflush(stdout); _exit(0);
    }
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if(a.compare(0, 2, "--")) continue;
        auto e = a.find('=');
        std::string k = a.substr(2, e == std::string::npos ? e : e - 2), v = e == std::string::npos ? "1" : a.substr(e + 1);
        args[k] = v;
    }
    tier = arg("tier", "quick"); prop = arg("prop", prop); out = arg("out"); only = arg("only");
    worker = std::stoi(arg("worker", "0")); nworkers = std::stoi(arg("nworkers", "1")); seed = std::stol(arg("seed", "1"));
    trace = !arg("trace").empty();
    if(!arg("deadline").empty()) deadline = t0_ + std::stod(arg("deadline"));
    mallopt(M_MMAP_THRESHOLD, 64 << 20); mallopt(M_TRIM_THRESHOLD, 512 << 20);
    for(int s : {SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM}) std::signal(s, on_signal);
    struct sigaction sa{}; sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
    itimerval it{}; it.it_interval.tv_sec = it.it_value.tv_sec = 10; setitimer(ITIMER_REAL, &it, nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(asan_death);
#else
    std::signal(SIGSEGV, on_signal);
#endif
    std::set_terminate(on_terminate);
}
H::~H(){ finish(); gH = nullptr; }

bool H::next(std::string const& group){ group_ = group; stride_ = 0; return true; }
bool H::next()
{
    if(stop_) return false;
    ++stride_; ++caseno;
    if(!only.empty()){ if(group_ + ":" + std::to_string(stride_) != only) return false; }
    else if(caseno % nworkers != (std::uint64_t)worker) return false;
    if((caseno & 63) < (unsigned)nworkers && now_s() > deadline){ stop_ = true; complete = false; return false; }
    arm(60);
    counters["cases"]++;
    desc_.clear();
    return true;
}
void H::fail(std::string const& sig, std::string const& msg)
{
    if(sigs.empty()) deadline = std::min(deadline, now_s() + 60);     // it is a violation already: do not look everywhere
    auto n = ++sigs[sig];
    if(n <= 3 && violations.size() < 60)
        violations.push_back({sig, msg, "case " + group_ + ":" + std::to_string(stride_) + " " + desc_});
    if(n == 1 && trace) std::fprintf(stderr, "FAIL %s: %s\n  %s\n", sig.c_str(), msg.c_str(), violations.back().cas.c_str());
    if(!only.empty()) std::fprintf(stderr, "FAIL %s: %s\n", sig.c_str(), msg.c_str());
}
void H::fatal(std::string const& what)
{
    if(done_) return;
    std::fprintf(stderr, "FATAL %s in case %s:%llu %s\n", what.c_str(), group_.c_str(), (unsigned long long)stride_, desc_.c_str());
    fail("fatal:" + what, what);
    complete = false;
    finish();
}
static void dump(std::string const& f, std::unordered_set<std::uint64_t> const& s)
{
    if(FILE* o = std::fopen(f.c_str(), "wb")){ for(auto v : s) std::fwrite(&v, 8, 1, o); std::fclose(o); }
}
void H::finish()
{
    if(done_) return;
    done_ = true;
    std::ostringstream o;
    o << "{\"worker\":" << worker << ",\"complete\":" << (complete ? "true" : "false") << ",\"wall\":" << now_s() - t0_
      << ",\"states\":" << states.size() << ",\"nontrivial\":" << nontriv.size() << ",\"counters\":{";
    bool f = true;
    for(auto& c : counters){ o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
    o << "},\"samples\":["; f = true;
    for(auto& s : samples){ o << (f ? "" : ",") << js(s); f = false; }
    o << "],\"sigs\":{"; f = true;
    for(auto& s : sigs){ o << (f ? "" : ",") << js(s.first) << ":" << s.second; f = false; }
    o << "},\"violations\":["; f = true;
    for(auto& v : violations){ o << (f ? "" : ",") << "{\"sig\":" << js(v.sig) << ",\"msg\":" << js(v.msg) << ",\"case\":" << js(v.cas) << "}"; f = false; }
    o << "]}";
    if(out.empty()) std::printf("%s\n", o.str().c_str());
    else
    {
        if(FILE* q = std::fopen(out.c_str(), "w")){ std::fputs(o.str().c_str(), q); std::fclose(q); }
        dump(out + ".states", states); dump(out + ".nontriv", nontriv);
    }
    std::fflush(stdout);
}
std::string hex(std::string const& s, std::size_t max)
{
    std::string o; char b[4];
    for(std::size_t i = 0; i < s.size() && i < max; ++i){ std::snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    if(s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}
