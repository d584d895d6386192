// Virtual time for single threaded harnesses.
#include "vclock.hpp"
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace vclk { bool on = false; std::uint64_t now = 1000000000000ull, sleeps = 0, slept = 0; std::function<void()> on_sleep; 
static int nap(std::uint64_t d){ ++sleeps; slept += d; now += d; if(on_sleep){ auto f = on_sleep; f(); } return 0; } }
static std::uint64_t ns(const timespec* t){ return (std::uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
extern "C" {
int clock_gettime(clockid_t c, timespec* t) noexcept
{
    if(vclk::on && (c == CLOCK_MONOTONIC || c == CLOCK_REALTIME || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_REALTIME_COARSE || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW))
    { t->tv_sec = vclk::now / 1000000000ull; t->tv_nsec = vclk::now % 1000000000ull; return 0; }
    return syscall(SYS_clock_gettime, c, t);
}
int nanosleep(const timespec* t, timespec* r){ if(vclk::on) return vclk::nap(ns(t)); return syscall(SYS_nanosleep, t, r); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r)
{
    if(vclk::on){ auto d = ns(t); return vclk::nap(fl & TIMER_ABSTIME ? (d > vclk::now ? d - vclk::now : 0) : d); }
    return syscall(SYS_clock_nanosleep, c, fl, t, r) ? errno : 0;
}
int usleep(useconds_t u){ timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
}
