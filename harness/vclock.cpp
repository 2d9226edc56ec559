#include "vclock.hpp"
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace vclk
{
    int64_t now_ns   = 1000000000;
    int64_t slept_ns = 0;
    int     sleeps   = 0;
    void (*on_advance)() = nullptr;
    int64_t spin_target  = 0;
    static int spins     = 0;
    static void advance(int64_t d)
    {
        ++sleeps;
        if (d > 0)
        {
            now_ns += d;
            slept_ns += d;
            if (on_advance)
                on_advance();
        }
    }
    static int64_t ns(const timespec* t) { return static_cast<int64_t>(t->tv_sec) * 1000000000 + t->tv_nsec; }
}
extern "C" int clock_gettime(clockid_t id, timespec* ts)
{
    if (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)
    {
        // somebody polls the clock instead of sleeping: let time pass up to the announced moment
        if (vclk::spin_target > vclk::now_ns && ++vclk::spins > 200)
        {
            vclk::spins = 0;
            vclk::advance(vclk::spin_target - vclk::now_ns);
        }
        ts->tv_sec  = vclk::now_ns / 1000000000;
        ts->tv_nsec = vclk::now_ns % 1000000000;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
extern "C" int nanosleep(const timespec* t, timespec*)
{
    vclk::advance(vclk::ns(t));
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec*)
{
    vclk::advance(flags & TIMER_ABSTIME ? vclk::ns(t) - vclk::now_ns : vclk::ns(t));
    return 0;
}
// A timed wait in a single-threaded program can only time out.
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec* t)
{
    vclk::advance(vclk::ns(t) - vclk::now_ns);
    return ETIMEDOUT;
}
