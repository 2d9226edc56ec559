// Virtual monotonic clock for single-threaded harnesses: replaces clock_gettime(CLOCK_MONOTONIC) and the sleeping calls.
#pragma once
#include <cstdint>
namespace vclk
{
    extern int64_t now_ns;
    extern int64_t slept_ns; // total time slept
    extern int     sleeps;
    extern void (*on_advance)(); // called when time passed
    extern int64_t spin_target;  // when the clock is polled without sleeping, time passes up to this moment
}
