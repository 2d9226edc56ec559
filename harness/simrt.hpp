// Controlled execution of real threads: one runs at a time, every synchronisation operation is a place where the case
// may switch threads, time is virtual, and memory accesses are checked for data races and use after free.
//
// A harness is compiled with -fsanitize=thread (for the instrumentation calls only) and linked with simrt.cpp instead of
// the ThreadSanitizer runtime.  simrt.cpp defines the __tsan_* entry points, pthread_*, the clocks, malloc and the
// static-initialisation guards.
#pragma once
#include "pbt.hpp"
#include <cstdint>

namespace sim
{
    constexpr int kMaxThreads = 16;

    // the schedule is drawn from the case: how many preemptions, and how far apart on average
    struct Schedule
    {
        int preemptions = 0;
        int gap         = 1;
        bool jumps      = true; // time may pass while a runnable thread stands still
    };
    Schedule draw(pbt::Gen& g);

    void    begin(pbt::Gen& g, Schedule s); // the calling thread becomes thread 0; only in a process forked for the case
    void    finish();                       // waits for every other thread to end
    void    finish_idle();                  // waits until every other thread has ended or waits for something that can't come
    bool    active();
    int     self();                         // number of the calling thread, in order of creation
    int     threads();                      // how many threads have been created, thread 0 included
    int     alive();                        // how many other threads have not ended
    void    point();                        // a further place where the case may switch threads
    void    sleep_until(int64_t t);
    void    sleep(int64_t d);
    int64_t now();                          // virtual time, ns
    long    steps();
    void    wait_until(bool (*pred)(void*), void* arg); // blocks until pred holds (pred is called without instrumentation)
    long    live_news();                    // blocks allocated by operator new since begin() and not deleted
    void    name_thread(const char* n);

    // nothing inside the scope is a schedule point, nor checked
    struct Quiet
    {
        Quiet();
        ~Quiet();
        int saved;
    };

    // events recorded without being visible to the race checker, nor ordering anything
    struct Ev
    {
        int     kind, a, b, thread;
        int64_t t;
        long    step;
    };
    void      log(int kind, int a = 0, int b = 0);
    size_t    log_size();
    const Ev& log_at(size_t i);

    // counters that the race checker doesn't see
    int  add(int slot, int by = 1); // returns the new value
    int  get(int slot);
    void set(int slot, int v);
}
