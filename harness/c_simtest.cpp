// self-test of the simulation: known-good and known-bad programs
#include "simrt.hpp"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <atomic>
#include <chrono>
#include <optional>
int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property = "SIMTEST";
    s.rule     = "x";
    const char* which = getenv("WHICH") ? getenv("WHICH") : "good";
    auto        fam   = [&](const char* n, auto f) {
        if (!strcmp(n, which))
            s.families.push_back({n, [f](pbt::Gen& g) {
                                  sim::begin(g, sim::draw(g));
                                  const long l0 = sim::live_news();
                                  f();
                                  sim::finish();
                                  if (sim::live_news() != l0)
                                      pbt::fail("leak of %ld", sim::live_news() - l0);
                                  pbt::nontrivial();
                              },
                                  20000, 20000, true});
    };
    fam("good", [] {
        std::mutex              m;
        std::condition_variable cv;
        bool                    ready = false;
        int                     x     = 0;
        auto                    sp    = std::make_shared<int>(4);
        std::thread             a{[&, sp] {
            std::this_thread::sleep_for(std::chrono::milliseconds{5});
            std::lock_guard l{m};
            x     = *sp;
            ready = true;
            cv.notify_one();
        }};
        std::thread             b{[&, sp] {
            std::unique_lock l{m};
            cv.wait(l, [&] { return ready; });
            if (x != 4)
                pbt::fail("x");
        }};
        sp.reset();
        try { throw 5; } catch (...) {}
        a.join();
        b.join();
    });
    fam("race", [] {
        int         x = 0;
        std::mutex  m;
        std::thread a{[&] { std::lock_guard l{m}; x = 1; }};
        std::thread b{[&] { x = 2; }};
        a.join();
        b.join();
    });
    fam("deadlock", [] {
        std::mutex  m, n;
        std::thread a{[&] { std::lock_guard l{m}; std::lock_guard k{n}; }};
        std::thread b{[&] { std::lock_guard l{n}; std::lock_guard k{m}; }};
        a.join();
        b.join();
    });
    fam("lost", [] {
        std::mutex              m;
        std::condition_variable cv;
        std::atomic<bool>       ready = false;
        std::thread             a{[&] { ready = true; cv.notify_one(); }};
        std::unique_lock        l{m};
        cv.wait(l, [&] { return ready.load(); });
        l.unlock();
        a.join();
    });
    fam("uaf", [] {
        auto*            p = new std::atomic<int>(0);
        std::atomic<int> r{2};
        auto             f = [&, p] { p->load(); r--; p->load(); if (r == 0) {} };
        std::thread      a{f};
        std::thread      b{[&, p] { if (--r == 1) {} p->load(); if (r.load() == 0) delete p; }};
        a.join();
        b.join();
    });
    fam("atomicity", [] {
        std::atomic<int> x{0};
        auto             f = [&] { int v = x.load(); x.store(v + 1); };
        std::thread      a{f}, b{f};
        a.join();
        b.join();
        if (x != 2)
            pbt::fail("lost update");
    });
    fam("relaxed", [] {
        auto* p = new int{0};
        std::atomic<int> f{0};
        std::thread a{[&] { *p = 1; f.store(1, std::memory_order_relaxed); }};
        while (!f.load(std::memory_order_acquire)) {}
        delete p;
        a.join();
    });
    return pbt::run_main(argc, argv, s);
}
