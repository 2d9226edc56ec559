// Values and subscribers for harnesses with simulated threads.
#pragma once
#include "simrt.hpp"
#include <rpp/rpp.hpp>
#include <climits>
#include <exception>
#include <stdexcept>
#include <thread>
#include <vector>

namespace so
{
    // a value that lives on the heap: unsynchronised or late accesses to it are seen by the race checker
    struct SV
    {
        int* p;
        SV(int v = -1) : p{new int(v)} {}
        SV(const SV& o) : p{new int(o.get())} {}
        SV(SV&& o) noexcept : p{std::exchange(o.p, nullptr)} {}
        SV& operator=(const SV& o)
        {
            if (this != &o)
            {
                int* n = new int(o.get());
                delete p;
                p = n;
            }
            return *this;
        }
        SV& operator=(SV&& o) noexcept
        {
            std::swap(p, o.p);
            return *this;
        }
        ~SV() { delete p; }
        int  get() const
        {
            if (!p)
                pbt::fail("a moved-from value was used");
            return *p;
        }
        bool operator==(const SV& o) const { return get() == o.get(); }
        bool operator<(const SV& o) const { return get() < o.get(); }
    };

    enum Kind { Next, Error, Completed };
    inline const char* kind_name(int k) { return k == Next ? "next" : k == Error ? "error" : "completed"; }

    struct Ev
    {
        int     kind, v, thread;
        long    b, e;
        int64_t t;
    };
    constexpr int kMaxEv = 256, kMaxSub = 24;
    struct Sub
    {
        Ev   ev[kMaxEv];
        int  n = 0, inside = 0, in_thread = -1;
        long sb = -1, se = -1, db = -1, de = -1; // subscribe and first dispose call: begin, end
        int  plain = 0;                          // written by every callback without synchronisation
        long window[2] = {-1, -1};
        int  count(int kind) const
        {
            int c = 0;
            for (int i = 0; i < n; ++i)
                c += ev[i].kind == kind;
            return c;
        }
        bool ended() const { return n && ev[n - 1].kind != Next; }
    };
    inline Sub g_sub[kMaxSub];

    inline int error_of(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const rpp::utils::timeout_reached&)
        {
            return -7;
        }
        catch (const std::runtime_error& x)
        {
            return atoi(x.what());
        }
        catch (...)
        {
            return -7;
        }
    }
    inline std::exception_ptr make_error(int n) { return std::make_exception_ptr(std::runtime_error(std::to_string(n))); }

    // a callback of subscriber s begins / ends
    struct Callback
    {
        Sub& s;
        int  at;
        Callback(int i, int kind, int v)
            : s{g_sub[i]}
        {
            {
                sim::Quiet q;
                if (s.inside)
                    pbt::fail("subscriber %d: %s(%d) was called by thread %d while thread %d is inside another callback", i, kind_name(kind), v, sim::self(), s.in_thread);
                if (s.ended())
                    pbt::fail("subscriber %d: %s(%d) after its terminal notification", i, kind_name(kind), v);
                if (s.n == kMaxEv)
                    pbt::fail("subscriber %d: endless events", i);
                s.inside    = 1;
                s.in_thread = sim::self();
                at          = s.n++;
                s.ev[at]    = {kind, v, sim::self(), sim::steps(), -1, sim::now()};
            }
            ++s.plain;
            sim::point();
        }
        ~Callback()
        {
            sim::point();
            sim::Quiet q;
            s.ev[at].e = sim::steps();
            s.inside   = 0;
        }
    };

    // the usual subscriber; hook(sub, index of the event) runs inside the callback
    using Hook = void (*)(int sub, int at);
    inline Hook g_hook = nullptr;

    struct OnNext
    {
        int  i;
        void operator()(const SV& v) const
        {
            Callback c{i, Next, v.get()};
            if (g_hook)
                g_hook(i, c.at);
        }
        void operator()(int v) const
        {
            Callback c{i, Next, v};
            if (g_hook)
                g_hook(i, c.at);
        }
    };
    struct OnError
    {
        int  i;
        void operator()(const std::exception_ptr& e) const
        {
            Callback c{i, Error, error_of(e)};
            if (g_hook)
                g_hook(i, c.at);
        }
    };
    struct OnCompleted
    {
        int  i;
        void operator()() const
        {
            Callback c{i, Completed, 0};
            if (g_hook)
                g_hook(i, c.at);
        }
    };

    template<typename O>
    void subscribe(const O& observable, const rpp::composite_disposable_wrapper& d, int i)
    {
        {
            sim::Quiet q;
            g_sub[i].sb = sim::steps();
        }
        observable.subscribe(d, OnNext{i}, OnError{i}, OnCompleted{i});
        sim::Quiet q;
        g_sub[i].se = sim::steps();
    }
    inline void dispose(const rpp::disposable_wrapper& d, int i)
    {
        {
            sim::Quiet q;
            if (g_sub[i].db < 0)
                g_sub[i].db = sim::steps();
        }
        sim::point();
        d.dispose();
        sim::Quiet q;
        if (g_sub[i].de < 0)
            g_sub[i].de = sim::steps();
    }
    inline std::string show(const Sub& s)
    {
        std::string r;
        for (int k = 0; k < s.n; ++k)
            r += s.ev[k].kind == Next ? " " + std::to_string(s.ev[k].v) : s.ev[k].kind == Error ? " E" : " |";
        return r;
    }
}
