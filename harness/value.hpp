// Instrumented values, tokens and errors used as the data flowing through pipelines.
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>

namespace h
{
    struct Err : std::runtime_error
    {
        int code;
        explicit Err(int c)
            : std::runtime_error{"test error " + std::to_string(c)}
            , code{c}
        {
        }
    };

    // Live-instance accounting. Plain counters: users of V in threaded harnesses run one thread at a time.
    struct Live
    {
        static inline long values = 0;
        static inline long tokens = 0;
        static inline long copies = 0; // of values
        static inline bool strict = true; // report observation of moved-from values
    };

    class V
    {
    public:
        V()
            : V(0)
        {
        }
        explicit V(int v)
            : v_{v}
            , st_{kAlive}
        {
            ++Live::values;
        }
        V(const V& o)
            : v_{o.v_}
            , st_{o.st_}
        {
            o.check_not_dead("copied");
            ++Live::copies;
            ++Live::values;
        }
        V(V&& o) noexcept
            : v_{o.v_}
            , st_{o.st_}
        {
            o.check_not_dead("moved");
            o.st_ = kMoved;
            ++Live::values;
        }
        V& operator=(const V& o)
        {
            check_not_dead("assigned to");
            o.check_not_dead("copied");
            ++Live::copies;
            v_  = o.v_;
            st_ = o.st_;
            return *this;
        }
        V& operator=(V&& o) noexcept
        {
            check_not_dead("assigned to");
            o.check_not_dead("moved");
            if (&o != this)
            {
                v_    = o.v_;
                st_   = o.st_;
                o.st_ = kMoved;
            }
            return *this;
        }
        ~V()
        {
            if (st_ != kAlive && st_ != kMoved)
                pbt::fail_soft("value destroyed twice or never constructed");
            st_ = kDead;
            --Live::values;
        }
        int get() const
        {
            if (st_ == kMoved && Live::strict)
                pbt::fail_soft("a moved-from value was observed (was %d)", v_);
            else if (st_ != kAlive && st_ != kMoved)
                pbt::fail_soft("a dead value was observed");
            return v_;
        }
        bool moved() const { return st_ == kMoved; }
        friend bool operator==(const V& a, const V& b) { return a.get() == b.get(); }
        friend bool operator<(const V& a, const V& b) { return a.get() < b.get(); }

    private:
        void check_not_dead(const char* what) const
        {
            if (st_ != kAlive && st_ != kMoved)
                pbt::fail_soft("a dead value was %s", what);
        }
        static constexpr unsigned kAlive = 0xA11FE001u, kMoved = 0x3077ED02u, kDead = 0xDEADDEADu;
        int      v_;
        unsigned st_;
    };

    // Captured by callables and observers: counts how many copies of them are alive.
    struct Tok
    {
        Tok() { ++Live::tokens; }
        Tok(const Tok&) { ++Live::tokens; }
        Tok(Tok&&) noexcept { ++Live::tokens; }
        Tok& operator=(const Tok&)     = default;
        Tok& operator=(Tok&&) noexcept = default;
        ~Tok() { --Live::tokens; }
    };
}
template<>
struct std::hash<h::V>
{
    size_t operator()(const h::V& v) const { return std::hash<int>{}(v.get()); }
};
