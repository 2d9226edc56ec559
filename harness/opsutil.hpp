// Random pure functions used as user callbacks, in matching library and model form.
#pragma once
#include "world.hpp"

namespace h
{
    using F1 = std::function<int(int)>;
    using F2 = std::function<int(int, int)>;
    using Pr = std::function<bool(int)>;

    template<typename F>
    struct Fn
    {
        F           f;
        FaultP      fl;
        std::string d;
    };

    inline std::string fault_note(const FaultP& f)
    {
        return f->at ? "!throws#" + std::to_string(f->code) + "@" + std::to_string(f->at) : "";
    }
    inline Fn<F1> gen_f1(Env& e)
    {
        auto      fl = e.fault();
        const int k  = static_cast<int>(e.g.below(5));
        const int c  = e.g.range(1, 4);
        F1        f;
        std::string d;
        switch (k)
        {
        case 0: f = [c](int x) { return x + c; }; d = "x+" + std::to_string(c); break;
        case 1: f = [c](int x) { return x * c; }; d = "x*" + std::to_string(c); break;
        case 2: f = [c](int x) { return x % c; }; d = "x%" + std::to_string(c); break;
        case 3: f = [c](int x) { return c - x; }; d = std::to_string(c) + "-x"; break;
        default: f = [](int x) { return (x * 7 + 3) % 11; }; d = "(7x+3)%11"; break;
        }
        return {f, fl, d + fault_note(fl)};
    }
    inline Fn<Pr> gen_pred(Env& e)
    {
        auto        fl = e.fault();
        const int   k  = static_cast<int>(e.g.below(6));
        const int   c  = e.g.range(0, 5);
        Pr          f;
        std::string d;
        switch (k)
        {
        case 0: f = [](int x) { return x % 2 == 0; }; d = "even"; break;
        case 1: f = [c](int x) { return x < c; }; d = "x<" + std::to_string(c); break;
        case 2: f = [c](int x) { return x != c; }; d = "x!=" + std::to_string(c); break;
        case 3: f = [](int) { return true; }; d = "true"; break;
        case 4: f = [](int) { return false; }; d = "false"; break;
        default: f = [c](int x) { return x >= c; }; d = "x>=" + std::to_string(c); break;
        }
        return {f, fl, d + fault_note(fl)};
    }
    inline Fn<F2> gen_f2(Env& e)
    {
        auto        fl = e.fault();
        const int   k  = static_cast<int>(e.g.below(4));
        F2          f;
        std::string d;
        switch (k)
        {
        case 0: f = [](int a, int b) { return (a + b) % 10007; }; d = "a+b"; break;
        case 1: f = [](int a, int b) { return (a * 3 + b) % 10007; }; d = "3a+b"; break;
        case 2: f = [](int a, int b) { return a > b ? a : b; }; d = "max"; break;
        default: f = [](int a, int b) { return a - b; }; d = "a-b"; break;
        }
        return {f, fl, d + fault_note(fl)};
    }
    // order-sensitive digest, to turn vectors and tuples back into ints
    inline int digest(const m::Vec& v)
    {
        long r = static_cast<long>(v.size()) + 17;
        for (int x : v)
            r = (r * 31 + x + 1000) % 1000003;
        return static_cast<int>(r);
    }
    // Library-side callables (const& / by value / rvalue-only forms)
    struct RF1
    {
        Fn<F1> f;
        Tok    t{};
        V      operator()(const V& v) const
        {
            f.fl->real();
            return V{f.f(v.get())};
        }
    };
    struct RF1val
    {
        Fn<F1> f;
        Tok    t{};
        V      operator()(V v) const
        {
            f.fl->real();
            return V{f.f(v.get())};
        }
    };
    struct RPr
    {
        Fn<Pr> f;
        Tok    t{};
        bool   operator()(const V& v) const
        {
            f.fl->real();
            return f.f(v.get());
        }
    };
    inline F1 model_of(const Fn<F1>& f)
    {
        return [f](int x) {
            f.fl->model();
            return f.f(x);
        };
    }
    inline Pr model_of(const Fn<Pr>& f)
    {
        return [f](int x) {
            f.fl->model();
            return f.f(x);
        };
    }
    inline F2 model_of(const Fn<F2>& f)
    {
        return [f](int a, int b) {
            f.fl->model();
            return f.f(a, b);
        };
    }
    inline m::Comb comb_model(const FaultP& fl)
    {
        return [fl](const m::Vec& v) {
            fl->model();
            return digest(v);
        };
    }
    // inner pipelines for flattening, windows, notifiers: built up front, chosen by value
    std::vector<P> make_inners(Env& e, int n, int max_ops);
    std::string    show_inners(const std::vector<P>& v);
}
