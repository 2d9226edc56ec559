#include "opsutil.hpp"
#include <rpp/operators/combine_latest.hpp>
#include <rpp/operators/map.hpp>
#include <rpp/operators/take_until.hpp>
#include <rpp/operators/with_latest_from.hpp>
#include <rpp/operators/zip.hpp>

namespace h
{
    namespace ops = rpp::operators;

    struct Dig
    {
        FaultP fl;
        Tok    t{};
        template<typename... Ts>
        V operator()(const Ts&... vs) const
        {
            fl->real();
            return V{digest(m::Vec{vs.get()...})};
        }
    };
    struct DigTuple
    {
        Tok t{};
        template<typename... Ts>
        V operator()(const rpp::utils::tuple<Ts...>& tp) const
        {
            return tp.apply([](const Ts&... vs) { return V{digest(m::Vec{vs.get()...})}; });
        }
        template<typename T>
            requires requires(const T& t) { std::tuple_size<T>::value; }
        V operator()(const T& tp) const
        {
            return std::apply([](const auto&... vs) { return V{digest(m::Vec{vs.get()...})}; }, tp);
        }
    };
    struct Parts
    {
        std::vector<P>         in;
        std::vector<m::Source> ms;
        std::vector<int>       order;
        FaultP                 fl;
        bool                   sync;
    };
    static Parts parts(Env& e, const P& p, int lo, int hi)
    {
        Parts r{make_inners(e, e.g.range(lo, hi), 2), {p.m}, {}, e.fault(), p.sync};
        for (auto& i : r.in)
        {
            r.ms.push_back(i.m);
            r.sync |= i.sync;
        }
        for (size_t i = 1; i < r.ms.size(); ++i)
            r.order.push_back(static_cast<int>(i));
        r.order.push_back(0);
        return r;
    }
#define VARIADIC(OP)                                                                                                    \
    (form == 0 ? (q.in.size() == 1 ? (p.r | ops::OP(Dig{q.fl}, q.in[0].r)).as_dynamic()                                 \
                  : q.in.size() == 2 ? (p.r | ops::OP(Dig{q.fl}, q.in[0].r, q.in[1].r)).as_dynamic()                    \
                                     : (p.r | ops::OP(Dig{q.fl}, q.in[0].r, q.in[1].r, q.in[2].r)).as_dynamic())        \
               : (q.in.size() == 1   ? (p.r | ops::OP(q.in[0].r) | ops::map(DigTuple{})).as_dynamic()                   \
                  : q.in.size() == 2 ? (p.r | ops::OP(q.in[0].r, q.in[1].r) | ops::map(DigTuple{})).as_dynamic()        \
                                     : (p.r | ops::OP(q.in[0].r, q.in[1].r, q.in[2].r) | ops::map(DigTuple{})).as_dynamic()))

    static std::string dd(const P& p, const char* nm, const Parts& q, int form) { return p.d + " | " + nm + show_inners(q.in) + (form == 0 ? fault_note(q.fl) : " tuple"); }
    static m::Comb     cm(const Parts& q, int form)
    {
        if (form == 0)
            return comb_model(q.fl);
        return [](const m::Vec& v) { return digest(v); };
    }
    static P op_combine_latest(Env& e, P p)
    {
        auto      q    = parts(e, p, 1, 3);
        const int form = static_cast<int>(e.g.below(2));
        return {VARIADIC(combine_latest), m::combine_latest(q.ms, cm(q, form), q.order), dd(p, "combine_latest", q, form), q.sync};
    }
    static P op_zip(Env& e, P p)
    {
        auto      q    = parts(e, p, 1, 3);
        const int form = static_cast<int>(e.g.below(2));
        return {VARIADIC(zip), m::zip(q.ms, cm(q, form), q.order), dd(p, "zip", q, form), q.sync};
    }
    static P op_with_latest(Env& e, P p)
    {
        auto      q    = parts(e, p, 1, 3);
        const int form = static_cast<int>(e.g.below(2));
        return {VARIADIC(with_latest_from), m::with_latest_from(q.ms, cm(q, form)), dd(p, "with_latest_from", q, form), q.sync};
    }
    static P op_take_until(Env& e, P p)
    {
        auto in = make_inners(e, 1, 2);
        return {(p.r | ops::take_until(in[0].r)).as_dynamic(), m::take_until(p.m, in[0].m), p.d + " | take_until" + show_inners(in), p.sync || in[0].sync};
    }
    const std::vector<Op>& ops_comb()
    {
        static const std::vector<Op> v{{"combine_latest", op_combine_latest}, {"zip", op_zip}, {"with_latest_from", op_with_latest}, {"take_until", op_take_until}};
        return v;
    }
}
