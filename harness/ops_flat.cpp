#include "opsutil.hpp"
#include <rpp/operators/concat.hpp>
#include <rpp/operators/flat_map.hpp>
#include <rpp/operators/map.hpp>
#include <rpp/operators/merge.hpp>
#include <rpp/operators/start_with.hpp>
#include <rpp/operators/switch_on_next.hpp>
#include <rpp/sources/concat.hpp>
#include <rpp/sources/create.hpp>
#include <rpp/sources/defer.hpp>
#include <rpp/sources/from.hpp>
#include <rpp/schedulers/immediate.hpp>

namespace h
{
    namespace ops = rpp::operators;

    std::vector<P> make_inners(Env& e, int n, int max_ops)
    {
        std::vector<P> r;
        ++e.depth;
        for (int i = 0; i < n; ++i)
            r.push_back(e.depth >= e.cfg.max_depth ? make_source(e) : make_pipeline(e, max_ops));
        --e.depth;
        return r;
    }
    std::string show_inners(const std::vector<P>& v)
    {
        std::string s;
        for (size_t i = 0; i < v.size(); ++i)
            s += (i ? ", " : "") + v[i].d;
        return "{" + s + "}";
    }
    static bool any_sync(const std::vector<P>& v)
    {
        for (auto& p : v)
            if (p.sync)
                return true;
        return false;
    }
    static size_t sel(int v, size_t k) { return static_cast<size_t>(((v % static_cast<int>(k)) + static_cast<int>(k)) % static_cast<int>(k)); }

    struct Select
    {
        std::vector<DynObs> o;
        FaultP              fl;
        Tok                 t{};
        DynObs              operator()(const V& v) const
        {
            fl->real();
            return o[sel(v.get(), o.size())];
        }
    };
    struct Inners
    {
        std::vector<P>         in;
        FaultP                 fl;
        Select                 real() const
        {
            Select s{{}, fl};
            for (auto& p : in)
                s.o.push_back(p.r);
            return s;
        }
        std::function<m::Source(const int&)> model() const
        {
            std::vector<m::Source> s;
            for (auto& p : in)
                s.push_back(p.m);
            return [s, fl = fl](const int& v) {
                fl->model();
                return s[sel(v, s.size())];
            };
        }
        std::string d() const { return show_inners(in) + fault_note(fl); }
    };
    static Inners gen_inners(Env& e)
    {
        Inners i{make_inners(e, e.g.range(1, 3), 2), e.fault()};
        return i;
    }

    static P op_flat_map(Env& e, P p)
    {
        auto in = gen_inners(e);
        return {(p.r | ops::flat_map(in.real())).as_dynamic(), m::merge(m::map<int, m::Source>(p.m, in.model())), p.d + " | flat_map" + in.d(), p.sync || any_sync(in.in)};
    }
    static P op_map_merge(Env& e, P p)
    {
        auto in = gen_inners(e);
        return {(p.r | ops::map(in.real()) | ops::merge()).as_dynamic(), m::merge(m::map<int, m::Source>(p.m, in.model())), p.d + " | map" + in.d() + " | merge", p.sync || any_sync(in.in)};
    }
    static P op_map_concat(Env& e, P p)
    {
        auto in = gen_inners(e);
        return {(p.r | ops::map(in.real()) | ops::concat()).as_dynamic(), m::concat(m::map<int, m::Source>(p.m, in.model())), p.d + " | map" + in.d() + " | concat", p.sync || any_sync(in.in)};
    }
    static P op_map_switch(Env& e, P p)
    {
        auto in = gen_inners(e);
        return {(p.r | ops::map(in.real()) | ops::switch_on_next()).as_dynamic(), m::switch_on_next(m::map<int, m::Source>(p.m, in.model())), p.d + " | map" + in.d() + " | switch_on_next", p.sync || any_sync(in.in)};
    }
    static std::vector<m::Source> models(const std::vector<P>& v)
    {
        std::vector<m::Source> s;
        for (auto& p : v)
            s.push_back(p.m);
        return s;
    }
    static P op_merge_with(Env& e, P p)
    {
        auto   in = make_inners(e, e.g.range(1, 3), 2);
        DynObs r  = in.size() == 1 ? (p.r | ops::merge_with(in[0].r)).as_dynamic() : in.size() == 2 ? (p.r | ops::merge_with(in[0].r, in[1].r)).as_dynamic()
                                                                                                    : (p.r | ops::merge_with(in[0].r, in[1].r, in[2].r)).as_dynamic();
        std::vector<m::Source> ms{p.m};
        for (auto& i : in)
            ms.push_back(i.m);
        return {r, m::merge(m::of_sources(ms)), p.d + " | merge_with" + show_inners(in), p.sync || any_sync(in)};
    }
    static P op_start_with(Env& e, P p)
    {
        auto   in = make_inners(e, e.g.range(1, 2), 2);
        DynObs r  = in.size() == 1 ? (p.r | ops::start_with(in[0].r)).as_dynamic() : (p.r | ops::start_with(in[0].r, in[1].r)).as_dynamic();
        auto   ms = models(in);
        ms.push_back(p.m);
        return {r, m::concat(m::of_sources(ms)), p.d + " | start_with" + show_inners(in), p.sync || any_sync(in)};
    }
    static P op_source_concat(Env& e, P p)
    {
        auto      in   = make_inners(e, e.g.range(1, 2), 2);
        const int form = static_cast<int>(e.g.below(3));
        DynObs    r    = [&]() -> DynObs {
            if (form == 0)
                return in.size() == 1 ? rpp::source::concat(p.r, in[0].r).as_dynamic() : rpp::source::concat(p.r, in[0].r, in[1].r).as_dynamic();
            std::vector<DynObs> v{p.r};
            for (auto& i : in)
                v.push_back(i.r);
            if (form == 1)
                return rpp::source::concat(v).as_dynamic();
            return rpp::source::concat<rpp::memory_model::use_shared>(v).as_dynamic();
        }();
        std::vector<m::Source> ms{p.m};
        for (auto& i : in)
            ms.push_back(i.m);
        return {r, m::concat(m::of_sources(ms)), "concat" + std::to_string(form) + "(" + p.d + ", " + show_inners(in) + ")", p.sync || any_sync(in)};
    }
    // a finite outer observable of sources, all known at once
    static P op_outer_list(Env& e, P p)
    {
        auto                in = make_inners(e, e.g.range(0, 2), 2);
        std::vector<DynObs> v{p.r};
        std::vector<m::Source> ms{p.m};
        for (auto& i : in)
        {
            v.push_back(i.r);
            ms.push_back(i.m);
        }
        auto      outer = rpp::source::from_iterable(v, rpp::schedulers::immediate{});
        const int k     = static_cast<int>(e.g.below(3));
        DynObs    r     = k == 0 ? (outer | ops::merge()).as_dynamic() : k == 1 ? (outer | ops::concat()).as_dynamic()
                                                                               : (outer | ops::switch_on_next()).as_dynamic();
        auto      mo    = m::of_sources(ms);
        return {r, k == 0 ? m::merge(mo) : k == 1 ? m::concat(mo)
                                                  : m::switch_on_next(mo),
                "from{" + p.d + "; " + show_inners(in) + "} | " + (k == 0 ? "merge" : k == 1 ? "concat"
                                                                                         : "switch_on_next"),
                p.sync || any_sync(in)};
    }

    const std::vector<Op>& ops_flat()
    {
        static const std::vector<Op> v{{"flat_map", op_flat_map}, {"merge", op_map_merge}, {"concat", op_map_concat}, {"switch_on_next", op_map_switch}, {"merge_with", op_merge_with}, {"start_with_obs", op_start_with}, {"source_concat", op_source_concat}, {"outer_list", op_outer_list}};
        return v;
    }
}
