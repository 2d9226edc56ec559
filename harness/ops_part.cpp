#include "opsutil.hpp"
#include <rpp/operators/concat.hpp>
#include <rpp/operators/filter.hpp>
#include <rpp/operators/flat_map.hpp>
#include <rpp/operators/group_by.hpp>
#include <rpp/operators/map.hpp>
#include <rpp/operators/merge.hpp>
#include <rpp/operators/skip.hpp>
#include <rpp/operators/switch_on_next.hpp>
#include <rpp/operators/take.hpp>
#include <rpp/operators/take_last.hpp>
#include <rpp/operators/window.hpp>
#include <rpp/operators/window_toggle.hpp>
#include <rpp/sources/empty.hpp>
#include <rpp/sources/never.hpp>

namespace h
{
    namespace ops = rpp::operators;

    // what is done with every sub-stream, before they are flattened again
    struct SubSpec
    {
        int kind, arg;
        int ignore_mod; // sub-streams with index % ignore_mod == 0 are never subscribed (0: all subscribed)
        std::string d() const
        {
            static const char* nm[] = {"all", "take", "skip", "take_last", "filter"};
            return std::string{nm[kind]} + (kind ? std::to_string(arg) : "") + (ignore_mod ? " ignoring %" + std::to_string(ignore_mod) : "");
        }
    };
    static SubSpec gen_sub(Env& e)
    {
        const int k = static_cast<int>(e.g.below(5));
        const int a = e.g.range(1, 3);
        return {k, a, e.g.chance(1, 5) ? e.g.range(1, 3) : 0};
    }
    static DynObs sub_r(const SubSpec& s, DynObs w, int idx)
    {
        if (s.ignore_mod && idx % s.ignore_mod == 0)
            return rpp::source::empty<V>().as_dynamic();
        const auto tag = ops::map([idx, t = Tok{}](const V& v) { return V{idx * 1000 + v.get()}; });
        const auto a   = static_cast<size_t>(s.arg);
        switch (s.kind)
        {
        case 1: return (w | ops::take(a) | tag).as_dynamic();
        case 2: return (w | ops::skip(a) | tag).as_dynamic();
        case 3: return (w | ops::take_last(a) | tag).as_dynamic();
        case 4: return (w | ops::filter([a](const V& v) { return v.get() >= static_cast<int>(a); }) | tag).as_dynamic();
        default: return (w | tag).as_dynamic();
        }
    }
    static m::Source sub_m(const SubSpec& s, m::Source w, int idx)
    {
        if (s.ignore_mod && idx % s.ignore_mod == 0)
            return m::cold({}, 1);
        auto       tag = [idx](m::Source x) { return m::map<int, int>(x, [idx](int v) { return idx * 1000 + v; }); };
        const auto a   = static_cast<size_t>(s.arg);
        switch (s.kind)
        {
        case 1: return tag(m::take(w, a));
        case 2: return tag(m::skip(w, a));
        case 3: return tag(m::take_last(w, a));
        case 4: return tag(m::filter(w, [a](int v) { return v >= static_cast<int>(a); }));
        default: return tag(w);
        }
    }
    static m::SourceT<m::Source> take_outer(m::SourceT<m::Source> s, size_t n)
    {
        return [=](m::ObsPT<m::Source> d) {
            auto left = std::make_shared<size_t>(n);
            m::subscribe<m::Source>(s, m::up<m::Source, m::Source>(d, [=](const m::Source& v) {
                                        --*left;
                                        d->next(v);
                                        if (*left == 0)
                                            d->done(); }));
        };
    }
    // flatten: 0 merge, 1 switch, 2 concat
    template<typename O>
    static DynObs flat_r(O&& o, int how)
    {
        return how == 0 ? (o | ops::merge()).as_dynamic() : how == 1 ? (o | ops::switch_on_next()).as_dynamic()
                                                                     : (o | ops::concat()).as_dynamic();
    }
    static m::Source flat_m(m::SourceT<m::Source> s, int how) { return how == 0 ? m::merge(s) : how == 1 ? m::switch_on_next(s)
                                                                                                         : m::concat(s); }
    static const char* flat_d(int how) { return how == 0 ? " | merge" : how == 1 ? " | switch_on_next"
                                                                                 : " | concat"; }

    template<typename O>
    static DynObs finish_r(O&& o, const std::shared_ptr<Counter>& c, const SubSpec& s, size_t limit, int how)
    {
        auto f = [c, s, t = Tok{}](const auto& w) { return sub_r(s, w.as_dynamic(), c->r++); };
        if (limit)
            return flat_r(o | ops::take(limit) | ops::map(f), how);
        return flat_r(o | ops::map(f), how);
    }
    static m::Source finish_m(m::SourceT<m::Source> o, const std::shared_ptr<Counter>& c, const SubSpec& s, size_t limit, int how)
    {
        if (limit)
            o = take_outer(o, limit);
        return flat_m(m::map<m::Source, m::Source>(o, [c, s](const m::Source& w) { return sub_m(s, w, c->m++); }), how);
    }
    static std::string tail(const SubSpec& s, size_t limit, int how) { return (limit ? " | take(" + std::to_string(limit) + ")" : "") + " | each(" + s.d() + ")" + flat_d(how); }

    static P op_window(Env& e, P p)
    {
        const size_t n     = static_cast<size_t>(e.g.range(0, 4));
        auto         s     = gen_sub(e);
        const size_t limit = e.g.chance(1, 4) ? static_cast<size_t>(e.g.range(1, 3)) : 0;
        const int    how   = static_cast<int>(e.g.below(3));
        auto         c     = std::make_shared<Counter>();
        e.w.counters.push_back(c);
        return {finish_r(p.r | ops::window(n), c, s, limit, how), finish_m(m::window(p.m, n), c, s, limit, how), p.d + " | window(" + std::to_string(n) + ")" + tail(s, limit, how), p.sync};
    }
    static P op_window_toggle(Env& e, P p)
    {
        auto         op    = make_inners(e, 1, 1);
        auto         cl    = make_inners(e, e.g.range(1, 2), 1);
        auto         s     = gen_sub(e);
        const size_t limit = e.g.chance(1, 4) ? static_cast<size_t>(e.g.range(1, 3)) : 0;
        const int    how   = static_cast<int>(e.g.below(2));
        auto         c     = std::make_shared<Counter>();
        auto         fl    = e.fault();
        e.w.counters.push_back(c);
        std::vector<DynObs>    cr;
        std::vector<m::Source> cmm;
        for (auto& x : cl)
        {
            cr.push_back(x.r);
            cmm.push_back(x.m);
        }
        auto pick = [](int v, size_t k) { return static_cast<size_t>(((v % static_cast<int>(k)) + static_cast<int>(k)) % static_cast<int>(k)); };
        return {finish_r(p.r | ops::window_toggle(op[0].r, [cr, fl, pick, t = Tok{}](const V& v) { fl->real(); return cr[pick(v.get(), cr.size())]; }), c, s, limit, how),
                finish_m(m::window_toggle(p.m, op[0].m, [cmm, fl, pick](int v) { fl->model(); return cmm[pick(v, cmm.size())]; }), c, s, limit, how),
                p.d + " | window_toggle(" + op[0].d + ", " + show_inners(cl) + fault_note(fl) + ")" + tail(s, limit, how), p.sync || op[0].sync || cl[0].sync};
    }
    static P op_group_by(Env& e, P p)
    {
        const int    k     = e.g.range(1, 4);
        auto         kf    = e.fault();
        auto         vf    = gen_f1(e);
        const bool   val   = e.g.coin();
        const bool   desc  = val && e.g.coin(); // custom comparator: descending keys
        auto         s     = gen_sub(e);
        const size_t limit = e.g.chance(1, 4) ? static_cast<size_t>(e.g.range(1, 3)) : 0;
        const bool   flatm = e.g.coin();
        auto         key   = [k](int x) { return ((x % k) + k) % k; };
        auto         kr    = [key, kf, t = Tok{}](const V& v) { kf->real(); return key(v.get()); };
        auto         fr    = [s, t = Tok{}](const auto& g) { return sub_r(s, g.as_dynamic(), g.get_key()); };
        auto         fin   = [&](auto&& o) -> DynObs {
            if (limit && flatm)
                return (o | ops::take(limit) | ops::flat_map(fr)).as_dynamic();
            if (limit)
                return (o | ops::take(limit) | ops::map(fr) | ops::switch_on_next()).as_dynamic();
            if (flatm)
                return (o | ops::flat_map(fr)).as_dynamic();
            return (o | ops::map(fr) | ops::switch_on_next()).as_dynamic();
        };
        DynObs r = !val ? fin(p.r | ops::group_by(kr)) : !desc ? fin(p.r | ops::group_by(kr, RF1{vf}))
                                                               : fin(p.r | ops::group_by(kr, RF1{vf}, std::function<bool(int, int)>{[t = Tok{}](int a, int b) { return a > b; }}));
        auto mk = [key, kf](int x) { kf->model(); return key(x); };
        auto mv = val ? model_of(vf) : F1{[](int x) { return x; }};
        auto mo = m::map<m::Group, m::Source>(m::group_by(p.m, mk, mv, desc), [s](const m::Group& g) { return sub_m(s, g.src, g.key); });
        if (limit)
            mo = take_outer(mo, limit);
        return {r, flat_m(mo, flatm ? 0 : 1), p.d + " | group_by(%" + std::to_string(k) + fault_note(kf) + (val ? "," + vf.d : "") + (desc ? ",desc" : "") + ")" + tail(s, limit, flatm ? 0 : 1), p.sync};
    }
    const std::vector<Op>& ops_part()
    {
        static const std::vector<Op> v{{"window", op_window}, {"window_toggle", op_window_toggle}, {"group_by", op_group_by}};
        return v;
    }
}
