#include "cold.hpp"
namespace cold
{
    struct Opt
    {
        int  depth = 3;
        bool combine = true;
    };

    P source(pbt::Gen& g, const Opt& o, int depth);

    P leaf(pbt::Gen& g, const Opt&)
    {
        const int id  = C->nodes++;
        const Sch sch = static_cast<Sch>(g.below(4));
        if (sch >= kRl)
            C->any_async = true;
        char b[200];
        switch (g.weighted({5, 3, 2, 2, 2, 1, 1, 1, 3, 3}))
        {
            case 0: // containers
            {
                const bool       shared = g.coin(), rvalue = g.coin();
                const int        n = g.size(4, 40);
                std::vector<V>   vals;
                std::vector<int> ints;
                for (int i = 0; i < n; ++i)
                {
                    ints.push_back(g.range(0, 5));
                    vals.emplace_back(ints.back());
                }
                const int  kind = static_cast<int>(g.below(5));
                const char* names[] = {"vector", "list", "deque", "forward_list", "array"};
                Dyn         r = Dyn{rpp::source::never<V>()};
                switch (kind)
                {
                    case 0: r = iterable_real(vals, shared, rvalue, sch); break;
                    case 1: r = iterable_real(std::list<V>(vals.begin(), vals.end()), shared, rvalue, sch); break;
                    case 2: r = iterable_real(std::deque<V>(vals.begin(), vals.end()), shared, rvalue, sch); break;
                    case 3: r = iterable_real(std::forward_list<V>(vals.begin(), vals.end()), shared, rvalue, sch); break;
                    default:
                    {
                        std::array<V, 3> a;
                        ints.resize(3);
                        for (size_t i = 0; i < 3; ++i)
                            a[i] = V{ints[i]};
                        r = iterable_real(a, shared, rvalue, sch);
                    }
                }
                snprintf(b, sizeof b, "from_iterable<%s>(%s of %zu%s, %s)", shared ? "shared" : "stack", names[kind], ints.size(), rvalue ? " moved in" : "", sch_name[sch]);
                return {r, iterable_model({static_cast<int>(ints.size()), [ints](int i) { return ints[static_cast<size_t>(i)]; }}, sch), b, shared && kind != 4};
            }
            case 1: // just
            {
                const bool       shared = g.coin(), def = g.coin();
                const int        n = g.range(1, 3);
                std::vector<int> ints;
                for (int i = 0; i < n; ++i)
                    ints.push_back(g.range(0, 5));
                const Sch s2   = def ? kCt : sch;
                V         a{ints[0]}, bb{ints[ints.size() > 1 ? 1 : 0]}, c{ints.back()};
                auto      make = [&]<typename MM>(MM) -> Dyn {
                    if (def)
                        switch (n)
                        {
                            case 1: return rpp::source::just<MM>(a).as_dynamic();
                            case 2: return rpp::source::just<MM>(a, V{ints[1]}).as_dynamic();
                            default: return rpp::source::just<MM>(V{ints[0]}, bb, std::move(c)).as_dynamic();
                        }
                    return on_scheduler(sch, [&](const auto& s) -> Dyn {
                        switch (n)
                        {
                            case 1: return rpp::source::just<MM>(s, V{ints[0]}).as_dynamic();
                            case 2: return rpp::source::just<MM>(s, a, bb).as_dynamic();
                            default: return rpp::source::just<MM>(s, std::move(a), bb, c).as_dynamic();
                        }
                    });
                };
                Dyn r = shared ? make(rpp::memory_model::use_shared{}) : make(rpp::memory_model::use_stack{});
                if (bb.moved())
                    pbt::fail("just moved from an lvalue");
                snprintf(b, sizeof b, "just<%s>(%d values, %s)", shared ? "shared" : "stack", n, def ? "default scheduler" : sch_name[sch]);
                return {r, iterable_model({n, [ints](int i) { return ints[static_cast<size_t>(i)]; }}, s2), b, shared};
            }
            case 2: // endless or throwing range
            {
                auto d = std::make_shared<RangeData>();
                C->ranges.push_back(d);
                d->n    = g.range(0, 5);
                d->code = g.range(10, 19);
                const int  how    = static_cast<int>(g.below(4));
                const int  pos    = d->n ? static_cast<int>(g.below(static_cast<uint32_t>(d->n))) : 0;
                const bool shared = g.coin(), rvalue = g.coin();
                int        take   = 0;
                switch (how)
                {
                    case 0: d->n = -1; take = g.range(1, 5); break;
                    case 1: d->throw_deref = pos; break;
                    case 2: d->throw_inc = pos; break;
                    default: d->throw_begin = true; break;
                }
                Dyn       r = iterable_real(Range{d}, shared, rvalue, sch);
                const int n = d->n, code = d->code, td = d->throw_deref, ti = d->throw_inc;
                const bool tb = d->throw_begin;
                Seq       s{n, [=](int i) { if (i == td) throw m::MErr{code}; return i; }, [=](int i) { if (i == ti) throw m::MErr{code}; }, [=] { if (tb) throw m::MErr{code}; }};
                auto      ms = iterable_model(s, sch);
                if (take)
                {
                    r  = Dyn{r | rpp::operators::take(static_cast<size_t>(take))};
                    ms = m::take(ms, static_cast<size_t>(take));
                }
                snprintf(b, sizeof b, "from_iterable<%s>(range of %d, %s, %s)%s%d", shared ? "shared" : "stack", n, how == 0 ? "endless" : how == 1 ? "throws when read" : how == 2 ? "throws when stepped" : "throws at begin", sch_name[sch], take ? "|take " : " at ", take ? take : pos);
                return {r, ms, b};
            }
            case 3: // from_callable
            {
                const bool shared = g.coin(), throws = g.chance(1, 4), is_void = g.chance(1, 4);
                const int  v      = g.range(0, 5);
                Tok        tok;
                auto       call = [id, v, throws, tok] { C->r('I', id, 0); if (throws) throw Err{30 + v}; return V{v}; };
                auto       vcall = [id, v, throws, tok] { C->r('I', id, 0); if (throws) throw Err{30 + v}; };
                auto       make = [&]<typename MM>(MM) -> Dyn {
                    if (is_void)
                        return (rpp::source::from_callable<MM>(vcall) | rpp::operators::map([v](const rpp::utils::none&) { return V{v}; })).as_dynamic();
                    return rpp::source::from_callable<MM>(call).as_dynamic();
                };
                Dyn r = shared ? make(rpp::memory_model::use_shared{}) : make(rpp::memory_model::use_stack{});
                auto ms = [=](m::ObsP d) {
                    C->ms.schedule(kCt, C->ms.t, [d] { return !d->live(); }, [=](int64_t) -> std::optional<int64_t> {
                        C->m('I', id, 0);
                        if (throws)
                            d->error(30 + v);
                        else
                        {
                            d->next(v);
                            d->done();
                        }
                        return {};
                    });
                };
                snprintf(b, sizeof b, "#%d from_callable<%s>(%s%s)", id, shared ? "shared" : "stack", throws ? "throws" : "returns", is_void ? " void" : "");
                return {r, ms, b};
            }
            case 4: // create
            {
                std::vector<int> ints;
                for (int n = g.range(0, 4); n > 0; --n)
                    ints.push_back(g.range(0, 5));
                const int  term  = static_cast<int>(g.below(3));
                const bool checks = g.coin();
                Tok        tok;
                auto       r = rpp::source::create<V>([id, ints, term, checks, tok](auto&& obs) {
                    C->r('B', id, 0);
                    int k = 0;
                    for (int i : ints)
                    {
                        if (checks && obs.is_disposed())
                            return;
                        V v{i};
                        if (k++ % 2)
                            obs.on_next(std::move(v));
                        else
                            obs.on_next(v);
                    }
                    if (term == 1)
                        obs.on_completed();
                    else if (term == 2)
                        obs.on_error(std::make_exception_ptr(Err{9}));
                }).as_dynamic();
                auto ms = [=](m::ObsP d) {
                    C->m('B', id, 0);
                    for (int i : ints)
                        d->next(i);
                    if (term == 1)
                        d->done();
                    else if (term == 2)
                        d->error(9);
                };
                snprintf(b, sizeof b, "#%d create(%zu values, %s)", id, ints.size(), term == 0 ? "stays" : term == 1 ? "completes" : "fails");
                return {r, ms, b};
            }
            case 5: return {Dyn{rpp::source::empty<V>()}, [](m::ObsP d) { d->done(); }, "empty"};
            case 6: return {Dyn{rpp::source::never<V>()}, [](m::ObsP) {}, "never"};
            case 7: return {Dyn{rpp::source::error<V>(std::make_exception_ptr(Err{8}))}, [](m::ObsP d) { d->error(8); }, "error"};
            case 8: // interval
            {
                const bool    absolute = g.chance(1, 3);
                const bool    must     = sch < kRl;
                const int     take     = must || g.coin() ? g.range(1, 5) : 0;
                const int64_t period   = take && g.chance(1, 4) ? 0 : 10 * g.range(1, 4);
                const bool    one      = !absolute && g.chance(1, 3);
                const int64_t first    = absolute ? 10 * g.range(0, 15) : one ? period : 10 * g.range(0, 4);
                auto          to_v     = rpp::operators::map([](size_t n) { return V{static_cast<int>(n)}; });
                Dyn           r        = on_scheduler(sch, [&](const auto& s) -> Dyn {
                    if (one)
                        return (rpp::source::interval(nanoseconds{period}, s) | to_v).as_dynamic();
                    if (absolute)
                        return (rpp::source::interval(rs::time_point{nanoseconds{(sch == kTs ? C->ts_base : C->base) + first}}, nanoseconds{period}, s) | to_v).as_dynamic();
                    return (rpp::source::interval(nanoseconds{first}, nanoseconds{period}, s) | to_v).as_dynamic();
                });
                auto ms = interval_model(sch, first, absolute, period);
                if (take)
                {
                    r  = Dyn{r | rpp::operators::take(static_cast<size_t>(take))};
                    ms = m::take(ms, static_cast<size_t>(take));
                }
                snprintf(b, sizeof b, "interval(%s%ld, every %ld, %s)", absolute ? "from t=" : "in ", static_cast<long>(first), static_cast<long>(period), sch_name[sch]);
                return {r, ms, std::string{b} + (take ? "|take " + std::to_string(take) : "")};
            }
            default: // timer
            {
                const bool    absolute = g.chance(1, 3);
                const int64_t when     = 10 * g.range(0, absolute ? 15 : 5);
                auto          to_v     = rpp::operators::map([](size_t n) { return V{static_cast<int>(n)}; });
                Dyn           r        = on_scheduler(sch, [&](const auto& s) -> Dyn {
                    if (absolute)
                        return (rpp::source::timer(rs::time_point{nanoseconds{(sch == kTs ? C->ts_base : C->base) + when}}, s) | to_v).as_dynamic();
                    return (rpp::source::timer(nanoseconds{when}, s) | to_v).as_dynamic();
                });
                snprintf(b, sizeof b, "timer(%s%ld, %s)", absolute ? "at t=" : "in ", static_cast<long>(when), sch_name[sch]);
                return {r, m::take(interval_model(sch, when, absolute, 0), 1), b};
            }
        }
    }

    P source(pbt::Gen& g, const Opt& o, int depth)
    {
        if (depth <= 0 || g.chance(1, 2))
            return leaf(g, o);
        switch (g.weighted({3, 3, 3, 2, o.combine ? 2u : 0u}))
        {
            case 0: // defer
            {
                const int  id     = C->nodes++;
                const bool throws = g.chance(1, 5), statics = g.coin();
                P          in     = source(g, o, depth - 1);
                Tok        tok;
                Dyn        r = statics ? Dyn{rpp::source::defer([id, throws, tok, in] { C->r('F', id, 0); if (throws) throw Err{40}; return in.r | rpp::operators::map([](const V& v) { return V{v}; }); })}
                                       : Dyn{rpp::source::defer([id, throws, tok, in] { C->r('F', id, 0); if (throws) throw Err{40}; return in.r; })};
                auto       ms = [=](m::ObsP d) {
                    C->m('F', id, 0);
                    if (throws)
                        d->error(40);
                    else
                        m::subscribe<int>(in.m, d);
                };
                return {r, ms, "#" + std::to_string(id) + " defer(" + (throws ? "throws " : "") + in.d + ")"};
            }
            case 1: // concat of a container
            {
                const bool             shared = g.coin(), rvalue = g.coin();
                std::vector<Dyn>       rv;
                std::vector<m::Source> mv;
                std::string            d = shared ? "concat<shared>({" : "concat({";
                for (int n = g.range(0, 3); n > 0; --n)
                {
                    P p = source(g, o, depth - 1);
                    rv.push_back(p.r);
                    mv.push_back(p.m);
                    d += p.d + "; ";
                }
                Dyn r = Dyn{rpp::source::never<V>()};
                if (shared)
                    r = rvalue ? Dyn{rpp::source::concat<rpp::memory_model::use_shared>(std::move(rv))} : Dyn{rpp::source::concat<rpp::memory_model::use_shared>(rv)};
                else
                    r = rvalue ? Dyn{rpp::source::concat<rpp::memory_model::use_stack>(std::move(rv))} : Dyn{rpp::source::concat<rpp::memory_model::use_stack>(rv)};
                return {r, m::concat(m::of_sources(mv)), d + "})"};
            }
            case 2: // concat of arguments
            {
                const bool shared = g.coin();
                P          a = source(g, o, depth - 1), b = source(g, o, depth - 1);
                auto       make = [&]<typename MM>(MM) -> Dyn {
                    switch (g.below(4))
                    {
                        case 0: return Dyn{rpp::source::concat<MM>(a.r, b.r)};
                        case 1: return Dyn{rpp::source::concat<MM>(a.r, b.r | rpp::operators::map([](const V& v) { return v; }))};
                        case 2: return Dyn{rpp::source::concat<MM>(a.r | rpp::operators::map([](const V& v) { return v; }), rpp::source::empty<V>(), b.r)};
                        default: return Dyn{rpp::source::concat<MM>(a.r, rpp::source::just(rs::immediate{}, V{3}), b.r, rpp::source::empty<V>())};
                    }
                };
                const size_t before = pbt::g_sh->n;
                Dyn          r      = shared ? make(rpp::memory_model::use_shared{}) : make(rpp::memory_model::use_stack{});
                const auto   kind   = pbt::g_sh->c[before];
                std::vector<m::Source> mv{a.m};
                if (kind == 3)
                    mv.push_back([](m::ObsP d) { d->next(3); d->done(); });
                mv.push_back(b.m);
                return {r, m::concat(m::of_sources(mv)), std::string{shared ? "concat<shared>(" : "concat("} + a.d + ", " + (kind == 3 ? "3, " : "") + b.d + ")"};
            }
            case 3:
            {
                P   p = source(g, o, depth - 1);
                int n = g.range(1, 4);
                return {Dyn{p.r | rpp::operators::take(static_cast<size_t>(n))}, m::take(p.m, static_cast<size_t>(n)), p.d + "|take " + std::to_string(n)};
            }
            default:
            {
                P    a = source(g, o, depth - 1), b = source(g, o, depth - 1);
                auto mm = m::merge(m::of_sources({a.m, b.m}));
                return {Dyn{a.r | rpp::operators::merge_with(b.r)}, [=](m::ObsP d) { C->ms.guard([&] { m::subscribe<int>(mm, d); }); }, "(" + a.d + "|merge_with(" + b.d + "))"};
            }
        }
    }

    struct Sub
    {
        int                               id, src, how, pos = 0, arg = 0; // at event pos: 1 subscribe source arg, 2 dispose self, 3 dispose sub arg
        int                               rn = 0, mn = 0, rterm = 0;
        rpp::composite_disposable_wrapper rd = rpp::composite_disposable_wrapper::make();
        m::SubP                           md = m::Sub::make();
        long                              derefs = -1;
        bool                              started_r = false, started_m = false;
    };

    static void run_case(pbt::Gen& g, const Opt& o)
    {
        vclk::now_ns += 1000000;
        const long v0 = Live::values, t0 = Live::tokens;
        bool       shared_only = true;
        int        nsrc_used = 0, events = 0;
        {
            Ctx ctx;
            C = &ctx;
            struct Reset
            {
                ~Reset() { C = nullptr; }
            } reset;
            std::vector<P> src;
            const int      ns = g.range(1, 2);
            for (int i = 0; i < ns; ++i)
            {
                src.push_back(source(g, o, g.below(4) ? g.range(0, o.depth) : 0));
                pbt::note("source %d: %s\n", i, src.back().d.c_str());
                shared_only &= src.back().shared_leaf;
            }
            if (!ctx.rlog.empty())
                pbt::fail("something ran before the first subscription: %s", show(ctx.rlog[0]).c_str());
            for (auto& r : ctx.ranges)
                if (r->derefs)
                    pbt::fail("a container was read before the first subscription");

            // subscriptions: the first `top` are subscribed by operations, the rest from callbacks
            std::vector<std::shared_ptr<Sub>> subs;
            const int                         nsubs = g.range(1, 5);
            for (int i = 0; i < nsubs; ++i)
            {
                auto s = std::make_shared<Sub>();
                s->id  = i;
                s->src = static_cast<int>(g.below(static_cast<uint32_t>(ns)));
                s->how = g.chance(1, 3) ? g.range(1, 3) : 0;
                s->pos = g.range(1, 4);
                s->arg = static_cast<int>(g.below(static_cast<uint32_t>(nsubs)));
                subs.push_back(s);
            }
            std::function<void(int)> sub_r, sub_m;
            auto                     act_r = [&](const std::shared_ptr<Sub>& s) {
                if (++s->rn != s->pos)
                    return;
                if (s->how == 1)
                    sub_r(s->arg);
                else if (s->how == 2)
                    s->rd.dispose();
                else if (s->how == 3)
                    subs[static_cast<size_t>(s->arg)]->rd.dispose();
            };
            auto act_m = [&](const std::shared_ptr<Sub>& s) {
                if (++s->mn != s->pos)
                    return;
                if (s->how == 1)
                    sub_m(s->arg);
                else if (s->how == 2)
                    s->md->close();
                else if (s->how == 3)
                    subs[static_cast<size_t>(s->arg)]->md->close();
            };
            sub_r = [&](int i) {
                auto s = subs[static_cast<size_t>(i)];
                if (s->started_r)
                    return;
                s->started_r = true;
                src[static_cast<size_t>(s->src)].r.subscribe(
                    s->rd,
                    [&ctx, s, &act_r](const V& v) {
                        ctx.r('n', s->id, v.get());
                        if (s->rterm)
                            pbt::fail("value after the terminal");
                        act_r(s);
                    },
                    [&ctx, s, &act_r](const std::exception_ptr& e) {
                        ++s->rterm;
                        ctx.r('e', s->id, error_code(e));
                        act_r(s);
                    },
                    [&ctx, s, &act_r] {
                        ++s->rterm;
                        ctx.r('c', s->id, 0);
                        act_r(s);
                    });
            };
            sub_m = [&](int i) {
                auto s = subs[static_cast<size_t>(i)];
                if (s->started_m)
                    return;
                s->started_m = true;
                m::subscribe<int>(src[static_cast<size_t>(s->src)].m, m::mk<int>(
                                                                          s->md, [&ctx, s, &act_m](int v) { ctx.m('n', s->id, v); act_m(s); }, [&ctx, s, &act_m](int e) { ctx.m('e', s->id, e); act_m(s); }, [&ctx, s, &act_m] { ctx.m('c', s->id, 0); act_m(s); }));
            };

            const long copies0 = Live::copies;
            const int  nops    = g.range(2, 8);
            std::vector<std::function<void(bool)>> ops;
            int                                    next_sub = 0;
            auto                                   compare  = [&](const char* what) {
                ctx.r('x', 0, 0);
                ctx.m('x', 0, 0);
                size_t n = 0;
                while (n < ctx.rlog.size() && n < ctx.mlog.size() && ctx.rlog[n] == ctx.mlog[n])
                    ++n;
                if (n < ctx.rlog.size() || n < ctx.mlog.size())
                {
                    for (size_t i = n > 6 ? n - 6 : 0; i < n; ++i)
                        pbt::note("  both: %s\n", show(ctx.mlog[i]).c_str());
                    pbt::fail("after %s: expected %s, got %s", what, n < ctx.mlog.size() ? show(ctx.mlog[n]).c_str() : "nothing more", n < ctx.rlog.size() ? show(ctx.rlog[n]).c_str() : "nothing more");
                }
            };
            for (int i = 0; i < nops; ++i)
            {
                char      what[80];
                const int k = i == 0 ? 0 : static_cast<int>(g.weighted({4, 1, 3, 3, 1, 1}));
                switch (k)
                {
                    case 0:
                        snprintf(what, sizeof what, "subscribing %d", next_sub % nsubs);
                        pbt::note("%s\n", what);
                        sub_m(next_sub % nsubs);
                        sub_r(next_sub % nsubs);
                        ++next_sub;
                        break;
                    case 1:
                    {
                        snprintf(what, sizeof what, "subscribing %d and %d while owning current_thread", next_sub % nsubs, (next_sub + 1) % nsubs);
                        pbt::note("%s\n", what);
                        ctx.ms.guard([&] { sub_m(next_sub % nsubs); sub_m((next_sub + 1) % nsubs); });
                        {
                            const auto gd = rs::current_thread::own_queue_and_drain_finally_if_not_owned();
                            sub_r(next_sub % nsubs);
                            sub_r((next_sub + 1) % nsubs);
                        }
                        next_sub += 2;
                        break;
                    }
                    case 2:
                    {
                        const int d = 10 * g.range(0, 4);
                        snprintf(what, sizeof what, "test clock += %d", d);
                        pbt::note("%s\n", what);
                        ctx.ms.ts += d;
                        ctx.ms.drain_ts();
                        ctx.ts->time_advance(nanoseconds{d});
                        break;
                    }
                    case 3:
                    {
                        const int d = 10 * g.range(0, 4);
                        snprintf(what, sizeof what, "dispatching the run loop %d later", d);
                        pbt::note("%s\n", what);
                        ctx.ms.t += d;
                        ctx.ms.drain_rl();
                        vclk::now_ns += d;
                        for (int n = 0; ctx.rl->is_any_ready_schedulable(); ++n)
                        {
                            if (n > 3000)
                                pbt::fail("the run loop never gets idle");
                            ctx.rl->dispatch_if_ready();
                        }
                        break;
                    }
                    default:
                    {
                        auto& s = subs[g.below(static_cast<uint32_t>(nsubs))];
                        snprintf(what, sizeof what, "disposing %d", s->id);
                        pbt::note("%s\n", what);
                        s->md->close();
                        s->rd.dispose();
                        break;
                    }
                }
                compare(what);
            }
            for (auto& s : subs)
                if (s->how)
                    pbt::note("subscriber %d (source %d) at its event %d: %s %d\n", s->id, s->src, s->pos, s->how == 1 ? "subscribes" : s->how == 2 ? "disposes itself" : "disposes", s->arg);
            for (auto& s : subs)
            {
                nsrc_used += s->started_r;
                events += s->rn;
            }
            if (shared_only && Live::copies != copies0)
                pbt::fail("%ld copies of values were made although their storage is shared", Live::copies - copies0);
            for (auto& s : subs)
            {
                s->md->close();
                s->rd.dispose();
            }
            // reading stops with disposal
            const long d0 = [&] { long n = 0; for (auto& r : ctx.ranges) n += r->derefs; return n; }();
            vclk::now_ns += 500;
            for (int n = 0; ctx.rl->is_any_ready_schedulable(); ++n)
            {
                if (n > 3000)
                    pbt::fail("the run loop never gets idle after every subscription was disposed");
                ctx.rl->dispatch_if_ready();
            }
            ctx.ts->time_advance(nanoseconds{500});
            const size_t n0 = ctx.rlog.size();
            if (n0 != ctx.mlog.size())
                pbt::fail("something was delivered after every subscription was disposed: %s", show(ctx.rlog.back()).c_str());
            long d1 = 0;
            for (auto& r : ctx.ranges)
                d1 += r->derefs;
            if (d1 != d0)
                pbt::fail("a container was read %ld more times after every subscription was disposed", d1 - d0);
            ctx.rl.reset();
            ctx.ts.reset();
        }
        if (Live::values != v0)
            pbt::fail("%ld values still alive after everything was dropped", Live::values - v0);
        if (Live::tokens != t0)
            pbt::fail("%ld callables or observers still alive after everything was dropped", Live::tokens - t0);
        pbt::nontrivial(events >= 2);
        if (nsrc_used > 1) pbt::label("several subscribers");
        if (shared_only) pbt::label("copies counted");
        if (events >= 10) pbt::label(">=10 notifications");
    }
}

using namespace cold;
int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property    = "C10";
    s.rule        = "at least two notifications were delivered; distinct by the full sequence of generator choices";
    s.assumptions = {"one thread", "virtual monotonic clock"};
    Opt flat;
    flat.depth = 0;
    s.families.push_back({"leaf", [flat](pbt::Gen& g) { run_case(g, flat); }, 70000, 3000000});
    Opt nest;
    s.families.push_back({"nested", [nest](pbt::Gen& g) { run_case(g, nest); }, 70000, 3000000});
    return pbt::run_main(argc, argv, s);
}
