// C11: time-based operators on generated timelines, against reference operators running on reference schedulers.
#include "cold.hpp"
#include <rpp/operators/debounce.hpp>
#include <rpp/operators/delay.hpp>
#include <rpp/operators/filter.hpp>
#include <rpp/operators/observe_on.hpp>
#include <rpp/operators/subscribe_on.hpp>
#include <rpp/operators/throttle.hpp>
#include <rpp/operators/timeout.hpp>

namespace cold
{
    // a source driven by the case
    struct HotInst
    {
        std::optional<rpp::dynamic_observer<V>> r;
        m::ObsP                                 m;
    };
    struct HotSrc
    {
        std::vector<HotInst> r, m;
        bool                 done_r = false, done_m = false;
    };

    static P hot_source(const std::shared_ptr<HotSrc>& h)
    {
        auto ms = [h](m::ObsP d) { h->m.push_back({{}, d}); };
        auto r  = rpp::source::create<V>([h](auto&& o) { h->r.push_back({std::forward<decltype(o)>(o).as_dynamic(), {}}); });
        return {r.as_dynamic(), ms, "driven"};
    }

    // ---- reference operators ----
    static m::Source m_delay(m::Source s, Sch sch, int64_t delay, bool clear)
    {
        struct Item
        {
            int     kind, v; // 0 next 1 error 2 done
            int64_t tp;
        };
        struct St
        {
            std::deque<Item> q;
            bool             active = false, emitting = false;
        };
        return [=](m::ObsP d) {
            auto st  = std::make_shared<St>();
            auto put = [=](int kind, int v) {
                const int64_t tp = C->ms.now(sch) + delay;
                st->q.push_back({kind, v, tp});
                if (st->active)
                    return;
                st->active = true;
                C->ms.schedule(sch, tp, [d] { return !d->live(); }, [=](int64_t) -> std::optional<int64_t> {
                    while (!st->q.empty())
                    {
                        if (st->q.front().tp > C->ms.now(sch))
                            return st->q.front().tp;
                        auto i = st->q.front();
                        st->q.pop_front();
                        st->emitting = true;
                        if (i.kind == 0)
                            d->next(i.v);
                        else if (i.kind == 1)
                            d->error(i.v);
                        else
                            d->done();
                        st->emitting = false;
                    }
                    st->active = false;
                    return {};
                });
            };
            m::subscribe<int>(s, m::up<int>(
                                     d, [=](int v) { put(0, v); }, [=] { put(2, 0); }, [=](int e) {
                                         if (!clear)
                                             return put(1, e);
                                         st->q.clear();
                                         if (st->emitting) // an error that comes while a value is delivered waits for its end
                                             st->q.push_back({1, e, INT64_MIN});
                                         else
                                             d->error(e);
                                     }));
        };
    }
    static m::Source m_debounce(m::Source s, Sch sch, int64_t period)
    {
        struct St
        {
            std::optional<int64_t> at;
            std::optional<int>     v;
        };
        return [=](m::ObsP d) {
            auto st = std::make_shared<St>();
            m::subscribe<int>(s, m::up<int>(
                                     d, [=](int v) {
                                         st->v           = v;
                                         const bool need = !st->at;
                                         st->at          = C->ms.now(sch) + period;
                                         if (need)
                                             C->ms.schedule(sch, *st->at, [d] { return !d->live(); }, [=](int64_t) -> std::optional<int64_t> {
                                                 if (!st->at || !st->v)
                                                     return {};
                                                 if (*st->at > C->ms.now(sch))
                                                     return *st->at;
                                                 const int x = *st->v;
                                                 st->at.reset();
                                                 st->v.reset();
                                                 d->next(x);
                                                 return {};
                                             }); },
                                     [=] {
                                         if (auto v = std::exchange(st->v, std::nullopt))
                                             d->next(*v);
                                         d->done();
                                     }));
        };
    }
    static m::Source m_throttle(m::Source s, Sch clock, int64_t period)
    {
        return [=](m::ObsP d) {
            auto last = std::make_shared<std::optional<int64_t>>();
            m::subscribe<int>(s, m::up<int>(d, [=](int v) {
                                  const int64_t n = C->ms.now(clock);
                                  if (*last && n < **last + period)
                                      return;
                                  *last = n;
                                  d->next(v);
                              }));
        };
    }
    static m::Source m_timeout(m::Source s, Sch sch, int64_t period, m::Source fallback)
    {
        return [=](m::ObsP d) {
            C->ms.guard([&] {
                auto at = std::make_shared<int64_t>(C->ms.now(sch) + period);
                auto u  = m::up<int>(d, [=](int v) {
                    d->next(v);
                    *at = C->ms.now(sch) + period;
                });
                C->ms.schedule(sch, *at, [d, u] { return !d->live() || u->sub->closed; }, [=](int64_t) -> std::optional<int64_t> {
                    if (C->ms.now(sch) < *at)
                        return *at;
                    u->sub->close();
                    m::subscribe<int>(fallback, d);
                    return {};
                });
                if (!u->sub->closed)
                    m::subscribe<int>(s, u);
            });
        };
    }
    static m::Source m_subscribe_on(m::Source s, Sch sch)
    {
        return [=](m::ObsP d) {
            C->ms.schedule(sch, C->ms.now(sch), [d] { return !d->live(); }, [=](int64_t) -> std::optional<int64_t> {
                m::subscribe<int>(s, d);
                return {};
            });
        };
    }

    struct Opt
    {
        std::vector<uint32_t> sch{2, 2, 3, 4}; // Imm Ct Rl Ts
        int                   max_ops  = 3;
        bool                  poke     = false;
        bool                  cold_src = true;
    };

    static void run_case(pbt::Gen& g, const Opt& o)
    {
        vclk::now_ns += 1000000;
        const long v0 = Live::values, t0 = Live::tokens;
        int        events = 0;
        bool       timed = false;
        {
            Ctx ctx;
            C = &ctx;
            struct Reset
            {
                ~Reset() { C = nullptr; }
            } reset;
            auto pick = [&] { return static_cast<Sch>(g.weighted(o.sch)); };
            auto per  = [&] { return static_cast<int64_t>(g.chance(1, 6) ? 0 : 10 * g.range(1, 5)); };

            std::vector<std::shared_ptr<HotSrc>> hots{std::make_shared<HotSrc>()};
            P                                    p = hot_source(hots[0]);
            bool                                 hot = true;
            if (o.cold_src && g.chance(1, 3))
            {
                hot            = false;
                const Sch  s   = pick();
                const auto per_ = s < kRl ? per() : 10 * g.range(1, 4);
                const int  take = g.range(1, 6);
                const auto first = per();
                auto       to_v = rpp::operators::map([](size_t n) { return V{static_cast<int>(n)}; });
                p.r             = on_scheduler(s, [&](const auto& sc) -> Dyn { return (rpp::source::interval(nanoseconds{first}, nanoseconds{per_}, sc) | to_v | rpp::operators::take(static_cast<size_t>(take))).as_dynamic(); });
                p.m             = m::take(interval_model(s, first, false, per_), static_cast<size_t>(take));
                char b[100];
                snprintf(b, sizeof b, "interval(%ld,%ld,%s)|take %d", static_cast<long>(first), static_cast<long>(per_), sch_name[s], take);
                p.d = b;
            }
            bool      locked = false; // an operator that delivers under its lock precedes: nothing downstream may run tasks inline on the test scheduler
            const int nops   = g.range(1, o.max_ops);
            for (int i = 0; i < nops; ++i)
            {
                Sch s = pick();
                if (locked && s == kTs)
                    s = kRl;
                char          b[120];
                const int64_t t = per();
                int           k = static_cast<int>(g.weighted({4, 3, o.poke ? 0u : 4u, 3, o.poke ? 0u : 4u, 2}));
                if (k == 4 && s == kImm)
                    s = locked ? kRl : kTs; // the immediate scheduler would wait for the timeout before subscribing
                switch (k)
                {
                    case 0:
                        p.r = on_scheduler(s, [&](const auto& sc) -> Dyn { return (p.r | rpp::operators::delay(nanoseconds{t}, sc)).as_dynamic(); });
                        p.m = m_delay(p.m, s, t, false);
                        snprintf(b, sizeof b, "|delay(%ld,%s)", static_cast<long>(t), sch_name[s]);
                        break;
                    case 1:
                    {
                        const bool plain = g.coin();
                        p.r              = on_scheduler(s, [&](const auto& sc) -> Dyn {
                            if (plain)
                                return (p.r | rpp::operators::observe_on(sc)).as_dynamic();
                            return (p.r | rpp::operators::observe_on(sc, nanoseconds{t})).as_dynamic();
                        });
                        p.m              = m_delay(p.m, s, plain ? 0 : t, true);
                        snprintf(b, sizeof b, "|observe_on(%s,%ld)", sch_name[s], plain ? 0 : static_cast<long>(t));
                        break;
                    }
                    case 2:
                        p.r    = on_scheduler(s, [&](const auto& sc) -> Dyn { return (p.r | rpp::operators::debounce(nanoseconds{t}, sc)).as_dynamic(); });
                        p.m    = m_debounce(p.m, s, t);
                        locked = true;
                        snprintf(b, sizeof b, "|debounce(%ld,%s)", static_cast<long>(t), sch_name[s]);
                        break;
                    case 3:
                        if (s == kTs || s == kRl)
                            p.r = s == kTs ? (p.r | rpp::operators::throttle<rs::test_scheduler>(nanoseconds{t})).as_dynamic() : (p.r | rpp::operators::throttle<rs::run_loop>(nanoseconds{t})).as_dynamic();
                        else
                            p.r = (p.r | rpp::operators::throttle(nanoseconds{t})).as_dynamic();
                        p.m = m_throttle(p.m, s, t);
                        snprintf(b, sizeof b, "|throttle(%ld, clock of %s)", static_cast<long>(t), sch_name[s]);
                        break;
                    case 4:
                    {
                        const int fb = static_cast<int>(g.below(4));
                        p.r          = on_scheduler(s, [&](const auto& sc) -> Dyn {
                            switch (fb)
                            {
                                case 0: return (p.r | rpp::operators::timeout(nanoseconds{t}, sc)).as_dynamic();
                                case 1: return (p.r | rpp::operators::timeout(nanoseconds{t}, rpp::source::just(rs::immediate{}, V{70}, V{71}), sc)).as_dynamic();
                                case 2: return (p.r | rpp::operators::timeout(nanoseconds{t}, rpp::source::never<V>(), sc)).as_dynamic();
                                default: return (p.r | rpp::operators::timeout(nanoseconds{t}, hot_source(hots.emplace_back(std::make_shared<HotSrc>())).r, sc)).as_dynamic();
                            }
                        });
                        m::Source f;
                        if (fb == 0)
                            f = [](m::ObsP d) { d->error(m::kTimeout); };
                        else if (fb == 1)
                            f = [](m::ObsP d) { d->next(70); d->next(71); d->done(); };
                        else if (fb == 2)
                            f = [](m::ObsP) {};
                        else
                            f = hot_source(hots.back()).m;
                        p.m    = m_timeout(p.m, s, t, f);
                        locked = true;
                        snprintf(b, sizeof b, "|timeout(%ld,%s%s)", static_cast<long>(t), sch_name[s], fb == 0 ? "" : fb == 1 ? ",{70,71}" : fb == 2 ? ",never" : ",another driven");
                        break;
                    }
                    default:
                        p.r = on_scheduler(s, [&](const auto& sc) -> Dyn { return (p.r | rpp::operators::subscribe_on(sc)).as_dynamic(); });
                        p.m = m_subscribe_on(p.m, s);
                        snprintf(b, sizeof b, "|subscribe_on(%s)", sch_name[s]);
                        break;
                }
                p.d += b;
            }
            pbt::note("%s\n", p.d.c_str());

            struct Sub
            {
                rpp::composite_disposable_wrapper rd = rpp::composite_disposable_wrapper::make();
                m::SubP                           md = m::Sub::make();
                int                               rn = 0, mn = 0, rterm = 0, dispose_at = 0, poke_at = 0, poke_kind = 0;
                int                               depth = 0;
            };
            auto s        = std::make_shared<Sub>();
            s->dispose_at = g.chance(1, 6) ? g.range(1, 4) : 0;
            s->poke_at    = o.poke && hot && g.coin() ? g.range(1, 3) : 0;
            s->poke_kind  = static_cast<int>(g.below(4));
            if (s->dispose_at)
                pbt::note("the subscriber disposes at its event %d\n", s->dispose_at);
            if (s->poke_at)
                pbt::note("at its event %d the subscriber makes the source emit %s\n", s->poke_at, s->poke_kind < 2 ? "two values" : s->poke_kind == 2 ? "a value and the completion" : "a value and an error");
            auto emit_r = [&](HotSrc& h, int kind, int v) {
                if (h.done_r)
                    return;
                h.done_r = kind != 0;
                for (size_t i = 0; i < h.r.size(); ++i)
                    if (kind == 0 && i % 2)
                        h.r[i].r->on_next(V{v});
                    else if (kind == 0)
                    {
                        V x{v};
                        h.r[i].r->on_next(x);
                        if (x.moved() || x.get() != v)
                            pbt::fail("a value passed by reference was modified");
                    }
                    else if (kind == 1)
                        h.r[i].r->on_error(std::make_exception_ptr(Err{v}));
                    else
                        h.r[i].r->on_completed();
            };
            auto emit_m = [&](HotSrc& h, int kind, int v) {
                if (h.done_m)
                    return;
                h.done_m = kind != 0;
                for (size_t i = 0; i < h.m.size(); ++i)
                    if (kind == 0)
                        h.m[i].m->next(v);
                    else if (kind == 1)
                        h.m[i].m->error(v);
                    else
                        h.m[i].m->done();
            };
            auto act_r = [&, s] {
                ++s->rn;
                if (s->rn == s->dispose_at)
                    s->rd.dispose();
                if (s->rn == s->poke_at)
                {
                    emit_r(*hots[0], 0, 50);
                    emit_r(*hots[0], s->poke_kind < 2 ? 0 : s->poke_kind == 2 ? 2 : 1, 51);
                }
            };
            auto act_m = [&, s] {
                ++s->mn;
                if (s->mn == s->dispose_at)
                    s->md->close();
                if (s->mn == s->poke_at)
                {
                    emit_m(*hots[0], 0, 50);
                    emit_m(*hots[0], s->poke_kind < 2 ? 0 : s->poke_kind == 2 ? 2 : 1, 51);
                }
            };
            auto code = [](const std::exception_ptr& e) {
                try
                {
                    std::rethrow_exception(e);
                }
                catch (const rpp::utils::timeout_reached&)
                {
                    return static_cast<int>(m::kTimeout);
                }
                catch (...)
                {
                    return error_code(e);
                }
            };
            auto compare = [&](const char* what) {
                ctx.r('x', 0, 0);
                ctx.m('x', 0, 0);
                size_t n = 0;
                while (n < ctx.rlog.size() && n < ctx.mlog.size() && ctx.rlog[n] == ctx.mlog[n])
                    ++n;
                if (n < ctx.rlog.size() || n < ctx.mlog.size())
                {
                    for (size_t i = n > 6 ? n - 6 : 0; i < n; ++i)
                        pbt::note("  both: %s\n", show(ctx.mlog[i]).c_str());
                    pbt::fail("after %s: expected %s, got %s", what, n < ctx.mlog.size() ? show(ctx.mlog[n]).c_str() : "nothing more", n < ctx.rlog.size() ? show(ctx.rlog[n]).c_str() : "nothing more");
                }
            };
            // the first subscription
            m::subscribe<int>(p.m, m::mk<int>(
                                       s->md, [&](int v) { ctx.m('n', 0, v); act_m(); }, [&](int e) { ctx.m('e', 0, e); act_m(); }, [&] { ctx.m('c', 0, 0); act_m(); }));
            p.r.subscribe(
                s->rd,
                [&](const V& v) {
                    ctx.r('n', 0, v.get());
                    if (s->rterm)
                        pbt::fail("value after the terminal");
                    if (s->depth && !o.poke)
                        pbt::fail("a notification inside another one");
                    ++s->depth;
                    act_r();
                    --s->depth;
                },
                [&](const std::exception_ptr& e) {
                    ++s->rterm;
                    ctx.r('e', 0, code(e));
                    act_r();
                },
                [&] {
                    ++s->rterm;
                    ctx.r('c', 0, 0);
                    act_r();
                });
            compare("subscribing");
            const int n = g.range(3, 20);
            int       next_v = 1;
            for (int i = 0; i < n; ++i)
            {
                char what[100];
                switch (g.weighted({6, 4, 4, 1}))
                {
                    case 0:
                    {
                        const size_t h    = g.below(static_cast<uint32_t>(hots.size()));
                        const int    kind = g.chance(1, 10) ? 1 + static_cast<int>(g.below(2)) : 0;
                        const int    v    = kind == 1 ? g.range(10, 19) : next_v++ % 60;
                        snprintf(what, sizeof what, "source %zu: %s %d", h, kind == 0 ? "value" : kind == 1 ? "error" : "completion", v);
                        pbt::note("%s\n", what);
                        emit_m(*hots[h], kind, v);
                        emit_r(*hots[h], kind, v);
                        break;
                    }
                    case 1:
                    {
                        const int d = g.chance(1, 4) ? 5 : 10 * g.range(0, 6);
                        snprintf(what, sizeof what, "test clock += %d", d);
                        pbt::note("%s\n", what);
                        ctx.ms.ts += d;
                        ctx.ms.drain_ts();
                        ctx.ts->time_advance(nanoseconds{d});
                        timed = true;
                        break;
                    }
                    case 2:
                    {
                        const int d = g.chance(1, 4) ? 5 : 10 * g.range(0, 6);
                        snprintf(what, sizeof what, "dispatching the run loop %d later", d);
                        pbt::note("%s\n", what);
                        ctx.ms.t += d;
                        ctx.ms.drain_rl();
                        vclk::now_ns += d;
                        for (int k = 0; ctx.rl->is_any_ready_schedulable(); ++k)
                        {
                            if (k > 3000)
                                pbt::fail("the run loop never gets idle");
                            ctx.rl->dispatch_if_ready();
                        }
                        timed = true;
                        break;
                    }
                    default:
                        if (!g.chance(1, 3))
                        {
                            snprintf(what, sizeof what, "nothing");
                            break;
                        }
                        snprintf(what, sizeof what, "disposing");
                        pbt::note("%s\n", what);
                        s->md->close();
                        s->rd.dispose();
                }
                compare(what);
            }
            events = s->rn;
            s->md->close();
            s->rd.dispose();
            vclk::now_ns += 500;
            for (int k = 0; ctx.rl->is_any_ready_schedulable(); ++k)
            {
                if (k > 3000)
                    pbt::fail("the run loop never gets idle after the subscription was disposed");
                ctx.rl->dispatch_if_ready();
            }
            ctx.ts->time_advance(nanoseconds{500});
            if (ctx.rlog.size() != ctx.mlog.size())
                pbt::fail("something was delivered after the subscription was disposed: %s", show(ctx.rlog.back()).c_str());
            ctx.rl.reset();
            ctx.ts.reset();
            hots.clear();
        }
        if (Live::values != v0)
            pbt::fail("%ld values still alive after everything was dropped", Live::values - v0);
        if (Live::tokens != t0)
            pbt::fail("%ld callables or observers still alive after everything was dropped", Live::tokens - t0);
        pbt::nontrivial(events >= 1 && timed);
        if (events >= 5) pbt::label(">=5 notifications");
    }
}

using namespace cold;
int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C11";
    s.rule             = "at least one notification was delivered and time was advanced; distinct by the full sequence of generator choices";
    s.assumptions      = {"one thread", "virtual clocks", "operators that deliver under a lock (debounce, timeout) are not driven from inside their own delivery"};
    s.case_cpu_limit_s = 4;
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t}); };
    Opt one;
    one.max_ops = 1;
    fam("single", one, 50000, 3000000);
    fam("chain", {}, 60000, 3000000);
    Opt test;
    test.sch = {0, 0, 0, 1};
    fam("test-scheduler", test, 30000, 2000000);
    Opt poke;
    poke.poke     = true;
    poke.cold_src = false;
    fam("nested", poke, 40000, 2000000);
    return pbt::run_main(argc, argv, s);
}
