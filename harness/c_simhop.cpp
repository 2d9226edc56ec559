// C23: operators that move events to another thread, under simulated schedules and virtual time.
// C24: blocking subscription.
#include "simobs.hpp"
#include <rpp/schedulers.hpp>
#include <mutex>
#include <optional>

namespace
{
    using namespace so;
    namespace rs  = rpp::schedulers;
    namespace ops = rpp::operators;
    using Obs     = rpp::dynamic_observable<SV>;
    using std::chrono::nanoseconds;

    enum HopKind { ObserveOn, Delay, SubscribeOn, Debounce, Timeout, TimeoutFallback, kHops };
    const char* hop_names[] = {"observe_on", "delay", "subscribe_on", "debounce", "timeout", "timeout(fallback)"};
    enum SchedKind { NT, TP, RL, kScheds };
    const char* sched_names[] = {"new_thread", "thread_pool", "run_loop"};
    struct Hop
    {
        int kind = 0, sched = 0, period = 0;
    };
    struct Act
    {
        int kind; // Next, Error, Completed
        int gap;
    };
    struct Plan
    {
        bool             sync = false;
        std::vector<Act> acts;
        std::vector<Hop> hops;
        int              pool = 1;
        int              nap = 0; // the subscriber sleeps in every callback
        int              dispose = -1, dispose_in = -1;
        bool             timing = false;
        int              fallback_values = 1;
        bool has(int k) const
        {
            for (auto& h : hops)
                if (h.kind == k)
                    return true;
            return false;
        }
    };
    struct Em
    {
        int     kind, v;
        long    b, e;
        int64_t t, te;
    };
    Em      g_em[32];
    int     g_nem, g_src_thread = -1, g_subscribed, g_released, g_dispatcher = -1, g_disposer = -1, g_source_sub_thread = -1;
    int64_t g_t_sub;
    const Plan*                                   P;
    std::optional<rpp::composite_disposable_wrapper> g_d;

    void hook(int, int at)
    {
        if (P->nap)
            sim::sleep(P->nap);
        if (P->dispose_in == at)
            so::dispose(*g_d, 0);
    }

    template<typename O>
    void emit_all(const O& o)
    {
        int seq = 0;
        for (auto& a : P->acts)
        {
            if (a.gap)
                sim::sleep(a.gap);
            sim::point();
            int k;
            {
                sim::Quiet q;
                k       = g_nem++;
                g_em[k] = {a.kind, seq++, sim::steps(), LONG_MAX, sim::now(), 0};
            }
            if (a.kind == Next)
                o.on_next(SV{k});
            else if (a.kind == Error)
                o.on_error(make_error(k));
            else
                o.on_completed();
            sim::Quiet q;
            g_em[k].e  = sim::steps();
            g_em[k].te = sim::now();
        }
    }
    std::optional<rpp::dynamic_observer<SV>> g_kept;
    std::mutex                               g_kept_mutex;
    void drop_kept()
    {
        std::lock_guard lock{g_kept_mutex};
        g_kept.reset();
    }

    Obs source()
    {
        return rpp::source::create<SV>([](auto&& obs) {
                   {
                       sim::Quiet q;
                       ++g_subscribed;
                       g_source_sub_thread = sim::self();
                   }
                   obs.set_upstream(rpp::disposable_wrapper{rpp::make_callback_disposable([]() noexcept {
                       {
                           sim::Quiet q;
                           if (++g_released > 1)
                               pbt::fail("the source was released twice");
                       }
                       sim::point();
                   })});
                   auto run = [o = std::forward<decltype(obs)>(obs).as_dynamic()]() mutable {
                       {
                           sim::Quiet q;
                           g_src_thread = sim::self();
                       }
                       emit_all(o);
                       if (P->acts.empty() || P->acts.back().kind == Next)
                       {
                           std::lock_guard lock{g_kept_mutex};
                           g_kept.emplace(std::move(o)); // a source that does not end keeps its observer
                       }
                   };
                   if (P->sync)
                       run();
                   else
                       std::thread(std::move(run)).detach();
               })
            .as_dynamic();
    }
    Obs fallback()
    {
        return rpp::source::create<SV>([](auto&& obs) {
                   for (int i = 0; i < P->fallback_values; ++i)
                       obs.on_next(SV{1000 + i});
                   obs.on_completed();
               })
            .as_dynamic();
    }

    struct Machine
    {
        std::optional<rs::thread_pool> pool;
        std::optional<rs::run_loop>    rl;
        std::optional<std::thread>     dispatcher;
        bool                           stop = false;
        bool                           need_pool = false, need_rl = false;

        explicit Machine(const Plan& p)
        {
            for (auto& h : p.hops)
            {
                need_pool |= h.sched == TP;
                need_rl |= h.sched == RL;
            }
            if (need_pool)
                pool.emplace(static_cast<size_t>(p.pool));
            if (need_rl)
            {
                rl.emplace();
                dispatcher.emplace([this] {
                    {
                        sim::Quiet q;
                        g_dispatcher = sim::self();
                    }
                    while (!stop)
                        rl->dispatch();
                });
            }
        }
        Obs build(const Plan& p)
        {
            Obs o = source();
            for (auto& h : p.hops)
            {
                auto with = [&](const auto& s) {
                    switch (h.kind)
                    {
                        case ObserveOn: o = (o | ops::observe_on(s, nanoseconds{h.period})).as_dynamic(); break;
                        case Delay: o = (o | ops::delay(nanoseconds{h.period}, s)).as_dynamic(); break;
                        case SubscribeOn: o = (o | ops::subscribe_on(s)).as_dynamic(); break;
                        case Debounce: o = (o | ops::debounce(nanoseconds{h.period}, s)).as_dynamic(); break;
                        case Timeout: o = (o | ops::timeout(nanoseconds{h.period}, s)).as_dynamic(); break;
                        case TimeoutFallback: o = (o | ops::timeout(nanoseconds{h.period}, fallback(), s)).as_dynamic(); break;
                    }
                };
                if (h.sched == NT)
                    with(rs::new_thread{});
                else if (h.sched == TP)
                    with(*pool);
                else
                    with(*rl);
            }
            return o;
        }
        void end()
        {
            if (dispatcher)
            {
                struct Stop
                {
                    bool is_disposed() const { return false; }
                    void on_error(const std::exception_ptr&) const {}
                };
                rl->create_worker().schedule([this](const Stop&) { stop = true; return rs::optional_delay_from_now{}; }, Stop{});
                dispatcher->join();
            }
            pool.reset();
            rl.reset();
        }
    };

    std::string history()
    {
        std::string r = "\nemitted:";
        auto        rel = [](int64_t t) { return std::to_string(t - 1000000000); };
        for (int i = 0; i < g_nem; ++i)
            r += " " + (g_em[i].kind == Next ? std::to_string(g_em[i].v) : g_em[i].kind == Error ? "E" : "|") + "@" + rel(g_em[i].t);
        r += "\ndelivered:";
        for (int i = 0; i < g_sub[0].n; ++i)
            r += " " + (g_sub[0].ev[i].kind == Next ? std::to_string(g_sub[0].ev[i].v) : g_sub[0].ev[i].kind == Error ? "E" : "|") + "@" + rel(g_sub[0].ev[i].t) + "(thread " + std::to_string(g_sub[0].ev[i].thread) + ")";
        return r;
    }
#define FAIL(...)                                                              \
    do                                                                         \
    {                                                                          \
        char b_[300];                                                          \
        snprintf(b_, sizeof b_, __VA_ARGS__);                                  \
        pbt::fail("%s%s", b_, history().c_str());                              \
    } while (0)

    // is [x] what may be delivered, given what was emitted (source order, completeness, terminal)?
    void check_content(const Plan& p)
    {
        const Sub& s       = g_sub[0];
        const bool disposed = s.db >= 0;
        const bool obs_on = p.has(ObserveOn), deb = p.has(Debounce), tmo = p.has(Timeout) || p.has(TimeoutFallback);
        int        term = -1; // of the source
        for (int i = 0; i < g_nem; ++i)
            if (g_em[i].kind != Next)
                term = i;
        const int values = term >= 0 ? term : g_nem;
        // where the source's part ends and a timeout's begins
        int  n = 0, last = -1;
        bool timed_out = false;
        for (int i = 0; i < s.n; ++i)
        {
            const auto& e = s.ev[i];
            if (e.kind == Next && e.v < 1000)
            {
                if (timed_out)
                    FAIL("value %d of the source after the timeout", e.v);
                if (e.v <= last)
                    FAIL("value %d delivered after value %d", e.v, last);
                if (e.v >= values)
                    FAIL("value %d was never emitted", e.v);
                if (!deb && e.v != last + 1)
                    FAIL("value %d is missing", last + 1);
                if (e.b < g_em[e.v].b)
                    FAIL("value %d delivered before it was emitted", e.v);
                last = e.v;
                ++n;
            }
            else if (e.kind == Next)
            {
                if (!p.has(TimeoutFallback))
                    FAIL("value %d is invented", e.v);
                timed_out = true;
            }
            else if (e.kind == Error)
            {
                if (e.v == -7)
                {
                    if (!tmo)
                        FAIL("an error nobody emitted");
                    timed_out = true;
                }
                else if (term < 0 || g_em[term].kind != Error || e.v != term)
                    FAIL("an error nobody emitted");
            }
            else if (!timed_out && (term < 0 || g_em[term].kind != Completed))
            {
                if (p.has(TimeoutFallback) && !p.fallback_values)
                    timed_out = true;
                else if (p.has(TimeoutFallback) && deb)
                    timed_out = true; // the fallback's values can be debounced away
                else
                    FAIL("completed although the source did not complete");
            }
        }
        if (timed_out)
            pbt::label("timed out");
        if (disposed)
            return;
        if (timed_out)
        {
            if (!s.ended())
                FAIL("no terminal after the timeout");
            return;
        }
        if (tmo && term < 0)
            FAIL("a source that stays silent did not time out");
        if (term >= 0)
        {
            if (!s.ended())
                FAIL("the terminal notification is lost");
            const int want = g_em[term].kind;
            const int got  = s.ev[s.n - 1].kind;
            if (got != want && !(p.has(TimeoutFallback) && got == Completed))
                FAIL("the terminal notification is a different one");
            if (got == Completed && want == Completed)
            {
                if (values && last != values - 1 && !(p.has(TimeoutFallback) && p.fallback_values == 0))
                    FAIL("value %d is missing at the end", last + 1);
            }
            else if (want == Error && !obs_on && !deb && last != values - 1 && !tmo)
                FAIL("value %d is missing before the error", last + 1);
        }
        else if (values && last != values - 1)
            FAIL("value %d is missing", last + 1);
    }

    void check_threads(const Plan& p)
    {
        const Sub& s = g_sub[0];
        if (p.hops.empty())
            return;
        const Hop& h = p.hops.back();
        if (h.kind == ObserveOn || h.kind == Delay)
        {
            int th = -1;
            for (int i = 0; i < s.n; ++i)
            {
                const auto& e = s.ev[i];
                if (e.kind == Error && h.kind == ObserveOn)
                    continue;
                if (h.sched == RL && e.thread != g_dispatcher)
                    FAIL("event %d was delivered on thread %d instead of the run loop's %d", i, e.thread, g_dispatcher);
                bool shared = false; // the source may be on the same pool thread
                for (size_t k = 0; k + 1 < p.hops.size(); ++k)
                    shared |= p.hops[k].sched == h.sched && h.sched == TP;
                if (h.sched != RL && (e.thread == 0 || (e.thread == g_src_thread && !shared) || e.thread == g_dispatcher || e.thread == g_disposer))
                    FAIL("event %d was delivered on thread %d, which is not the scheduler's", i, e.thread);
                if (th >= 0 && th != e.thread)
                    FAIL("events were delivered on threads %d and %d", th, e.thread);
                th = e.thread;
            }
        }
        if (p.hops[0].kind == SubscribeOn && g_subscribed)
        {
            if (p.hops[0].sched == RL ? g_source_sub_thread != g_dispatcher : g_source_sub_thread == 0 || g_source_sub_thread == g_dispatcher)
                FAIL("the source was subscribed on thread %d", g_source_sub_thread);
        }
    }

    // one operator, nothing sleeps in callbacks, time passes only when nothing can run: exact times
    void check_times(const Plan& p)
    {
        const Sub& s = g_sub[0];
        const Hop& h = p.hops[0];
        if (h.kind == ObserveOn || h.kind == Delay)
        {
            for (int i = 0; i < s.n; ++i)
            {
                const auto&   e    = s.ev[i];
                const int     k    = e.kind == Completed ? g_nem - 1 : e.v;
                const int64_t want = g_em[k].t + (e.kind == Error && h.kind == ObserveOn ? 0 : h.period);
                if (e.t != want)
                    FAIL("event %d delivered at %ld instead of %ld", i, static_cast<long>(e.t - 1000000000), static_cast<long>(want - 1000000000));
            }
            if (h.kind == ObserveOn && g_nem && g_em[g_nem - 1].kind == Error) // only what was not yet due is dropped
                for (int i = 0; i + 1 < g_nem; ++i)
                {
                    bool there = false;
                    for (int k = 0; k < s.n; ++k)
                        there |= s.ev[k].kind == Next && s.ev[k].v == i;
                    if (!there && g_em[i].t + h.period < g_em[g_nem - 1].t)
                        FAIL("value %d was due before the error and is missing", i);
                }
        }
        else if (h.kind == Debounce)
        {
            for (int i = 0; i < g_nem; ++i)
            {
                if (g_em[i].kind != Next)
                    continue;
                const Ev* got = nullptr;
                for (int k = 0; k < s.n; ++k)
                    if (s.ev[k].kind == Next && s.ev[k].v == i)
                        got = &s.ev[k];
                const int64_t due  = g_em[i].t + h.period;
                const bool    last = i + 1 == g_nem;
                const int64_t next = last ? INT64_MAX : g_em[i + 1].t;
                if (got && got->t != due && !(!last && g_em[i + 1].kind == Completed && got->t == next))
                    FAIL("value %d delivered at %ld", i, static_cast<long>(got->t - 1000000000));
                if (next > due && !got)
                    FAIL("value %d was followed by silence and is missing", i);
                if (!last && g_em[i + 1].kind == Completed && !got)
                    FAIL("the value before the completion is missing");
                if (!last && next < due && got && g_em[i + 1].kind != Completed)
                    FAIL("value %d was replaced before its time and was delivered", i);
            }
        }
        else if (h.kind == Timeout || h.kind == TimeoutFallback)
        {
            int64_t ref  = g_t_sub;
            int     may  = -1;            // earliest event index before which a timeout may happen
            int64_t must = -1;            // time of the timeout, if certain
            int     i    = 0;
            for (; i < g_nem; ++i)
            {
                if (g_em[i].t > ref + h.period)
                {
                    must = ref + h.period;
                    break;
                }
                if (g_em[i].t == ref + h.period && may < 0)
                    may = i;
                ref = g_em[i].t;
            }
            if (i == g_nem && (!g_nem || g_em[g_nem - 1].kind == Next))
                must = ref + h.period;
            bool timed_out = false;
            int  n         = 0;
            int64_t at     = 0;
            for (int k = 0; k < s.n; ++k)
                if (s.ev[k].kind == Next ? s.ev[k].v >= 1000 : (s.ev[k].kind == Error ? s.ev[k].v == -7 : timed_out || !(g_nem && g_em[g_nem - 1].kind == Completed && n == g_nem - 1)))
                {
                    if (!timed_out)
                        at = s.ev[k].t;
                    timed_out = true;
                }
                else
                    n += s.ev[k].kind == Next;
            if (timed_out && must < 0 && may < 0)
                FAIL("timed out although no gap was as long as the period");
            if (!timed_out && must >= 0)
                FAIL("did not time out at %ld", static_cast<long>(must - 1000000000));
            if (timed_out && may < 0 && at != must)
                FAIL("timed out at %ld instead of %ld", static_cast<long>(at - 1000000000), static_cast<long>(must - 1000000000));
        }
    }

    struct Opt
    {
        bool timing = false, dispose = false;
        int  hops = 2;
        std::vector<int> kinds = {ObserveOn, Delay, SubscribeOn, Debounce, Timeout, TimeoutFallback};
        bool blocking = false;
    };

    void plan(pbt::Gen& g, const Opt& o, Plan& p)
    {
        p.timing = o.timing;
        p.sync   = !o.timing && g.chance(1, 4);
        p.pool   = g.range(1, 2);
        p.fallback_values = g.range(o.timing ? 1 : 0, 2);
        const int n = o.blocking ? g.range(0, o.hops) : g.range(1, o.hops);
        for (int i = 0; i < n; ++i)
            p.hops.push_back({o.kinds[g.below(static_cast<uint32_t>(o.kinds.size()))], static_cast<int>(g.below(kScheds)), 10 * g.range(0, 3)});
        for (auto& h : p.hops)
            if ((h.kind == Timeout || h.kind == TimeoutFallback) && !h.period)
                h.period = 5;
        const int values = g.range(0, 5);
        auto      gap    = [&] { return g.coin() ? 0 : 5 * g.range(1, 8); };
        for (int i = 0; i < values; ++i)
            p.acts.push_back({Next, gap()});
        const int t = static_cast<int>(g.weighted({4, 3, o.blocking ? 0u : 1u}));
        if (t < 2)
            p.acts.push_back({t ? Error : Completed, gap()});
        if (!o.timing && g.chance(1, 4))
            p.nap = 5 * g.range(1, 3);
        if (o.dispose)
        {
            if (g.chance(1, 4))
                p.dispose_in = g.range(0, 3);
            else
                p.dispose = g.range(0, 40);
        }
    }
    void show(const Plan& p)
    {
        pbt::note("source%s:", p.sync ? " (while subscribing)" : "");
        for (auto& a : p.acts)
        {
            if (a.gap)
                pbt::note(" -%d-", a.gap);
            pbt::note(" %s", a.kind == Next ? "v" : a.kind == Error ? "E" : "|");
        }
        for (auto& h : p.hops)
            pbt::note(" | %s(%d, %s)", hop_names[h.kind], h.period, sched_names[h.sched]);
        if (p.nap)
            pbt::note("; the subscriber sleeps %d in every callback", p.nap);
        if (p.dispose >= 0)
            pbt::note("; disposed by a thread after %d", p.dispose);
        if (p.dispose_in >= 0)
            pbt::note("; disposed inside callback %d", p.dispose_in);
        if (p.pool > 1)
            pbt::note("; pool of %d", p.pool);
        pbt::note("\n");
    }

    void start_disposer(const Plan& p, std::optional<std::thread>& t)
    {
        if (p.dispose < 0)
            return;
        t.emplace([&p] {
            {
                sim::Quiet q;
                g_disposer = sim::self();
            }
            if (p.dispose % 3)
                for (int i = 0; i < p.dispose; ++i)
                    sim::point();
            else
                sim::sleep(5 * (p.dispose / 3));
            so::dispose(*g_d, 0);
        });
    }

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        plan(g, o, p);
        P          = &p;
        auto sched = sim::draw(g);
        if (o.timing)
            sched.jumps = false;
        show(p);
        sim::begin(g, sched);
        const long news = sim::live_news();
        g_hook          = hook;
        {
            Machine m{p};
            g_d.emplace(rpp::composite_disposable_wrapper::make());
            std::optional<std::thread> disposer;
            const bool                 early = p.dispose >= 0 && p.dispose % 2;
            if (early)
                start_disposer(p, disposer);
            {
                auto obs = m.build(p);
                {
                    sim::Quiet q;
                    g_t_sub = sim::now();
                }
                so::subscribe(obs, *g_d, 0);
            }
            if (!early)
                start_disposer(p, disposer);
            sim::finish_idle();
            {
                sim::Quiet q;
                for (int i = 0; i < g_nem; ++i)
                    if (g_em[i].e == LONG_MAX)
                        FAIL("the source is stuck in its emission %d", i);
                check_content(p);
                check_threads(p);
                if (o.timing)
                    check_times(p);
                // (an operator may be over, by a timeout, before the source is subscribed)
                if (g_subscribed > 1 || (g_sub[0].db < 0 && !g_subscribed && !g_sub[0].ended()))
                    FAIL("the source was subscribed %d times", g_subscribed);
                if (g_subscribed && !g_released && (g_sub[0].db >= 0 || g_sub[0].ended()))
                    FAIL("the source was not released");
                if (g_sub[0].db < 0 && !g_sub[0].ended() && g_released)
                    FAIL("the source was released early");
                int late = 0;
                for (int i = 0; i < g_sub[0].n; ++i)
                {
                    const auto& e = g_sub[0].ev[i];
                    if (g_sub[0].de >= 0 && e.b > g_sub[0].de)
                    {
                        ++late;
                        if (e.kind == Next && e.v < 1000 && g_em[e.v].b > g_sub[0].de)
                            FAIL("value %d was emitted after the disposal and delivered", e.v);
                    }
                }
                if (late > 1)
                    FAIL("%d events were delivered after the disposal returned", late);
                bool parallel = false;
                for (int i = 0; i < g_nem; ++i)
                    for (int k = 0; k < g_sub[0].n; ++k)
                        parallel |= g_sub[0].ev[k].thread != g_src_thread && g_em[i].b < g_sub[0].ev[k].e && g_sub[0].ev[k].b < g_em[i].e;
                if (parallel)
                    pbt::label("emission overlaps a delivery");
                for (auto& h : p.hops)
                {
                    pbt::label(hop_names[h.kind]);
                    pbt::label(sched_names[h.sched]);
                }
                int hopped = 0;
                for (int k = 0; k < g_sub[0].n; ++k)
                    hopped += g_sub[0].ev[k].thread != g_src_thread;
                pbt::nontrivial(o.dispose ? g_sub[0].db >= 0 && g_sub[0].db < (g_nem ? g_em[g_nem - 1].e : 0) + 200 : g_sub[0].n && (hopped || parallel));
            }
            g_d->dispose();
            g_d.reset();
            drop_kept();
            if (disposer)
                disposer->join();
            m.end();
        }
        sim::finish();
        if (g_subscribed && !g_released)
            pbt::fail("the source was never released");
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }

    // ---- C24 ----
    void run_blocking(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        plan(g, o, p);
        P               = &p;
        const int take  = g.chance(1, 4) ? g.range(1, 4) : 0;  // after the blocking part
        const int take0 = g.chance(1, 6) ? g.range(1, 4) : 0;  // before it
        // the source must end somehow
        const bool ends = true;
        (void)ends;
        auto sched = sim::draw(g);
        show(p);
        if (take0)
            pbt::note("take(%d) before as_blocking\n", take0);
        if (take)
            pbt::note("take(%d) after as_blocking\n", take);
        sim::begin(g, sched);
        const long news = sim::live_news();
        g_hook          = hook;
        {
            Machine m{p};
            g_d.emplace(rpp::composite_disposable_wrapper::make());
            std::optional<std::thread> disposer;
            start_disposer(p, disposer);
            {
                auto obs = m.build(p);
                if (take0)
                    obs = (obs | ops::take(static_cast<size_t>(take0))).as_dynamic();
                auto blocking = obs | ops::as_blocking();
                if (take)
                    so::subscribe(blocking | ops::take(static_cast<size_t>(take)), *g_d, 0);
                else
                    so::subscribe(blocking, *g_d, 0);
            }
            {
                sim::Quiet  q;
                const auto& s = g_sub[0];
                if (s.db < 0)
                {
                    if (!s.ended())
                        FAIL("the blocking subscription returned before the terminal notification");
                    if (s.ev[s.n - 1].e < 0)
                        FAIL("the blocking subscription returned while the terminal notification was being delivered");
                }
                else if (!s.ended() && s.db > s.se)
                    FAIL("the blocking subscription returned before the end and before the disposal");
                for (int i = 0; i < s.n; ++i)
                    if (s.db < 0 && s.ev[i].e < 0)
                        FAIL("the blocking subscription returned while event %d was being delivered", i);
            }
            const int n_at_return = g_sub[0].n;
            sim::finish_idle();
            {
                sim::Quiet  q;
                const auto& s = g_sub[0];
                if (s.db < 0 && s.n != n_at_return)
                    FAIL("events were delivered after the blocking subscription returned");
                if (!take && !take0)
                    check_content(p);
                else if (s.db < 0)
                {
                    const int lim = take && take0 ? std::min(take, take0) : std::max(take, take0);
                    if (s.count(Next) > lim)
                        FAIL("more than %d values", lim);
                    if (s.count(Next) == lim && s.ev[s.n - 1].kind != Completed)
                        FAIL("take did not complete");
                }
                if (g_subscribed && !g_released)
                    FAIL("the source was not released");
                bool other = false;
                for (int k = 0; k < s.n; ++k)
                    other |= s.ev[k].thread != 0;
                pbt::nontrivial(other || (s.db >= 0 && s.db < s.se));
                if (s.n && s.ev[s.n - 1].thread != 0)
                    pbt::label("ended by another thread");
                if (s.db >= 0)
                    pbt::label("disposed");
            }
            g_d->dispose();
            g_d.reset();
            drop_kept();
            if (disposer)
                disposer->join();
            m.end();
        }
        sim::finish();
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    std::string id = "C23";
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "--property")
            id = argv[i + 1];
    pbt::Spec s;
    s.property         = id;
    s.case_cpu_limit_s = 5;
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders", "virtual time"};
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { o.blocking ? run_blocking(g, o) : run_case(g, o); }, q, t, true}); };
    if (id == "C23")
    {
        s.rule = "an event was delivered on another thread than the source's (disposal family: the disposal came before the source's last event had been handled); distinct by the full sequence of generator choices (program and schedule)";
        Opt one;
        one.hops = 1;
        fam("one operator", one, 60000, 1000000);
        Opt loss = one;
        loss.kinds = {ObserveOn, Delay};
        fam("delay and observe_on", loss, 50000, 1000000);
        fam("chains", Opt{}, 60000, 1000000);
        Opt timing = one;
        timing.timing = true;
        timing.kinds  = {ObserveOn, Delay, Debounce, Timeout, TimeoutFallback};
        fam("exact times", timing, 60000, 1000000);
        Opt disp;
        disp.dispose = true;
        fam("disposed", disp, 60000, 1000000);
    }
    else
    {
        s.rule = "a thread other than the blocked one delivered an event or disposed the subscription; distinct by the full sequence of generator choices (program and schedule)";
        Opt b;
        b.blocking = true;
        b.hops     = 1;
        fam("blocking", b, 100000, 1500000);
        b.dispose = true;
        fam("blocking, disposed", b, 100000, 1000000);
    }
    return pbt::run_main(argc, argv, s);
}
