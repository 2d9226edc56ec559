// C25: connectable and reference-counted observables shared by threads, under simulated schedules.
#include "simobs.hpp"
#include <rpp/operators/multicast.hpp>
#include <rpp/operators/publish.hpp>
#include <rpp/operators/ref_count.hpp>
#include <rpp/subjects.hpp>
#include <mutex>
#include <optional>

namespace
{
    using namespace so;
    enum OpKind { Subscribe, Dispose, Connect, Disconnect, Pause };
    struct Op
    {
        int kind, arg;
    };
    struct Script // what one source subscription does while it is being made
    {
        int values = 0, terminal = 0; // 0 none, 1 error, 2 completed
    };
    constexpr int kGens = 24, kConns = 10;
    struct Plan
    {
        bool                         ref = true, behavior = false, copies = false;
        std::vector<std::vector<Op>> threads;
        std::vector<Script>          scripts;
        int                          subs = 0, conns = 0;
        std::vector<int>             driver; // 0 value, 1 error, 2 completed, 3 pause
    };
    struct GenT
    {
        long b = -1, rb = -1;
        int  released = 0, trigger = -1, conn = -1, term = -1;
        long term_b = LONG_MAX;
    };
    struct Em
    {
        int  gen, kind;
        long b, e;
    };
    struct Conn
    {
        long b = -1, e = -1, db = -1, de = -1;
        int  got = -2; // which handle was returned (-1 empty)
    };
    GenT        g_gen[kGens];
    int         g_ngen;
    Em          g_em[128];
    int         g_nem;
    Conn        g_conn[kConns];
    int         g_cur_em[sim::kMaxThreads], g_cur_sub[sim::kMaxThreads], g_cur_conn[sim::kMaxThreads];
    int         g_ev_gen[kMaxSub][kMaxEv];
    const Plan* P;

    std::mutex                                                       g_mutex;
    std::vector<std::pair<int, std::shared_ptr<rpp::dynamic_observer<SV>>>> g_kept;

    // a callback of subscriber s: like so::Callback, but calls from two source subscriptions may overlap for the moment in
    // which one replaces the other
    struct Cb
    {
        Sub& s;
        int  i, at;
        Cb(int i, int kind, int v)
            : s{g_sub[i]}
            , i{i}
        {
            sim::Quiet q;
            const int  em  = g_cur_em[sim::self()];
            const int  gen = em >= 0 ? g_em[em].gen : -1;
            for (int k = 0; k < s.n; ++k)
            {
                if (gen >= 0 && g_ev_gen[i][k] == gen && s.ev[k].e < 0)
                    pbt::fail("subscriber %d: called while it is inside another callback of the same source subscription", i);
                if (s.ev[k].kind != Next && (g_ev_gen[i][k] == gen || gen < 0))
                    pbt::fail("subscriber %d: %s(%d) after its terminal notification", i, kind_name(kind), v);
            }
            if (s.n == kMaxEv)
                pbt::fail("endless events");
            at              = s.n++;
            g_ev_gen[i][at] = gen;
            s.ev[at]        = {kind, v, sim::self(), sim::steps(), -1, sim::now()};
        }
        ~Cb()
        {
            sim::point();
            sim::Quiet q;
            s.ev[at].e = sim::steps();
        }
    };
    template<typename O>
    void subscribe_cb(const O& o, const rpp::composite_disposable_wrapper& d, int i)
    {
        {
            sim::Quiet q;
            g_sub[i].sb            = sim::steps();
            g_cur_sub[sim::self()] = i;
        }
        o.subscribe(
            d, [i](const SV& v) { Cb c{i, Next, v.get()}; }, [i](const std::exception_ptr& e) { Cb c{i, Error, error_of(e)}; }, [i] { Cb c{i, Completed, 0}; });
        sim::Quiet q;
        g_sub[i].se            = sim::steps();
        g_cur_sub[sim::self()] = -1;
    }

    void emit_one(const rpp::dynamic_observer<SV>& o, int gen, int kind)
    {
        int k;
        {
            sim::Quiet q;
            if (g_nem == 128)
                pbt::fail("endless emissions");
            k       = g_nem++;
            g_em[k] = {gen, kind, sim::steps(), LONG_MAX};
            if (kind != Next && g_gen[gen].term < 0)
            {
                g_gen[gen].term   = kind;
                g_gen[gen].term_b = sim::steps();
            }
            g_cur_em[sim::self()] = k;
        }
        if (kind == Next)
            o.on_next(SV{k});
        else if (kind == Error)
            o.on_error(make_error(k));
        else
            o.on_completed();
        sim::Quiet q;
        g_em[k].e             = sim::steps();
        g_cur_em[sim::self()] = -1;
    }

    auto source()
    {
        return rpp::source::create<SV>([](auto&& obs) {
            int gen;
            {
                sim::Quiet q;
                if (g_ngen == kGens)
                    pbt::fail("endless source subscriptions");
                gen                = g_ngen++;
                g_gen[gen].b       = sim::steps();
                g_gen[gen].trigger = g_cur_sub[sim::self()];
                g_gen[gen].conn    = g_cur_conn[sim::self()];
            }
            obs.set_upstream(rpp::disposable_wrapper{rpp::make_callback_disposable([gen]() noexcept {
                {
                    sim::Quiet q;
                    if (g_gen[gen].released++)
                        pbt::fail("source subscription %d was released twice", gen);
                    g_gen[gen].rb = sim::steps();
                }
                sim::point();
            })});
            sim::point();
            const auto&  sc = P->scripts[static_cast<size_t>(gen) % P->scripts.size()];
            auto         o  = std::forward<decltype(obs)>(obs).as_dynamic();
            for (int i = 0; i < sc.values; ++i)
                emit_one(o, gen, Next);
            if (sc.terminal)
                return emit_one(o, gen, sc.terminal);
            std::lock_guard lock{g_mutex};
            g_kept.emplace_back(gen, std::make_shared<rpp::dynamic_observer<SV>>(std::move(o)));
        });
    }

    std::string history()
    {
        std::string r = "\nhistory (steps):";
        for (int i = 0; i < g_ngen; ++i)
            r += "\n source subscription " + std::to_string(i) + " began " + std::to_string(g_gen[i].b) + (g_gen[i].trigger >= 0 ? " for subscriber " + std::to_string(g_gen[i].trigger) : "") + (g_gen[i].conn >= 0 ? " for connect " + std::to_string(g_gen[i].conn) : "") + " released " + std::to_string(g_gen[i].rb);
        for (int i = 0; i < P->subs; ++i)
            r += "\n subscriber " + std::to_string(i) + " subscribe " + std::to_string(g_sub[i].sb) + ".." + std::to_string(g_sub[i].se) + " dispose " + std::to_string(g_sub[i].db) + ".." + std::to_string(g_sub[i].de) + " got" + so::show(g_sub[i]);
        for (int i = 0; i < P->conns; ++i)
            r += "\n connect " + std::to_string(i) + " " + std::to_string(g_conn[i].b) + ".." + std::to_string(g_conn[i].e) + " returned " + std::to_string(g_conn[i].got) + " dispose " + std::to_string(g_conn[i].db) + ".." + std::to_string(g_conn[i].de);
        for (int i = 0; i < g_nem; ++i)
            r += "\n emission " + std::to_string(i) + " of source subscription " + std::to_string(g_em[i].gen) + (g_em[i].kind == Next ? " value " : g_em[i].kind == Error ? " error " : " completed ") + std::to_string(g_em[i].b) + ".." + std::to_string(g_em[i].e);
        return r;
    }
#define FAIL(...)                                \
    do                                           \
    {                                            \
        char b_[300];                            \
        snprintf(b_, sizeof b_, __VA_ARGS__);    \
        pbt::fail("%s%s", b_, history().c_str()); \
    } while (0)

    // is there a moment in [t0, t1] in which nobody certainly holds the connection behind source subscription k
    bool gap(int k, long t0, long t1)
    {
        const int trig = g_gen[k].trigger;
        long      t    = t0;
        while (t <= t1)
        {
            long next = -1; // the latest end among holders that certainly hold at t
            for (int i = 0; i < P->subs; ++i)
            {
                const auto& s    = g_sub[i];
                const long  from = i == trig ? g_gen[k].b : s.se;
                const long  to   = s.db < 0 ? LONG_MAX : s.db;
                if (from >= 0 && from <= t && to > t)
                    next = std::max(next, to);
            }
            if (next < 0)
                return true;
            if (next == LONG_MAX)
                return false;
            t = next;
        }
        return false;
    }

    void check()
    {
        const Plan& p = *P;
        bool        over = false;
        long        first_end = LONG_MAX;
        for (int k = 0; k < g_ngen; ++k)
        {
            over |= g_gen[k].term >= 0;
            first_end = std::min(first_end, g_gen[k].term_b);
        }
        int live = 0, last_live = -1;
        for (int k = 0; k < g_ngen; ++k)
            if (!g_gen[k].released && g_gen[k].term < 0)
            {
                ++live;
                last_live = k;
            }
        for (int k = 0; k < g_ngen; ++k)
            if (g_gen[k].term >= 0 && !g_gen[k].released)
                FAIL("source subscription %d ended and was not released", k);
        if (live > 1)
            FAIL("%d source subscriptions are active in the end", live);
        if (p.ref)
        {
            int held = 0, waiting = 0;
            for (int i = 0; i < p.subs; ++i)
                if (g_sub[i].se >= 0 && g_sub[i].db < 0)
                {
                    ++held;
                    waiting += !g_sub[i].ended();
                }
            if (!held && live)
                FAIL("no subscriber is left and source subscription %d is still active", last_live);
            if (waiting && !live)
                FAIL("a subscriber is left and no source subscription is active");
            auto stillborn = [](int k) { // its subscriber was disposed before it began
                const int trig = g_gen[k].trigger;
                return trig >= 0 && g_sub[trig].db >= 0 && g_sub[trig].db < g_gen[k].b;
            };
            for (int k = 0; k < g_ngen; ++k)
            {
                if (stillborn(k))
                    continue;
                int next = k + 1;
                while (next < g_ngen && stillborn(next))
                    ++next;
                if (next < g_ngen && first_end > g_gen[next].b && !gap(k, g_gen[k].b, g_gen[next].b))
                    FAIL("source subscription %d began although %d was held all the time", next, k);
                if (g_gen[k].rb >= 0 && first_end > g_gen[k].rb && !gap(k, g_gen[k].b, g_gen[k].rb))
                    FAIL("source subscription %d was released although it was held all the time", k);
                for (int m = 0; m < g_nem; ++m)
                {
                    if (g_em[m].gen != k || g_em[m].kind != Next || g_em[m].e == LONG_MAX || gap(k, g_gen[k].b, g_em[m].e))
                        continue;
                    for (int i = 0; i < p.subs; ++i)
                    {
                        const auto& s = g_sub[i];
                        if (first_end < g_em[m].e || s.se < 0 || s.se >= g_em[m].b || (s.db >= 0 && s.db <= g_em[m].e))
                            continue;
                        bool got = false, ended = false;
                        for (int x = 0; x < s.n; ++x)
                        {
                            got |= s.ev[x].kind == Next && s.ev[x].v == m;
                            ended |= s.ev[x].kind != Next && s.ev[x].b < g_em[m].e;
                        }
                        if (!got && !ended)
                            FAIL("subscriber %d did not get value %d", i, m);
                    }
                }
            }
        }
        else
        {
            for (int k = 0; k < g_ngen; ++k)
            {
                const auto& c = g_conn[g_gen[k].conn];
                if (g_gen[k].rb >= 0 && first_end > g_gen[k].rb && (c.db < 0 || c.db > g_gen[k].rb))
                    FAIL("source subscription %d was released by nobody", k);
                if (c.de >= 0 && !g_gen[k].released)
                    FAIL("source subscription %d was disconnected and is not released", k);
                for (int l = k + 1; l < g_ngen; ++l) // (unless that was disconnected before it began)
                    if (!(g_conn[g_gen[l].conn].db >= 0 && g_conn[g_gen[l].conn].db < g_gen[l].b) && g_gen[l].b >= 0 && (c.db < 0 || c.db > g_gen[l].b) && first_end > g_gen[l].b)
                        FAIL("source subscription %d began while %d was active", l, k);
                if (c.db >= 0)
                    continue;
                for (int m = 0; m < g_nem; ++m)
                    if (g_em[m].gen == k && g_em[m].kind == Next)
                        for (int i = 0; i < p.subs; ++i)
                        {
                            const auto& s = g_sub[i];
                            if (first_end < g_em[m].e || s.se < 0 || s.se >= g_em[m].b || (s.db >= 0 && s.db <= g_em[m].e))
                                continue;
                            bool got = false, ended = false;
                            for (int x = 0; x < s.n; ++x)
                            {
                                got |= s.ev[x].kind == Next && s.ev[x].v == m;
                                ended |= s.ev[x].kind != Next && s.ev[x].b < g_em[m].e;
                            }
                            if (!got && !ended)
                                FAIL("subscriber %d did not get value %d", i, m);
                        }
            }
            for (int c = 0; c < p.conns; ++c)
            {
                if (g_conn[c].e < 0)
                    continue;
                const int got = g_conn[c].got;
                if (got == -1 && !over)
                    FAIL("connect %d returned nothing although the source has not ended", c);
                if (got < 0)
                    continue;
                int n = 0;
                for (int k = 0; k < g_ngen; ++k)
                    n += g_gen[k].conn == got;
                if (n != 1 && !over && (g_conn[got].db < 0 || g_conn[got].db > g_conn[got].e))
                    FAIL("connect %d led to %d source subscriptions", got, n);
                if (n > 1)
                    FAIL("connect %d led to %d source subscriptions", got, n);
                if (got != c && g_conn[got].b > g_conn[c].e)
                    FAIL("connect %d returned the handle of a later one", c);
                if (got != c && g_conn[got].de >= 0 && g_conn[got].de < g_conn[c].b)
                    FAIL("connect %d returned a handle that was disposed before", c);
            }
        }
        // order, no repetition, no invention
        for (int i = 0; i < p.subs; ++i)
        {
            const auto& s = g_sub[i];
            for (int x = 0; x < s.n; ++x)
            {
                const auto& e = s.ev[x];
                if (e.kind == Completed)
                    continue;
                if (e.kind == Next && e.v == 1000) // the initial value of a behavior subject
                    continue;
                if (e.v < 0 || e.v >= g_nem || g_em[e.v].kind != e.kind)
                    FAIL("subscriber %d got something nobody emitted", i);
                if (s.de >= 0 && g_em[e.v].b > s.de && e.kind == Next)
                    FAIL("subscriber %d got value %d emitted after its disposal", i, e.v);
                for (int y = 0; y < x && e.kind == Next; ++y)
                    if (s.ev[y].kind == Next && s.ev[y].v != 1000)
                    {
                        if (s.ev[y].v == e.v && !p.behavior)
                            FAIL("subscriber %d got value %d twice", i, e.v);
                        if (s.ev[y].v > e.v && g_em[s.ev[y].v].gen == g_em[e.v].gen && !p.behavior)
                            FAIL("subscriber %d got value %d after value %d", i, e.v, s.ev[y].v);
                    }
            }
        }
    }

    struct Opt
    {
        bool ref = true, conn = true, terminals = true;
        int  threads = 3;
    };

    template<typename Connectable>
    void run_with(const Plan& p, Connectable&& con)
    {
        std::vector<rpp::composite_disposable_wrapper> subs, conns;
        for (int i = 0; i < p.subs; ++i)
            subs.push_back(rpp::composite_disposable_wrapper::make());
        for (int i = 0; i < p.conns; ++i)
            conns.push_back(rpp::composite_disposable_wrapper::make());
        {
            auto shared = con.ref_count();
            auto body   = [&](const auto& connectable, const auto& shared, const std::vector<Op>& ops) {
                for (const auto& op : ops)
                {
                    sim::point();
                    switch (op.kind)
                    {
                        case Subscribe:
                            if (p.ref)
                                subscribe_cb(shared, subs[static_cast<size_t>(op.arg)], op.arg);
                            else
                                subscribe_cb(connectable, subs[static_cast<size_t>(op.arg)], op.arg);
                            break;
                        case Dispose: so::dispose(subs[static_cast<size_t>(op.arg)], op.arg); break;
                        case Connect: {
                            auto& c = g_conn[op.arg];
                            {
                                sim::Quiet q;
                                c.b                     = sim::steps();
                                g_cur_conn[sim::self()] = op.arg;
                            }
                            auto r = connectable.connect(conns[static_cast<size_t>(op.arg)]);
                            int  which = -1;
                            for (int i = 0; i < p.conns; ++i)
                                if (r.lock() == std::shared_ptr<rpp::interface_disposable>(conns[static_cast<size_t>(i)].lock()))
                                    which = i;
                            sim::Quiet q;
                            c.e                     = sim::steps();
                            c.got                   = which;
                            g_cur_conn[sim::self()] = -1;
                            break;
                        }
                        case Disconnect: {
                            auto& c = g_conn[op.arg];
                            {
                                sim::Quiet q;
                                if (c.db < 0)
                                    c.db = sim::steps();
                            }
                            sim::point();
                            conns[static_cast<size_t>(op.arg)].dispose();
                            sim::Quiet q;
                            if (c.de < 0)
                                c.de = sim::steps();
                            break;
                        }
                        default:
                            for (int i = 0; i < 3 * op.arg; ++i)
                                sim::point();
                    }
                }
            };
            std::vector<std::thread> ts;
            for (size_t t = 0; t < p.threads.size(); ++t)
                ts.emplace_back([&, t] {
                    if (p.copies)
                    {
                        const auto c = con;
                        const auto s = shared;
                        body(c, s, p.threads[t]);
                    }
                    else
                        body(con, shared, p.threads[t]);
                });
            for (int a : p.driver)
            {
                sim::point();
                if (a == 3)
                {
                    for (int i = 0; i < 8; ++i)
                        sim::point();
                    continue;
                }
                std::pair<int, std::shared_ptr<rpp::dynamic_observer<SV>>> o{-1, {}};
                {
                    std::lock_guard lock{g_mutex};
                    if (!g_kept.empty())
                        o = g_kept.back();
                    if (a && o.second)
                        g_kept.pop_back(); // it ends
                }
                if (o.second)
                    emit_one(*o.second, o.first, a);
            }
            for (auto& t : ts)
                t.join();
        }
        {
            sim::Quiet q;
            check();
            bool parallel = false;
            auto over     = [&](long b, long e, long b2, long e2) { parallel |= b >= 0 && b2 >= 0 && b < e2 && b2 < e; };
            for (int i = 0; i < p.subs; ++i)
                for (int k = 0; k < p.subs; ++k)
                {
                    if (i < k)
                    {
                        over(g_sub[i].sb, g_sub[i].se, g_sub[k].sb, g_sub[k].se);
                        over(g_sub[i].db, g_sub[i].de, g_sub[k].db, g_sub[k].de);
                    }
                    if (i != k)
                        over(g_sub[i].sb, g_sub[i].se, g_sub[k].db, g_sub[k].de);
                }
            for (int i = 0; i < p.conns; ++i)
                for (int k = 0; k < p.conns; ++k)
                {
                    if (i < k)
                        over(g_conn[i].b, g_conn[i].e, g_conn[k].b, g_conn[k].e);
                    over(g_conn[i].b, g_conn[i].e, g_conn[k].db, g_conn[k].de);
                }
            pbt::nontrivial(parallel && g_ngen);
            if (g_ngen > 1)
                pbt::label("source subscribed again");
            bool ended = false;
            for (int k = 0; k < g_ngen; ++k)
                ended |= g_gen[k].term >= 0;
            if (ended)
                pbt::label("source ended");
            pbt::label(p.ref ? "ref_count" : "connect");
        }
        for (auto& s : subs)
            s.dispose();
        for (auto& c : conns)
            c.dispose();
        for (int k = 0; k < g_ngen; ++k)
            if (!g_gen[k].released)
                FAIL("source subscription %d is not released after all subscriptions and connections are disposed", k);
        std::lock_guard lock{g_mutex};
        decltype(g_kept){}.swap(g_kept);
    }

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        P          = &p;
        p.ref      = o.ref && (!o.conn || g.coin());
        p.behavior = g.chance(1, 4);
        p.copies   = g.coin();
        const int n = g.range(2, o.threads);
        for (int t = 0; t < n; ++t)
        {
            p.threads.emplace_back();
            std::vector<int> mine, mine_c;
            const int        len = g.range(1, 4);
            for (int i = 0; i < len; ++i)
            {
                const auto k = g.weighted({4, 3, p.ref ? 0u : 3u, p.ref ? 0u : 2u, 1});
                if (k == Subscribe && p.subs < 9)
                {
                    mine.push_back(p.subs);
                    p.threads.back().push_back({Subscribe, p.subs++});
                }
                else if (k == Dispose && p.subs && (g.chance(1, 5) || !mine.empty()))
                    p.threads.back().push_back({Dispose, g.chance(3, 4) && !mine.empty() ? mine[g.below(static_cast<uint32_t>(mine.size()))] : static_cast<int>(g.below(static_cast<uint32_t>(p.subs)))});
                else if (k == Connect && p.conns < kConns)
                {
                    mine_c.push_back(p.conns);
                    p.threads.back().push_back({Connect, p.conns++});
                }
                else if (k == Disconnect && p.conns)
                    p.threads.back().push_back({Disconnect, g.chance(3, 4) && !mine_c.empty() ? mine_c[g.below(static_cast<uint32_t>(mine_c.size()))] : static_cast<int>(g.below(static_cast<uint32_t>(p.conns)))});
                else
                    p.threads.back().push_back({Pause, g.range(1, 4)});
            }
        }
        const int ns = g.range(1, 3);
        for (int i = 0; i < ns; ++i)
            p.scripts.push_back({g.range(0, 2), o.terminals && g.chance(1, 6) ? g.range(1, 2) : 0});
        const int nd = g.range(0, 5);
        for (int i = 0; i < nd; ++i)
            p.driver.push_back(g.chance(1, 3) ? 3 : 0);
        if (o.terminals && g.chance(1, 5))
            p.driver.push_back(g.range(1, 2));

        pbt::note("%s over a %s subject, %s\n", p.ref ? "ref_count" : "connect", p.behavior ? "behavior" : "publish", p.copies ? "each thread has its copy of the observable" : "the observable is shared");
        for (size_t t = 0; t < p.threads.size(); ++t)
        {
            pbt::note("thread %zu:", t + 1);
            for (auto& x : p.threads[t])
                pbt::note(" %s(%d)", x.kind == Subscribe ? "subscribe" : x.kind == Dispose ? "dispose" : x.kind == Connect ? "connect" : x.kind == Disconnect ? "disconnect" : "pause", x.arg);
            pbt::note("\n");
        }
        pbt::note("source subscriptions:");
        for (auto& s : p.scripts)
            pbt::note(" [%d values%s]", s.values, s.terminal == 1 ? ", error" : s.terminal == 2 ? ", completed" : "");
        pbt::note("\nlater:");
        for (int a : p.driver)
            pbt::note(" %s", a == 0 ? "value" : a == 1 ? "error" : a == 2 ? "completed" : "pause");
        pbt::note("\n");

        for (int i = 0; i < sim::kMaxThreads; ++i)
            g_cur_em[i] = g_cur_sub[i] = g_cur_conn[i] = -1;
        const auto sched = sim::draw(g);
        sim::begin(g, sched);
        const long news = sim::live_news();
        if (p.behavior)
            run_with(p, source() | rpp::operators::multicast(rpp::subjects::behavior_subject<SV>{SV{1000}}));
        else
            run_with(p, source() | rpp::operators::publish());
        sim::finish();
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C25";
    s.case_cpu_limit_s = 5;
    s.rule             = "subscriptions, disposals, connects or disconnects of different threads overlapped and the source was subscribed; distinct by the full sequence of generator choices (program and schedule)";
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders",
                          "the emissions of one source subscription come from one thread at a time"};
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t, true}); };
    Opt  rc;
    rc.conn = false;
    rc.terminals = false;
    fam("ref_count", rc, 60000, 2000000);
    rc.threads = 2;
    fam("ref_count by two threads", rc, 60000, 2000000);
    Opt c;
    c.ref = false;
    c.terminals = false;
    fam("connect", c, 40000, 2000000);
    fam("ends", Opt{}, 40000, 2000000);
    return pbt::run_main(argc, argv, s);
}
