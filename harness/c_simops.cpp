// C19: operators with several sources that emit from different threads.
// C22: the same, disposed by other threads at any time.
#include "simtree.hpp"

namespace
{
    using namespace st;

    struct Opt
    {
        int  depth = 1, budget = 5;
        bool dispose = false, toggle = false, nonempty = false;
        std::vector<uint32_t> weights = {1, 6, 6, 6, 6, 6, 4, 4, 8, 8, 1, 1};
    };

    struct WinHook
    {
        rpp::composite_disposable_wrapper root;
    };
    WinHook* g_win;

    void check_sources(const Plan& p)
    {
        for (size_t i = 0; i < p.src.size(); ++i)
            if (g_src[i].subscribed > 1)
                pbt::fail("source %zu was subscribed %d times", i, g_src[i].subscribed);
    }

    void statistics(const Plan& p)
    {
        int overlap = 0;
        for (int i = 0; i < g_nev; ++i)
            for (int k = 0; k < i; ++k)
                overlap += g_ev[i].src >= 0 && g_ev[k].src >= 0 && g_ev[i].src != g_ev[k].src && g_ev[i].b < g_ev[k].e && g_ev[k].b < g_ev[i].e;
        pbt::nontrivial(overlap > 0);
        if (overlap > 2)
            pbt::label(">2 overlapping pairs of source events");
        for (const auto& n : p.nodes)
            if (n.kind != Leaf)
                pbt::label(node_names[n.kind]);
        pbt::label(g_sub[0].ended() ? "ended" : "not ended");
    }

    std::string history(int subs)
    {
        std::string r;
        for (int i = 0; i < subs; ++i)
            r += "\nsubscriber " + std::to_string(i) + " got" + so::show(g_sub[i]);
        for (int i = 0; i < g_nev; ++i)
            if (g_ev[i].src >= 0)
                r += "\n  source " + std::to_string(g_ev[i].src) + " " + (g_ev[i].kind == ENext ? "next" : g_ev[i].kind == EError ? "error" : g_ev[i].kind == ECompleted ? "completed" : "stopped: is_disposed()") + " " + std::to_string(g_ev[i].v) + " [" + std::to_string(g_ev[i].b) + ", " + std::to_string(g_ev[i].e) + "]";
        for (int i = 0; i < kMaxSrc; ++i)
            if (g_src[i].released)
                r += "\n  source " + std::to_string(i) + " released at " + std::to_string(g_src[i].released_at);
        return r;
    }

    void check_serial(const Plan& p, int subs)
    {
        // the subscription itself has not been disposed yet
        Search s{p, subs};
        if (!s.run())
        {
            pbt::fail("no serial order of the source events gives what was delivered:%s", history(subs).c_str());
        }
        if (s.undecided)
        {
            pbt::label("undecided");
            return;
        }
        for (size_t i = 0; i < p.src.size(); ++i)
        {
            const int  n      = s.leaf[i];
            const bool listening = s.m.listening(s.final_state, n);
            if (s.final_state.n[n].sub && listening && !g_src[i].subscribed)
                pbt::fail("source %zu should have been subscribed", i);
            if (!g_src[i].subscribed)
                continue;
            if (!listening && !g_src[i].released)
                pbt::fail("source %zu is no longer needed, but its subscription was not released%s", i, history(subs).c_str());
            if (listening && g_src[i].released)
                pbt::fail("source %zu is still needed, but its subscription was released%s", i, history(subs).c_str());
        }
    }

    // ---- C22 ----
    struct Disposer
    {
        int delay = 0;
        bool again = false;
    };

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Gener gen{g, {}, o.budget};
        gen.nonempty = o.nonempty;
        if (o.toggle)
        {
            auto& p = gen.p;
            p.nodes.push_back({WindowToggle, -1, 0, -1, 0, {}});
            std::vector<int> ch{gen.leaf(0, 0, 4, false), gen.leaf(0, 1, 2, false)};
            int              values = 0;
            for (int a : p.src[1].acts)
                values += a == ANext;
            for (int i = 0; i < values; ++i)
                ch.push_back(gen.leaf(0, 2 + i, 1, false));
            p.nodes[0].ch = ch;
            p.src[0].sync = p.src[1].sync = false;
        }
        else
            gen.node(-1, 0, o.depth, o.weights);
        const Plan&           p = gen.p;
        std::vector<Disposer> disp;
        bool                  early = false;
        if (o.dispose)
        {
            const int n = g.range(1, 2);
            for (int i = 0; i < n; ++i)
                disp.push_back({g.range(0, 30), g.chance(1, 4)});
            early = g.chance(1, 3);
        }
        const auto sched = sim::draw(g);
        pbt::note("%s\n", st::show(p, 0).c_str());
        for (auto& d : disp)
            pbt::note("disposed by a thread after %d steps%s\n", d.delay, d.again ? ", twice" : "");
        if (early)
            pbt::note("the disposing threads start before the subscription\n");
        g_plan = &p;

        sim::begin(g, sched);
        const long news = sim::live_news();
        int        subs = 1;
        {
            auto                     d = rpp::composite_disposable_wrapper::make();
            std::vector<std::thread> ts;
            ts.reserve(4);
            auto start = [&] {
                for (auto& x : disp)
                    ts.emplace_back([&] {
                        for (int i = 0; i < x.delay; ++i)
                            sim::point();
                        so::dispose(d, 0);
                        if (x.again)
                            d.dispose();
                    });
            };
            if (early)
                start();
            if (o.toggle)
            {
                std::vector<Obs> closings;
                for (size_t i = 2; i < p.nodes[0].ch.size(); ++i)
                    closings.push_back(build(p, p.nodes[0].ch[i]));
                auto obs = build(p, p.nodes[0].ch[0]) | rpp::operators::window_toggle(build(p, p.nodes[0].ch[1]), [closings](const SV& v) { return closings[static_cast<size_t>(v.get() % 100)]; });
                {
                    sim::Quiet q;
                    g_sub[0].sb = sim::steps();
                }
                obs.subscribe(
                    d,
                    [](const auto& w) {
                        int k;
                        {
                            sim::Quiet q;
                            k = g_sub[0].count(Next);
                        }
                        Callback c{0, Next, k};
                        w.subscribe(OnNext{k + 1}, OnError{k + 1}, OnCompleted{k + 1});
                    },
                    OnError{0},
                    OnCompleted{0});
                sim::Quiet q;
                g_sub[0].se = sim::steps();
                subs        = static_cast<int>(closings.size()) + 1;
            }
            else
                so::subscribe(build(p, 0), d, 0);
            if (!early)
                start();
            for (auto& t : ts)
                t.join();
            sim::finish();
            {
                sim::Quiet q;
                check_sources(p);
                statistics(p);
                if (!o.dispose)
                    check_serial(p, subs);
                else
                {
                    const long de = g_sub[0].de;
                    for (size_t i = 0; i < p.src.size(); ++i)
                        if (!o.toggle && g_src[i].subscribed && !g_src[i].released)
                            pbt::fail("source %zu: its subscription was not released", i);
                    for (int s = 0; s < (o.toggle ? 1 : subs); ++s)
                        for (int k = 0; k < g_sub[s].n; ++k)
                        {
                            const auto& ev = g_sub[s].ev[k];
                            bool        before = false; // some event that had begun by then may have caused it
                            for (int i = 0; i < g_nev; ++i)
                                before |= g_ev[i].src >= 0 && g_ev[i].kind != EStop && g_ev[i].b < de && g_ev[i].e >= ev.b && g_ev[i].b <= ev.b;
                            if (ev.b > de && !before)
                                pbt::fail("%s(%d) was delivered although its emission started after the disposal returned", kind_name(ev.kind), ev.v);
                        }
                    // each source's values in order
                    bool mid = false;
                    for (int i = 0; i < g_nev; ++i)
                        mid |= g_ev[i].src >= 0 && g_ev[i].b < g_sub[0].de && g_ev[i].e > g_sub[0].db;
                    mid |= g_sub[0].db >= 0 && g_sub[0].db < g_sub[0].se;
                    pbt::nontrivial(mid);
                    if (g_sub[0].db < g_sub[0].se)
                        pbt::label("disposed while subscribing");
                }
            }
            d.dispose();
            drop_observers();
        }
        sim::finish();
        if (!o.toggle || o.dispose)
            ;
        for (size_t i = 0; i < p.src.size(); ++i)
            if (g_src[i].subscribed && !g_src[i].released)
            {
                // an open window keeps the sources of window_toggle
                bool open = false;
                for (int s = 1; s < subs; ++s)
                    open |= !g_sub[s].ended();
                if (!o.toggle || !open)
                    pbt::fail("source %zu: its subscription was never released", i);
            }
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    std::string id = "C19";
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "--property")
            id = argv[i + 1];
    pbt::Spec s;
    s.property         = id;
    s.case_cpu_limit_s = 5;
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders"};
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t, true}); };
    Opt  one, tree, toggle;
    tree.depth  = 2;
    tree.budget = 7;
    toggle.toggle = true;
    if (id == "C19")
    {
        s.rule = "events of different sources overlapped; distinct by the full sequence of generator choices (program and schedule)";
        fam("one operator", one, 15000, 1500000);
        fam("two levels", tree, 25000, 1500000);
        fam("window_toggle", toggle, 15000, 800000);
        Opt flat;
        flat.weights = {1, 0, 0, 0, 0, 0, 2, 2, 4, 6, 0, 0};
        flat.nonempty = true;
        fam("flattening", flat, 25000, 1500000);
        Opt comb;
        comb.weights  = {1, 3, 6, 6, 6, 6, 0, 0, 0, 0, 0, 0};
        comb.nonempty = true;
        fam("combining", comb, 20000, 1500000);
    }
    else
    {
        s.rule = "the disposal overlapped a source event or the subscription; distinct by the full sequence of generator choices (program and schedule)";
        one.dispose = tree.dispose = toggle.dispose = true;
        fam("one operator", one, 20000, 1000000);
        fam("two levels", tree, 20000, 1000000);
        fam("window_toggle", toggle, 10000, 500000);
    }
    return pbt::run_main(argc, argv, s);
}
