// C20: subjects driven, subscribed to and unsubscribed from by several threads.
#include "simobs.hpp"
#include <rpp/subjects.hpp>
#include <algorithm>

namespace
{
    using namespace so;
    enum SubjectKind { Publish, Behavior, Replay, ReplayLimited, kKinds };
    const char* kind_names[] = {"publish", "behavior", "replay", "replay(2)"};

    struct Em // an emission that was made
    {
        int  kind, v, emitter;
        long b, e;
    };
    constexpr int kMaxEm = 64;
    Em            g_em[kMaxEm];
    int           g_nem;

    struct SubPlan
    {
        bool early     = true; // subscribed before the threads start
        int  delay     = 0;
        bool disposed  = false;
        int  disp_delay = 0;
        bool own_thread = true; // disposed by another thread than the subscribing one
        // inside its own callback number `at`: 0 nothing, 1 dispose itself, 2 dispose another, 3 subscribe another
        int script = 0, at = 0, other = 0;
        bool late = false; // subscribed by a script only
    };
    struct Plan
    {
        int                           kind = 0;
        bool                          serialized = false, dynamic = false, shared_observer = false;
        std::vector<std::vector<int>> emitters; // 0 next, 1 error, 2 completed, 3 pause
        std::vector<SubPlan>          subs;
        int                           subject_dispose = -1; // delay
    };

    struct World
    {
        const Plan*                                    p;
        std::function<void(int)>                       subscribe;
        std::vector<rpp::composite_disposable_wrapper> d;
    };
    World* W;

    void pause(int n)
    {
        for (int i = 0; i < n; ++i)
            sim::point();
        if (n)
            sim::sleep(n);
    }

    void hook(int i, int at)
    {
        const auto& s = W->p->subs[i];
        if (!s.script || s.at != at)
            return;
        switch (s.script)
        {
            case 1: dispose(W->d[i], i); break;
            case 2: dispose(W->d[s.other], s.other); break;
            case 3: W->subscribe(s.other); break;
        }
    }

    template<typename Subject>
    void run_subject(const Plan& p, const Subject& subject)
    {
        World w;
        w.p = &p;
        W   = &w;
        {
            for (size_t i = 0; i < p.subs.size(); ++i)
                w.d.push_back(rpp::composite_disposable_wrapper::make());
            w.subscribe = [&](int i) {
                if (p.dynamic)
                    so::subscribe(subject.get_observable().as_dynamic(), w.d[i], i);
                else
                    so::subscribe(subject.get_observable(), w.d[i], i);
            };
            for (size_t i = 0; i < p.subs.size(); ++i)
                if (p.subs[i].early && !p.subs[i].late)
                    w.subscribe(static_cast<int>(i));
            auto                     shared = subject.get_observer();
            std::vector<std::thread> ts;
            ts.reserve(16);
            for (size_t e = 0; e < p.emitters.size(); ++e)
                ts.emplace_back([&, e] {
                    auto own  = subject.get_observer();
                    auto emit = [&](const auto& obs) {
                        int seq = 0;
                        for (int a : p.emitters[e])
                        {
                            if (a == 3)
                            {
                                pause(1);
                                continue;
                            }
                            const int v = static_cast<int>(e) * 100 + seq++;
                            int       k;
                            {
                                sim::Quiet q;
                                k       = g_nem++;
                                g_em[k] = {a, v, static_cast<int>(e), sim::steps(), -1};
                            }
                            sim::point();
                            if (a == Next)
                                obs.on_next(SV{v});
                            else if (a == Error)
                                obs.on_error(make_error(v));
                            else
                                obs.on_completed();
                            sim::Quiet q;
                            g_em[k].e = sim::steps();
                        }
                    };
                    p.shared_observer ? emit(shared) : emit(own);
                });
            for (size_t i = 0; i < p.subs.size(); ++i)
            {
                const auto& s = p.subs[i];
                if (s.late)
                    continue;
                if (!s.early)
                    ts.emplace_back([&, i] {
                        pause(s.delay);
                        w.subscribe(static_cast<int>(i));
                        if (s.disposed && !s.own_thread)
                        {
                            pause(s.disp_delay);
                            dispose(w.d[i], static_cast<int>(i));
                        }
                    });
                if (s.disposed && (s.early || s.own_thread))
                    ts.emplace_back([&, i] {
                        pause(s.disp_delay);
                        dispose(w.d[i], static_cast<int>(i));
                    });
            }
            if (p.subject_dispose >= 0)
                ts.emplace_back([&] {
                    pause(p.subject_dispose);
                    {
                        sim::Quiet q;
                        g_sub[kMaxSub - 1].db = sim::steps();
                    }
                    subject.get_disposable().dispose();
                    sim::Quiet q;
                    g_sub[kMaxSub - 1].de = sim::steps();
                });
            for (auto& t : ts)
                t.join();
        }
    }

    struct Opt
    {
        int  emitters       = 1; // at most
        bool late           = true;
        bool scripts        = false;
        bool subject_dispose = false;
        bool strict         = false; // subscribing to behavior / replay is one atomic step
        int  kind           = -1;
    };

    // order[i]: values delivered to the subscriber that was there all the time; history: order with the initial value of a
    // behavior subject in front
    struct Ctx
    {
        const Plan*             p;
        std::vector<const Em*>  hist; // nullptr = the initial value
        int                     limit; // how many values are replayed
        bool                    strict;
    };
    constexpr int kInitial = 9000;

    bool split_ok(const Ctx& c, const std::vector<int>& x, size_t k, const Sub& s, std::string& why)
    {
        // x[0..k) was replayed, the rest came live
        const int n = static_cast<int>(c.hist.size());
        int       snap = -1; // index of the last replayed
        for (size_t i = 0; i + 1 < x.size(); ++i)
            if (i + 1 != k && x[i + 1] != x[i] + 1)
            {
                why = "not a contiguous run";
                return false;
            }
        if (c.limit)
        {
            if (k)
                snap = x[k - 1];
            if (static_cast<int>(k) != std::min(c.limit, snap + 1))
            {
                why = "replayed part has a wrong length";
                return false;
            }
            for (int i = 0; i < n; ++i)
                if (c.hist[i] && c.hist[i]->e < s.sb && i > snap)
                {
                    why = "replayed part is too old";
                    return false;
                }
            if (snap >= 0 && c.hist[snap] && c.hist[snap]->b > s.se)
            {
                why = "replayed something from the future";
                return false;
            }
        }
        else if (k)
        {
            why = "nothing should be replayed";
            return false;
        }
        auto overlaps = [&](int i) { return c.hist[i] && c.hist[i]->b < s.se && c.hist[i]->e > s.sb; };
        int  last     = snap;
        if (k < x.size())
        {
            const int j = x[k];
            if (c.limit && j != snap + 1)
            {
                if (c.strict)
                {
                    why = "gap or repetition between the replayed and the live part";
                    return false;
                }
                if (j == snap)
                {
                    if (!overlaps(j))
                    {
                        why = "a value was both replayed and delivered";
                        return false;
                    }
                }
                else if (j < snap)
                {
                    why = "live part starts before the end of the replayed one";
                    return false;
                }
                else
                    for (int i = snap + 1; i < j; ++i)
                        if (!overlaps(i))
                        {
                            why = "a value is missing between the replayed and the live part";
                            return false;
                        }
            }
            last = x.back();
            for (size_t i = k; i < x.size(); ++i)
            {
                const Em* e = c.hist[x[i]];
                if (!e || e->e < s.sb)
                {
                    why = "a value emitted before the subscription was delivered as live";
                    return false;
                }
                if (s.de >= 0 && e->b > s.de)
                {
                    why = "a value emitted after the disposal was delivered";
                    return false;
                }
            }
        }
        // what must be there
        for (int i = 0; i < n; ++i)
        {
            const Em* e = c.hist[i];
            if (!e || e->b < s.se || (s.db >= 0 && e->e > s.db))
                continue;
            if (k >= x.size() || i < x[k] || i > last)
            {
                why = "value " + std::to_string(e->v) + " was emitted while subscribed and is missing";
                return false;
            }
        }
        return true;
    }

    void check(const Plan& p, bool strict)
    {
        const Sub& base = g_sub[0];
        const long sdb = g_sub[kMaxSub - 1].db, sde = g_sub[kMaxSub - 1].de;
        Ctx        c;
        c.p      = &p;
        c.strict = strict;
        c.limit  = p.kind == Publish ? 0 : p.kind == Behavior ? 1 : p.kind == Replay ? 1000 : 2;
        long first_term_b = LONG_MAX, first_term_e = LONG_MAX;
        for (int i = 0; i < g_nem; ++i)
            if (g_em[i].kind != Next)
            {
                first_term_b = std::min(first_term_b, g_em[i].b);
                first_term_e = std::min(first_term_e, g_em[i].e);
            }
        auto find = [&](int v) -> const Em* {
            for (int i = 0; i < g_nem; ++i)
                if (g_em[i].kind == Next && g_em[i].v == v)
                    return &g_em[i];
            return nullptr;
        };
        // ---- the order seen by the subscriber that was there all the time ----
        size_t at = 0;
        if (p.kind == Behavior)
        {
            c.hist.push_back(nullptr);
            if (!base.n || base.ev[0].kind != Next || base.ev[0].v != kInitial)
                pbt::fail("the first subscriber of a behavior subject did not get the initial value");
            at = 1;
        }
        for (int i = static_cast<int>(at); i < base.n; ++i)
            if (base.ev[i].kind == Next)
            {
                const Em* e = find(base.ev[i].v);
                if (!e)
                    pbt::fail("subscriber 0 got value %d that nobody emitted", base.ev[i].v);
                if (base.ev[i].b < e->b)
                    pbt::fail("subscriber 0 got value %d before it was emitted", base.ev[i].v);
                for (auto* o : c.hist)
                {
                    if (o == e)
                        pbt::fail("subscriber 0 got value %d twice", e->v);
                    if (o && e->e < o->b)
                        pbt::fail("subscriber 0 got value %d after value %d, which was emitted later", e->v, o->v);
                }
                c.hist.push_back(e);
            }
        for (int i = 0; i < g_nem; ++i)
        {
            const Em& e = g_em[i];
            if (e.kind != Next)
                continue;
            const bool there = std::find(c.hist.begin(), c.hist.end(), &e) != c.hist.end();
            if (!there && e.e < first_term_b && (sdb < 0 || e.e < sdb))
                pbt::fail("value %d is lost: subscriber 0 was subscribed all the time", e.v);
            if (there && (e.b > first_term_e || (sde >= 0 && e.b > sde)))
                pbt::fail("value %d was emitted after the end and delivered", e.v);
        }
        const bool term_must = first_term_e != LONG_MAX && (sdb < 0 || first_term_e < sdb);
        if (term_must && !base.ended())
            pbt::fail("the terminal notification did not reach subscriber 0");
        if (base.ended())
        {
            const auto& t  = base.ev[base.n - 1];
            bool        ok = false;
            for (int i = 0; i < g_nem; ++i)
                ok |= g_em[i].kind == t.kind && (t.kind == Completed || g_em[i].v == t.v);
            if (!ok)
                pbt::fail("subscriber 0 got a terminal that nobody emitted");
        }
        // ---- everybody else ----
        for (size_t i = 1; i < p.subs.size(); ++i)
        {
            const Sub& s = g_sub[i];
            if (s.sb < 0)
                continue;
            std::vector<int> x;
            for (int k = 0; k < s.n; ++k)
                if (s.ev[k].kind == Next)
                {
                    int at2 = -1;
                    for (size_t h = 0; h < c.hist.size(); ++h)
                        if (c.hist[h] ? c.hist[h]->v == s.ev[k].v : s.ev[k].v == kInitial)
                            at2 = static_cast<int>(h);
                    if (at2 < 0)
                    {
                        if (sdb >= 0)
                            goto next; // the end is not the same for everybody when the subject itself is disposed
                        pbt::fail("subscriber %zu got value %d that subscriber 0 did not get", i, s.ev[k].v);
                    }
                    x.push_back(at2);
                }
            if (s.ended() && base.ended())
            {
                const auto &a = s.ev[s.n - 1], &b = base.ev[base.n - 1];
                if (a.kind != b.kind || a.v != b.v)
                    pbt::fail("subscriber %zu got another terminal than subscriber 0", i);
            }
            else if (s.ended() && sdb < 0)
                pbt::fail("subscriber %zu got a terminal that subscriber 0 did not get", i);
            if (sdb >= 0)
                goto next;
            if (base.ended() && !s.ended())
            {
                // it must get the terminal unless it was disposed before both were over
                if (s.db < 0 || (s.db > s.se && s.db > first_term_e))
                    pbt::fail("subscriber %zu did not get the terminal notification", i);
            }
            if (p.kind == Behavior && base.ended() && s.sb > first_term_e)
            {
                if (!x.empty())
                    pbt::fail("subscriber %zu got a value from a behavior subject that was over", i);
                continue;
            }
            if (s.db >= 0 && s.db <= s.se) // disposed while subscribing: only the order remains
            {
                int breaks = 0;
                for (size_t k = 0; k + 1 < x.size(); ++k)
                    breaks += x[k + 1] != x[k] + 1;
                if (breaks > (c.limit && !strict ? 1 : 0))
                    pbt::fail("subscriber %zu got%s: not a contiguous run", i, show(s).c_str());
                continue;
            }
            {
                std::string why, first;
                bool        ok = false;
                for (size_t k = 0; k <= x.size() && !ok; ++k)
                {
                    // a behavior subject that is just ending may replay nothing
                    if (p.kind == Behavior && k == 0 && base.ended() && s.se > first_term_b && x.empty())
                        ok = true;
                    else
                        ok = split_ok(c, x, k, s, why);
                    if (!ok && (first.empty() || (why != "replayed part has a wrong length" && why != "nothing should be replayed" && why != "not a contiguous run")))
                        first = why;
                }
                if (!ok)
                    pbt::fail("subscriber %zu got%s while subscriber 0 got%s: %s", i, show(s).c_str(), show(base).c_str(), first.c_str());
            }
        next:;
        }
    }

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        p.kind = o.kind >= 0 ? o.kind : static_cast<int>(g.below(kKinds));
        p.serialized      = o.emitters > 1 || g.chance(1, 3);
        p.dynamic         = g.chance(1, 3);
        p.shared_observer = g.chance(1, 3);
        const int ne      = o.emitters > 1 ? g.range(1, o.emitters) : 1;
        for (int e = 0; e < ne; ++e)
        {
            p.emitters.emplace_back();
            const int n = g.range(1, 4);
            for (int i = 0; i < n; ++i)
            {
                if (g.chance(1, 6))
                    p.emitters.back().push_back(3);
                p.emitters.back().push_back(Next);
            }
            if (g.chance(1, 2))
                p.emitters.back().push_back(g.coin() ? Completed : Error);
            if (g.chance(1, 8))
                p.emitters.back().push_back(g.coin() ? Next : Completed);
        }
        const int ns = g.range(1, 4);
        p.subs.resize(ns + 1);
        for (int i = 1; i <= ns; ++i)
        {
            auto& s = p.subs[i];
            s.early = !o.late || g.chance(1, 3);
            s.delay = g.range(0, 3);
            s.disposed   = g.chance(1, 3);
            s.disp_delay = g.range(0, 3);
            s.own_thread = g.coin();
        }
        if (o.scripts)
        {
            const int free = ns;
            for (int i = 0; i <= ns; ++i)
                if (g.coin())
                {
                    auto& s  = p.subs[i];
                    s.script = g.range(1, 3);
                    s.at     = g.range(0, 3);
                    if (i == 0 && s.script == 1)
                        s.script = 2;
                    if (s.script == 2)
                    {
                        s.other = g.range(1, free);
                        if (s.other == i && i)
                            s.script = 1;
                    }
                    else if (s.script == 3)
                    {
                        s.other = static_cast<int>(p.subs.size());
                        p.subs.emplace_back();
                        p.subs.back().late = true;
                    }
                }
        }
        if (o.subject_dispose)
            p.subject_dispose = g.range(0, 4);
        pbt::note("%s%s subject%s%s\n", p.serialized ? "serialized " : "", kind_names[p.kind], p.dynamic ? ", dynamic observable" : "", p.shared_observer ? ", one observer for all emitters" : "");
        for (size_t e = 0; e < p.emitters.size(); ++e)
        {
            pbt::note("emitter %zu:", e);
            int seq = 0;
            for (int a : p.emitters[e])
                if (a == 3)
                    pbt::note(" pause");
                else
                {
                    const int v = static_cast<int>(e) * 100 + seq++;
                    a == Next ? pbt::note(" %d", v) : a == Error ? pbt::note(" E%d", v) : pbt::note(" |");
                }
            pbt::note("\n");
        }
        for (size_t i = 0; i < p.subs.size(); ++i)
        {
            const auto& s = p.subs[i];
            pbt::note("subscriber %zu: %s", i, s.late ? "subscribed by another's callback" : s.early ? "there from the start" : "subscribed by a thread");
            if (!s.early)
                pbt::note(" after %d", s.delay);
            if (s.disposed)
                pbt::note(", disposed after %d%s", s.disp_delay, s.own_thread || s.early ? " by another thread" : "");
            if (s.script)
                pbt::note(", callback %d %s %d", s.at, s.script == 3 ? "subscribes" : "disposes", s.script == 1 ? static_cast<int>(i) : s.other);
            pbt::note("\n");
        }
        if (p.subject_dispose >= 0)
            pbt::note("the subject is disposed after %d\n", p.subject_dispose);

        const auto sched = sim::draw(g);
        sim::begin(g, sched);
        const long news = sim::live_news();
        g_hook          = o.scripts ? hook : nullptr;
        {
            using namespace rpp::subjects;
            auto go = [&](const auto& s) { run_subject(p, s); };
            auto behave = [&](const auto& s) {
                run_subject(p, s);
                const int last = s.get_value().get();
                sim::Quiet q;
                int        want = kInitial;
                for (int i = 0; i < g_sub[0].n; ++i)
                    if (g_sub[0].ev[i].kind == Next)
                        want = g_sub[0].ev[i].v;
                bool ok = last == want;
                if (p.subject_dispose >= 0 && last != want) // one emitted while it was being disposed, or later
                    for (int i = 0; i < g_nem; ++i)
                        ok |= g_em[i].v == last && g_em[i].e > g_sub[kMaxSub - 1].db;
                if (!ok)
                    pbt::fail("the behavior subject keeps value %d but the last one delivered is %d", last, want);
            };
            if (p.serialized)
                switch (p.kind)
                {
                    case Publish: go(serialized_publish_subject<SV>{}); break;
                    case Behavior: behave(serialized_behavior_subject<SV>{SV{kInitial}}); break;
                    case Replay: go(serialized_replay_subject<SV>{}); break;
                    case ReplayLimited: go(serialized_replay_subject<SV>{2}); break;
                }
            else
                switch (p.kind)
                {
                    case Publish: go(publish_subject<SV>{}); break;
                    case Behavior: behave(behavior_subject<SV>{SV{kInitial}}); break;
                    case Replay: go(replay_subject<SV>{}); break;
                    case ReplayLimited: go(replay_subject<SV>{2}); break;
                }
        }
        sim::finish();
        sim::Quiet q;
        {
            check(p, o.strict);
            bool overlap = false, mid = false;
            for (size_t i = 0; i < p.subs.size(); ++i)
                for (int k = 0; k < g_nem; ++k)
                {
                    const auto& s = g_sub[i];
                    mid |= (s.sb >= 0 && g_em[k].b < s.se && g_em[k].e > s.sb) || (s.db >= 0 && g_em[k].b < s.de && g_em[k].e > s.db);
                    for (int l = 0; l < k; ++l)
                        overlap |= g_em[k].b < g_em[l].e && g_em[l].b < g_em[k].e;
                }
            if (overlap)
                pbt::label("overlapping emissions");
            if (mid)
                pbt::label("(un)subscribed during an emission");
            if (g_sub[0].ended())
                pbt::label("ended");
            pbt::label(kind_names[p.kind]);
            pbt::nontrivial(overlap || mid);
        }
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C20";
    s.rule             = "emissions overlapped, or a subscription or disposal overlapped an emission; distinct by the full sequence of generator choices (program and schedule)";
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders",
                          "subjects that are not serialized are driven by one thread"};
    s.case_cpu_limit_s = 5;
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t, true}); };
    Opt  one;
    fam("one emitter", one, 20000, 1000000);
    Opt many;
    many.emitters = 3;
    many.late     = false;
    fam("several emitters", many, 15000, 1000000);
    Opt late = many;
    late.late = true;
    fam("emitters and subscribers", late, 20000, 1500000);
    Opt scr = late;
    scr.scripts = true;
    fam("re-entrant", scr, 12000, 1000000);
    Opt disp = late;
    disp.subject_dispose = true;
    fam("subject disposed", disp, 8000, 500000);
    Opt strict = one;
    strict.strict = true;
    fam("strict", strict, 0, 0); // for the known finding only
    return pbt::run_main(argc, argv, s);
}
