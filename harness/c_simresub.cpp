// C30: operators that subscribe again (or go on with another observable) while the attempts end on other threads.
// Whatever the schedule is, the subscriber gets exactly the sequence of the attempts one after another.
#include "simobs.hpp"
#include <functional>
#include <list>

namespace
{
    using namespace so;
    using Obs = rpp::dynamic_observable<SV>;
    namespace ops = rpp::operators;

    enum Kind_ { Leaf, Retry, RetryWhen, Repeat, ConcatSource, Concat, Resume, StartWith, Take, kKinds };
    const char* const names[] = {"source", "retry", "retry_when", "repeat", "concat(...)", "concat", "on_error_resume_next", "start_with", "take"};
    enum How { Sync, Fresh, Split }; // an attempt runs inside of the subscription, on a thread of its own, or begins there and goes on on a thread
    struct Attempt
    {
        std::vector<int> acts; // 0 next, 1 error, 2 completed, 3 pause
        int              how = Sync, split = 0;
        bool             polite = true;
        bool             ends() const { return !acts.empty() && (acts.back() == 1 || acts.back() == 2); }
    };
    struct Node
    {
        int                  kind = Leaf, n = 0, leaf = -1;
        std::vector<int>     ch;
        std::vector<Attempt> attempts;
    };
    struct Plan
    {
        std::vector<Node> nodes;
        std::vector<int>  leaves;
    };
    constexpr int kMaxLeaf = 8, kMaxSubs = 24;
    struct LeafState
    {
        int  subs = 0, released = 0;
        bool over[64]; // the attempt began its last event, or was released
    };
    LeafState   g_leaf[kMaxLeaf];
    int         g_order[256], g_norder, g_active, g_threads, g_most;
    const Plan* g_plan;
    bool        g_takes;
    struct SEv
    {
        long b, e;
    };
    SEv g_ev[256];
    int g_nev;

    std::list<rpp::dynamic_observer<SV>> g_kept;

    const Attempt& attempt(const Node& n, int k)
    {
        static const Attempt never{};
        return k < static_cast<int>(n.attempts.size()) ? n.attempts[static_cast<size_t>(k)] : never;
    }

    template<typename O>
    void run_acts(const Node& n, int k, const O& o, int from, int to)
    {
        const auto& a = attempt(n, k);
        for (int i = from; i < to; ++i)
        {
            if (a.acts[static_cast<size_t>(i)] == 3)
            {
                sim::point();
                sim::sleep(1);
                continue;
            }
            sim::point();
            if (a.polite && o.is_disposed())
                return;
            const int v = n.leaf * 10000 + k * 100 + i;
            int       e;
            {
                sim::Quiet q;
                if (a.acts[static_cast<size_t>(i)])
                    g_leaf[n.leaf].over[k] = true;
                if (g_nev == 256)
                    pbt::fail("endless events");
                e       = g_nev++;
                g_ev[e] = {sim::steps(), -1};
            }
            switch (a.acts[static_cast<size_t>(i)])
            {
                case 0: o.on_next(SV{v}); break;
                case 1: o.on_error(make_error(v)); break;
                default: o.on_completed();
            }
            sim::Quiet q;
            g_ev[e].e = sim::steps();
        }
    }

    Obs leaf(int node)
    {
        return rpp::source::create<SV>([node](auto&& obs) {
                   const Node& n = g_plan->nodes[static_cast<size_t>(node)];
                   int         k;
                   bool        threads;
                   {
                       sim::Quiet q;
                       k = g_leaf[n.leaf].subs++;
                       if (g_norder == 256)
                           pbt::fail("subscribed without end");
                       g_order[g_norder++] = n.leaf;
                       if (k == 64)
                           pbt::fail("subscribed without end");
                       for (auto& l : g_leaf)
                           for (int j = 0; j < l.subs; ++j)
                               if (!(&l == &g_leaf[n.leaf] && j == k) && !l.over[j] && !g_takes)
                                   pbt::fail("source %d was subscribed while attempt %d of source %d was still going on", n.leaf, j, static_cast<int>(&l - g_leaf));
                       ++g_active;
                       threads = g_threads < 12 && attempt(n, k).how != Sync;
                       g_threads += threads;
                   }
                   obs.set_upstream(rpp::disposable_wrapper{rpp::make_callback_disposable([l = n.leaf, k]() noexcept {
                       {
                           sim::Quiet q;
                           g_leaf[l].over[k] = true;
                           ++g_leaf[l].released;
                           --g_active;
                       }
                       sim::point();
                   })});
                   const auto& a   = attempt(n, k);
                   const int   all = static_cast<int>(a.acts.size());
                   auto        o   = std::forward<decltype(obs)>(obs).as_dynamic();
                   const int   at  = threads ? a.how == Split ? a.split : 0 : all;
                   if (at)
                       run_acts(n, k, o, 0, at);
                   auto rest = [&n, k, at, all, o = std::move(o)]() mutable {
                       const auto& a = attempt(n, k);
                       run_acts(n, k, o, at, all);
                       if (!a.ends())
                       {
                           sim::Quiet q;
                           g_kept.emplace_back(std::move(o));
                       }
                   };
                   if (threads)
                       std::thread(std::move(rest)).detach();
                   else
                       rest();
               })
            .as_dynamic();
    }

    Obs build(const Plan& p, int i)
    {
        const Node& n = p.nodes[static_cast<size_t>(i)];
        auto        c = [&](size_t k) { return build(p, n.ch[k]); };
        switch (n.kind)
        {
            case Leaf: return leaf(i);
            case Retry: return n.n < 0 ? (c(0) | ops::retry()).as_dynamic() : (c(0) | ops::retry(static_cast<size_t>(n.n))).as_dynamic();
            case RetryWhen: return (c(0) | ops::retry_when([o = c(1)](const std::exception_ptr&) { return o; })).as_dynamic();
            case Repeat: return n.n < 0 ? (c(0) | ops::repeat()).as_dynamic() : (c(0) | ops::repeat(static_cast<size_t>(n.n))).as_dynamic();
            case ConcatSource:
            {
                std::vector<Obs> v;
                for (size_t k = 0; k < n.ch.size(); ++k)
                    v.push_back(c(k));
                return rpp::source::concat(std::move(v)).as_dynamic();
            }
            case Concat:
            {
                std::vector<Obs> v;
                for (size_t k = 0; k < n.ch.size(); ++k)
                    v.push_back(c(k));
                return (rpp::source::from_iterable(std::move(v), rpp::schedulers::immediate{}) | ops::concat()).as_dynamic();
            }
            case Resume: return (c(0) | ops::on_error_resume_next([o = c(1)](const std::exception_ptr&) { return o; })).as_dynamic();
            case StartWith: return (c(1) | ops::start_with(c(0))).as_dynamic();
            default: return (c(0) | ops::take(static_cast<size_t>(n.n))).as_dynamic();
        }
    }

    // ---- the model: one attempt after another ----
    enum End { EError, ECompleted, ENever, EStop };
    struct Endless
    {
    };
    struct Model
    {
        const Plan&      p;
        int              steps = 0;
        int              subs[kMaxLeaf] = {};
        std::vector<int> order;
        struct Res
        {
            End end;
            int v;
        };
        using Emit = std::function<bool(int)>;
        Res run(int i, const Emit& emit)
        {
            const Node& n = p.nodes[static_cast<size_t>(i)];
            if (++steps > 300)
                throw Endless{};
            switch (n.kind)
            {
                case Leaf:
                {
                    const int k = subs[n.leaf]++;
                    order.push_back(n.leaf);
                    const auto& a = attempt(n, k);
                    for (size_t j = 0; j < a.acts.size(); ++j)
                    {
                        const int v = n.leaf * 10000 + k * 100 + static_cast<int>(j);
                        if (a.acts[j] == 0 && !emit(v))
                            return {EStop, 0};
                        if (a.acts[j] == 1)
                            return {EError, v};
                        if (a.acts[j] == 2)
                            return {ECompleted, 0};
                    }
                    return {ENever, 0};
                }
                case Retry:
                    for (int k = 0;; ++k)
                        if (auto r = run(n.ch[0], emit); r.end != EError || k == n.n)
                            return r;
                case RetryWhen:
                    for (;;)
                    {
                        auto r = run(n.ch[0], emit);
                        if (r.end != EError)
                            return r;
                        if (r = run(n.ch[1], [](int) { return false; }); r.end != EStop)
                            return r;
                    }
                case Repeat:
                    for (int k = 0;; ++k)
                    {
                        if (k == n.n)
                            return {ECompleted, 0};
                        if (auto r = run(n.ch[0], emit); r.end != ECompleted)
                            return r;
                    }
                case ConcatSource:
                case Concat:
                case StartWith:
                    for (int c : n.ch)
                        if (auto r = run(c, emit); r.end != ECompleted)
                            return r;
                    return {ECompleted, 0};
                case Resume:
                {
                    auto r = run(n.ch[0], emit);
                    return r.end == EError ? run(n.ch[1], emit) : r;
                }
                default:
                {
                    int  left = n.n;
                    bool own  = false;
                    auto r    = run(n.ch[0], [&](int v) {
                        if (!emit(v))
                            return false;
                        own = --left == 0;
                        return !own;
                    });
                    if (r.end == EStop && own)
                        return {ECompleted, 0};
                    return r;
                }
            }
        }
    };

    struct Opt
    {
        int                   depth = 1;
        bool                  dispose = false;
        std::vector<uint32_t> weights = {0, 4, 4, 4, 4, 4, 3, 2, 0};
    };
    struct Gener
    {
        pbt::Gen& g;
        Plan      p;
        int       leaf(uint32_t again) // the end which makes the parent go on
        {
            Node n;
            n.leaf = static_cast<int>(p.leaves.size());
            for (int k = g.range(1, 3); k > 0; --k)
            {
                Attempt a;
                for (int v = g.range(0, 3); v > 0; --v)
                    a.acts.push_back(g.chance(1, 8) ? 3 : 0);
                if (const auto t = g.weighted({again == 1 ? 7u : 2u, again == 2 ? 7u : 2u, 1}); t < 2)
                    a.acts.push_back(1 + static_cast<int>(t));
                a.how    = static_cast<int>(g.weighted({2, 5, 2}));
                a.split  = a.acts.empty() ? 0 : g.range(0, static_cast<int>(a.acts.size()));
                a.polite = g.coin();
                if (a.how == Split && (!a.acts.empty() && a.split == static_cast<int>(a.acts.size()) && a.ends()))
                    a.how = Sync;
                n.attempts.push_back(a);
            }
            p.nodes.push_back(n);
            p.leaves.push_back(static_cast<int>(p.nodes.size()) - 1);
            return p.leaves.back();
        }
        int node(int depth, const Opt& o, uint32_t again = 1)
        {
            if (depth == 0 || static_cast<int>(p.leaves.size()) >= 4 || (depth < o.depth && g.chance(1, 3)))
                return leaf(again);
            Node n;
            n.kind  = static_cast<int>(g.weighted(o.weights));
            int ch  = n.kind == Retry || n.kind == Repeat || n.kind == Take ? 1 : n.kind == ConcatSource || n.kind == Concat ? g.range(1, 3) : 2;
            n.n     = n.kind == Take ? g.range(1, 4) : n.kind == Retry || n.kind == Repeat ? g.range(-1, 3) : 0;
            for (int i = 0; i < ch; ++i)
                n.ch.push_back(node(depth - 1, o, n.kind == Retry || (n.kind != Repeat && n.kind != ConcatSource && n.kind != Concat && n.kind != StartWith && n.kind != Take && i == 0) ? 1 : 2));
            p.nodes.push_back(n);
            return static_cast<int>(p.nodes.size()) - 1;
        }
    };
    std::string show(const Plan& p, int i)
    {
        const Node& n = p.nodes[static_cast<size_t>(i)];
        if (n.kind == Leaf)
        {
            std::string r = "source" + std::to_string(n.leaf) + "[";
            for (auto& a : n.attempts)
            {
                r += &a == n.attempts.data() ? "" : "; ";
                r += a.how == Sync ? "" : a.how == Fresh ? "thread:" : "first " + std::to_string(a.split) + ", then thread:";
                for (int x : a.acts)
                    r += x == 0 ? " v" : x == 1 ? " E" : x == 2 ? " |" : " .";
                if (!a.ends())
                    r += " ...";
                if (!a.polite)
                    r += " (never asks is_disposed)";
            }
            return r + "]";
        }
        std::string r = names[n.kind];
        if (n.kind == Retry || n.kind == Repeat || n.kind == Take)
            r += n.n < 0 ? "()" : "(" + std::to_string(n.n) + ")";
        r += "{";
        for (size_t k = 0; k < n.ch.size(); ++k)
            r += (k ? ", " : "") + show(p, n.ch[k]);
        return r + "}";
    }

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Gener     gen{g, {}};
        int       root = gen.node(o.depth, o);
        if (g.chance(1, 5))
        {
            Node n;
            n.kind = Take;
            n.n    = g.range(1, 4);
            n.ch   = {root};
            gen.p.nodes.push_back(n);
            root = static_cast<int>(gen.p.nodes.size()) - 1;
        }
        const Plan& p = gen.p;
        // some programs never come to an end: an empty thing repeated for ever
        Model m{p};
        std::vector<int> want;
        Model::Res       res{};
        try
        {
            m.order.reserve(64);
            res = m.run(root, [&](int v) {
                want.push_back(v);
                return true;
            });
        }
        catch (Endless&)
        {
            return;
        }
        std::vector<int> delays;
        if (o.dispose)
            for (int k = g.range(1, 2); k > 0; --k)
                delays.push_back(g.range(0, 40));
        const bool early = o.dispose && g.chance(1, 3);
        const auto sched = sim::draw(g);
        pbt::note("%s\n", show(p, root).c_str());
        for (int d : delays)
            pbt::note("disposed by a thread after %d steps\n", d);
        if (early)
            pbt::note("the disposing threads start before the subscription\n");
        g_plan = &p;
        for (auto& n : p.nodes)
            g_takes |= n.kind == Take;

        sim::begin(g, sched);
        const long news = sim::live_news();
        {
            auto                     d = rpp::composite_disposable_wrapper::make();
            std::vector<std::thread> ts;
            ts.reserve(4);
            auto start = [&] {
                for (int x : delays)
                    ts.emplace_back([&d, x] {
                        for (int i = 0; i < x; ++i)
                            sim::point();
                        so::dispose(d, 0);
                    });
            };
            if (early)
                start();
            so::subscribe(build(p, root), d, 0);
            if (!early)
                start();
            for (auto& t : ts)
                t.join();
            sim::finish();
            {
                sim::Quiet q;
                const auto&      s = g_sub[0];
                std::string      expected;
                for (int v : want)
                    expected += " " + std::to_string(v);
                expected += res.end == EError ? " E" : res.end == ECompleted ? " |" : "";
                const auto got = so::show(s);
                if (!o.dispose ? got != expected : expected.compare(0, got.size(), got) != 0)
                    pbt::fail("delivered [%s ], %sexpected [%s ]", got.c_str(), o.dispose ? "a part of what was " : "", expected.c_str());
                if (!o.dispose && res.end == EError && s.ev[s.n - 1].v != res.v)
                    pbt::fail("delivered error %d, expected %d", s.ev[s.n - 1].v, res.v);
                std::string so_, mo;
                for (int i = 0; i < g_norder; ++i)
                    so_ += " " + std::to_string(g_order[i]);
                for (int x : m.order)
                    mo += " " + std::to_string(x);
                // take and the notifier of retry_when count what gets through to them: once disposed, they do not end any more
                bool counts = false;
                for (auto& n : p.nodes)
                    counts |= n.kind == Take || n.kind == RetryWhen;
                if (!o.dispose ? so_ != mo : !counts && mo.compare(0, so_.size(), so_) != 0)
                    pbt::fail("sources were subscribed in order [%s ], %sexpected [%s ]", so_.c_str(), o.dispose ? "a part of what was " : "", mo.c_str());
                const int active = o.dispose ? 0 : res.end == ENever;
                if (g_active != active)
                    pbt::fail("%d attempts are still subscribed, expected %d", g_active, active);
                if (active && g_leaf[g_order[g_norder - 1]].subs == g_leaf[g_order[g_norder - 1]].released)
                    pbt::fail("another source than the last one is still subscribed");
                // (repeat(0), and the source of sources of concat, complete by themselves)
                bool by_itself = false;
                for (auto& n : p.nodes)
                    by_itself |= (n.kind == Repeat && n.n == 0) || n.kind == Concat || n.kind == ConcatSource;
                if (o.dispose)
                    for (int k = 0; k < s.n; ++k)
                    {
                        bool before = by_itself && s.ev[k].kind != Next;
                        for (int i = 0; i < g_nev; ++i)
                            before |= g_ev[i].b < s.de && (g_ev[i].e >= s.ev[k].b || g_ev[i].e < 0) && g_ev[i].b <= s.ev[k].b;
                        if (s.ev[k].b > s.de && !before)
                            pbt::fail("%s(%d) was delivered although its emission started after the disposal returned", kind_name(s.ev[k].kind), s.ev[k].v);
                    }
                bool two = false; // events delivered on several threads
                for (int k = 1; k < s.n; ++k)
                    two |= s.ev[k].thread != s.ev[0].thread;
                pbt::nontrivial(g_norder > 1 && g_threads > 0 && (!o.dispose || (s.db >= 0 && g_nev && s.db < g_ev[g_nev - 1].e)));
                if (two)
                    pbt::label("delivered by several threads");
                if (g_norder > 3)
                    pbt::label(">3 subscriptions");
                pbt::label(res.end == ENever ? "not ended" : "ended");
                for (auto& n : p.nodes)
                    if (n.kind)
                        pbt::label(names[n.kind]);
            }
            d.dispose();
            g_kept.clear();
        }
        sim::finish();
        {
            sim::Quiet q;
            for (int i = 0; i < kMaxLeaf; ++i)
                if (g_leaf[i].subs != g_leaf[i].released)
                    pbt::fail("source %d: %d subscriptions, %d released", i, g_leaf[i].subs, g_leaf[i].released);
        }
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C30";
    s.rule             = "something was subscribed again (or next) and some attempt ran on another thread (families with disposal: and the disposal began before the last event was over); distinct by the full sequence of generator choices (program and schedule)";
    s.case_cpu_limit_s = 5;
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders"};
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t, true}); };
    Opt  one, tree;
    tree.depth   = 2;
    tree.weights = {0, 4, 4, 4, 4, 4, 3, 2, 2};
    fam("one operator", one, 40000, 2000000);
    fam("two levels", tree, 40000, 2000000);
    one.dispose = tree.dispose = true;
    fam("one operator, disposed", one, 30000, 1500000);
    fam("two levels, disposed", tree, 30000, 1500000);
    return pbt::run_main(argc, argv, s);
}
