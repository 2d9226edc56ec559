// Trees of multi-source operators over sources that emit from threads of their own, with a sequential model.
#pragma once
#include "simobs.hpp"
#include <functional>
#include <map>
#include <set>
#include <string>

namespace st
{
    using namespace so;
    using Obs = rpp::dynamic_observable<SV>;

    enum NodeKind { Leaf, MergeWith, Zip, Combine, Latest, TakeUntil, FlatMap, MapMerge, MapConcat, MapSwitch, Take, Map, WindowToggle, kNodeKinds };
    const char* const node_names[] = {"source", "merge_with", "zip", "combine_latest", "with_latest_from", "take_until", "flat_map", "merge", "concat", "switch_on_next", "take", "map", "window_toggle"};
    inline bool flat(int k) { return k >= FlatMap && k <= MapSwitch; }

    struct Node
    {
        int              kind = Leaf, src = -1, n = 0, parent = -1, slot = 0;
        std::vector<int> ch;
    };
    enum Act { ANext, AError, ACompleted, APause };
    struct Source
    {
        std::vector<int> acts;
        bool             sync   = false; // emits while it is being subscribed to
        bool             polite = true;  // asks is_disposed before every emission
        bool             spawn_late = false;
    };
    constexpr int kMaxSrc = 10;

    struct Plan
    {
        std::vector<Node>   nodes; // 0 is the root
        std::vector<Source> src;
    };

    // what happened at the sources
    enum EvKind { ENext, EError, ECompleted, EStop };
    struct SEv
    {
        int  src, kind, v;
        long b, e;
    };
    constexpr int kMaxSEv = 200;
    inline SEv    g_ev[kMaxSEv];
    inline int    g_nev;
    struct SrcState
    {
        int  subscribed = 0, released = 0;
        long released_at = -1;
        bool in_emit = false;
    };
    inline SrcState    g_src[kMaxSrc];
    inline const Plan* g_plan;

    inline int begin_ev(int src, int kind, int v)
    {
        sim::Quiet q;
        if (g_nev == kMaxSEv)
            pbt::fail("endless events");
        g_ev[g_nev] = {src, kind, v, sim::steps(), -1};
        return g_nev++;
    }
    inline void end_ev(int i)
    {
        sim::Quiet q;
        g_ev[i].e = sim::steps();
    }

    template<typename O>
    void run_source(int i, const O& o)
    {
        const auto& s   = g_plan->src[i];
        int         seq = 0;
        for (int a : s.acts)
        {
            if (a == APause)
            {
                sim::point();
                sim::sleep(1);
                continue;
            }
            sim::point();
            if (s.polite)
            {
                const int k = begin_ev(i, EStop, 0);
                if (o.is_disposed())
                {
                    end_ev(k);
                    return;
                }
                sim::Quiet q;
                g_ev[k].src = -1; // not an event
                g_ev[k].e   = sim::steps();
            }
            const int v = i * 100 + seq;
            const int k = begin_ev(i, a == ANext ? ENext : a == AError ? EError : ECompleted, v);
            if (a == ANext)
                o.on_next(SV{v});
            else if (a == AError)
                o.on_error(make_error(v));
            else
                o.on_completed();
            end_ev(k);
            ++seq;
        }
    }

    inline std::vector<rpp::dynamic_observer<SV>> g_kept[kMaxSrc];
    inline void                                   drop_observers()
    {
        for (auto& k : g_kept)
        {
            k.clear();
            k.shrink_to_fit();
        }
    }

    inline Obs source(int i)
    {
        return rpp::source::create<SV>([i](auto&& obs) {
                   {
                       sim::Quiet q;
                       ++g_src[i].subscribed;
                   }
                   obs.set_upstream(rpp::disposable_wrapper{rpp::make_callback_disposable([i]() noexcept {
                       {
                           sim::Quiet q;
                           if (++g_src[i].released > 1)
                               pbt::fail("source %d: its subscription was released twice", i);
                           g_src[i].released_at = sim::steps();
                       }
                       sim::point();
                   })});
                   // a source that does not end keeps its observer (until drop_observers)
                   auto run = [i, o = std::forward<decltype(obs)>(obs).as_dynamic()]() mutable {
                       run_source(i, o);
                       if (g_plan->src[i].acts.empty() || g_plan->src[i].acts.back() <= ANext || g_plan->src[i].acts.back() == APause)
                           g_kept[i].emplace_back(std::move(o));
                   };
                   if (g_plan->src[i].sync)
                       run();
                   else
                       std::thread(std::move(run)).detach();
               })
            .as_dynamic();
    }

    struct Join // builds one value out of several
    {
        SV operator()(const SV& a, const SV& b) const { return SV{a.get() * 1000 + b.get()}; }
        SV operator()(const SV& a, const SV& b, const SV& c) const { return SV{(a.get() * 1000 + b.get()) * 1000 + c.get()}; }
    };

    inline Obs build(const Plan& p, int n)
    {
        const Node& d = p.nodes[n];
        auto        c = [&](int i) { return build(p, d.ch[i]); };
        namespace ops = rpp::operators;
        switch (d.kind)
        {
            case Leaf: return source(d.src);
            case MergeWith: return d.ch.size() == 2 ? (c(0) | ops::merge_with(c(1))).as_dynamic() : (c(0) | ops::merge_with(c(1), c(2))).as_dynamic();
            case Zip: return d.ch.size() == 2 ? (c(0) | ops::zip(Join{}, c(1))).as_dynamic() : (c(0) | ops::zip(Join{}, c(1), c(2))).as_dynamic();
            case Combine: return d.ch.size() == 2 ? (c(0) | ops::combine_latest(Join{}, c(1))).as_dynamic() : (c(0) | ops::combine_latest(Join{}, c(1), c(2))).as_dynamic();
            case Latest: return d.ch.size() == 2 ? (c(0) | ops::with_latest_from(Join{}, c(1))).as_dynamic() : (c(0) | ops::with_latest_from(Join{}, c(1), c(2))).as_dynamic();
            case TakeUntil: return (c(0) | ops::take_until(c(1))).as_dynamic();
            case Take: return (c(0) | ops::take(static_cast<size_t>(d.n))).as_dynamic();
            case Map: return (c(0) | ops::map([](const SV& v) { return SV{v.get()}; })).as_dynamic();
            case FlatMap:
            case MapMerge:
            case MapConcat:
            case MapSwitch:
            {
                std::vector<Obs> in;
                for (size_t i = 1; i < d.ch.size(); ++i)
                    in.push_back(c(static_cast<int>(i)));
                auto pick = [in](const SV& v) { return in[static_cast<size_t>(v.get() % 100)]; };
                if (d.kind == FlatMap)
                    return (c(0) | ops::flat_map(pick)).as_dynamic();
                auto outer = c(0) | ops::map(pick);
                return d.kind == MapMerge ? (outer | ops::merge()).as_dynamic() : d.kind == MapConcat ? (outer | ops::concat()).as_dynamic() : (outer | ops::switch_on_next()).as_dynamic();
            }
        }
        abort();
    }

    // ---- sequential model ----
    struct NS
    {
        bool                          done = false, sub = false;
        int                           active = 0, cur = 0;
        std::vector<std::vector<int>> q;
        bool                          operator<(const NS&) const = delete;
    };
    struct Out
    {
        int  sub, kind, v;
        bool operator==(const Out&) const = default;
    };
    struct State
    {
        std::vector<NS>  n;
        std::vector<Out> out;
        bool             bad = false;
    };

    struct Model
    {
        const Plan& p;
        void subscribe(State& s, int n) const
        {
            s.n[n].sub    = true;
            const auto& d = p.nodes[n];
            auto&       x = s.n[n];
            x.q.resize(d.ch.size());
            x.active = flat(d.kind) ? 1 : static_cast<int>(d.ch.size());
            x.cur    = 0;
            for (size_t i = 0; i < d.ch.size(); ++i)
                if ((!flat(d.kind) || i == 0) && (d.kind != WindowToggle || i < 2))
                    subscribe(s, d.ch[i]);
        }
        void emit(State& s, int n, int kind, int v) const
        {
            if (n == 0)
                s.out.push_back({0, kind, v});
            else
                on(s, p.nodes[n].parent, p.nodes[n].slot, kind, v);
        }
        void end(State& s, int n, int kind, int v) const
        {
            s.n[n].done = true;
            emit(s, n, kind, v);
        }
        void on(State& s, int n, int slot, int kind, int v) const
        {
            auto&       x = s.n[n];
            const auto& d = p.nodes[n];
            if (x.done)
                return;
            if (d.kind == MapSwitch && slot && slot != x.cur)
                return;
            if (d.kind == WindowToggle)
                return on_window(s, n, slot, kind, v);
            if (kind == Error)
                return end(s, n, Error, v);
            switch (d.kind)
            {
                case Map:
                    if (kind == Next)
                        emit(s, n, Next, v);
                    else
                        end(s, n, Completed, 0);
                    return;
                case Take:
                    if (kind == Completed)
                        return end(s, n, Completed, 0);
                    ++x.cur;
                    emit(s, n, Next, v);
                    if (x.cur == d.n)
                        end(s, n, Completed, 0);
                    return;
                case MergeWith:
                    if (kind == Next)
                        emit(s, n, Next, v);
                    else if (--x.active == 0)
                        end(s, n, Completed, 0);
                    return;
                case Zip:
                    if (kind == Completed)
                    {
                        if (--x.active == 0)
                            end(s, n, Completed, 0);
                        return;
                    }
                    x.q[slot].push_back(v);
                    for (auto& y : x.q)
                        if (y.empty())
                            return;
                    v = 0;
                    for (auto& y : x.q)
                    {
                        v = v * 1000 + y.front();
                        y.erase(y.begin());
                    }
                    return emit(s, n, Next, v);
                case Combine:
                    if (kind == Completed)
                    {
                        if (--x.active == 0)
                            end(s, n, Completed, 0);
                        return;
                    }
                    x.q[slot] = {v};
                    for (auto& y : x.q)
                        if (y.empty())
                            return;
                    v = 0;
                    for (auto& y : x.q)
                        v = v * 1000 + y.front();
                    return emit(s, n, Next, v);
                case Latest:
                    if (slot)
                    {
                        if (kind == Next)
                            x.q[slot] = {v};
                        return;
                    }
                    if (kind == Completed)
                        return end(s, n, Completed, 0);
                    for (size_t i = 1; i < x.q.size(); ++i)
                        if (x.q[i].empty())
                            return;
                    for (size_t i = 1; i < x.q.size(); ++i)
                        v = v * 1000 + x.q[i].front();
                    return emit(s, n, Next, v);
                case TakeUntil:
                    if (slot || kind == Completed)
                        return end(s, n, Completed, 0);
                    return emit(s, n, Next, v);
                case FlatMap:
                case MapMerge:
                    if (kind == Completed)
                    {
                        if (--x.active == 0)
                            end(s, n, Completed, 0);
                        return;
                    }
                    if (slot)
                        return emit(s, n, Next, v);
                    ++x.active;
                    return subscribe(s, d.ch[1 + v % 100]);
                case MapSwitch:
                    if (kind == Completed)
                    {
                        // active: bit 0 the outer one, bit 1 the current inner one
                        x.active &= slot ? 1 : 2;
                        if (slot)
                            x.cur = 0;
                        if (!x.active)
                            end(s, n, Completed, 0);
                        return;
                    }
                    if (slot)
                        return emit(s, n, Next, v);
                    x.cur = 1 + v % 100;
                    x.active |= 2;
                    return subscribe(s, d.ch[x.cur]);
                case MapConcat:
                    if (kind == Completed)
                    {
                        if (!slot)
                            x.active = 0;
                        else
                        {
                            x.cur = 0;
                            if (!x.q[0].empty())
                            {
                                x.cur = x.q[0].front();
                                x.q[0].erase(x.q[0].begin());
                                subscribe(s, d.ch[x.cur]);
                            }
                        }
                        if (!x.active && !x.cur)
                            end(s, n, Completed, 0);
                        return;
                    }
                    if (slot)
                        return emit(s, n, Next, v);
                    if (x.cur)
                    {
                        x.q[0].push_back(1 + v % 100);
                        return;
                    }
                    x.cur = 1 + v % 100;
                    return subscribe(s, d.ch[x.cur]);
            }
        }
        // children: source, openings, closings...; the k-th opening opens window k (subscriber k + 1) closed by closing k
        void on_window(State& s, int n, int slot, int kind, int v) const
        {
            auto& x = s.n[n];
            // q[2 + k] non-empty: window k is open; cur: windows opened
            auto all = [&](int k, int val) {
                for (int w = 0; w < x.cur; ++w)
                    if (!x.q[2 + w].empty())
                        s.out.push_back({w + 1, k, val});
            };
            if (kind == Error)
            {
                if (slot >= 2 && x.q[slot].empty())
                    return;
                all(Error, v);
                return end(s, n, Error, v);
            }
            if (slot == 0)
            {
                all(kind, v);
                if (kind == Completed)
                    end(s, n, Completed, 0);
                return;
            }
            if (slot == 1)
            {
                if (kind != Next)
                    return;
                const int w = x.cur++;
                s.out.push_back({0, Next, w});
                x.q[2 + w] = {1};
                return subscribe(s, p.nodes[n].ch[2 + w]);
            }
            if (x.q[slot].empty())
                return;
            s.out.push_back({slot - 1, Completed, 0});
            x.q[slot].clear();
        }
        bool over(const State& s, int n) const
        {
            for (; n >= 0; n = p.nodes[n].parent)
                if (s.n[n].done)
                    return true;
            return false;
        }
        bool listening(const State& s, int n) const
        {
            for (; n != 0; n = p.nodes[n].parent)
            {
                if (s.n[n].done)
                    return false;
                const int pn = p.nodes[n].parent, slot = p.nodes[n].slot;
                if (s.n[pn].done || (p.nodes[pn].kind == MapSwitch && slot && slot != s.n[pn].cur))
                    return false;
                if (p.nodes[pn].kind == WindowToggle && slot >= 2 && s.n[pn].q[slot].empty())
                    return false;
            }
            return !s.n[n].done;
        }
    };

    // is what the subscribers saw an outcome of some serial order of the source events?
    struct Search
    {
        const Plan&                              p;
        Model                                    m{p};
        std::vector<std::vector<const SEv*>>     ev;     // per source
        std::vector<std::vector<Out>>            seen;   // per subscriber
        std::vector<int>                         leaf;   // node of a source
        std::set<std::vector<int>>               visited;
        State                                    final_state;
        long                                     tried = 0;
        bool                                     undecided = false;

        explicit Search(const Plan& plan, int subs)
            : p{plan}
        {
            ev.resize(p.src.size());
            leaf.resize(p.src.size());
            for (int i = 0; i < g_nev; ++i)
                if (g_ev[i].src >= 0)
                    ev[g_ev[i].src].push_back(&g_ev[i]);
            for (size_t i = 0; i < p.nodes.size(); ++i)
                if (p.nodes[i].kind == Leaf)
                    leaf[p.nodes[i].src] = static_cast<int>(i);
            seen.resize(subs);
            for (int i = 0; i < subs; ++i)
                for (int k = 0; k < g_sub[i].n; ++k)
                    seen[i].push_back({i, g_sub[i].ev[k].kind, g_sub[i].ev[k].v});
        }
        bool run()
        {
            State s;
            s.n.resize(p.nodes.size());
            m.subscribe(s, 0);
            return dfs(s, std::vector<int>(p.src.size()), std::vector<int>(seen.size()));
        }
        bool dfs(const State& s, const std::vector<int>& at, const std::vector<int>& pos)
        {
            if (++tried > 200000)
            {
                undecided = true;
                return true;
            }
            std::vector<int> key = at;
            key.insert(key.end(), pos.begin(), pos.end());
            for (const auto& x : s.n)
            {
                key.push_back(x.done | x.sub << 1 | x.cur << 2 | x.active << 10);
                for (const auto& y : x.q)
                {
                    key.push_back(-1 - static_cast<int>(y.size()));
                    key.insert(key.end(), y.begin(), y.end());
                }
            }
            if (!visited.insert(key).second)
                return false;
            bool all = true;
            for (size_t i = 0; i < ev.size(); ++i)
            {
                if (at[i] == static_cast<int>(ev[i].size()))
                    continue;
                all          = false;
                const SEv& e = *ev[i][at[i]];
                bool       first = true;
                for (size_t k = 0; k < ev.size(); ++k)
                    if (k != i && at[k] < static_cast<int>(ev[k].size()) && ev[k][at[k]]->e < e.b)
                        first = false;
                if (!first)
                    continue;
                const int n = leaf[i];
                if (!s.n[n].sub && !m.over(s, n)) // (one subscribed just when everything ended doesn't matter)
                    continue;
                State t = s;
                t.out.clear();
                if (e.kind == EStop)
                {
                    if (m.listening(s, n))
                        continue;
                }
                else if (m.listening(s, n))
                {
                    if (e.kind != ENext)
                        t.n[n].done = true;
                    m.emit(t, n, e.kind == ENext ? Next : e.kind == EError ? Error : Completed, e.v);
                }
                std::vector<int> pos2 = pos;
                bool             ok   = true;
                for (const auto& o : t.out)
                {
                    if (o.sub >= static_cast<int>(seen.size()) || pos2[o.sub] >= static_cast<int>(seen[o.sub].size()))
                    {
                        ok = false;
                        break;
                    }
                    const Out& x = seen[o.sub][pos2[o.sub]++];
                    if (x.kind != o.kind || (o.kind != Completed && x.v != o.v))
                    {
                        ok = false;
                        break;
                    }
                }
                if (!ok)
                    continue;
                std::vector<int> at2 = at;
                ++at2[i];
                if (dfs(t, at2, pos2))
                    return true;
            }
            if (all)
            {
                for (size_t i = 0; i < seen.size(); ++i)
                    if (pos[i] != static_cast<int>(seen[i].size()))
                        return false;
                final_state = s;
                return true;
            }
            return false;
        }
    };

    // ---- generation ----
    struct Gener
    {
        pbt::Gen& g;
        Plan      p;
        int       budget = 5; // sources
        bool      nonempty = false; // every source has values
        int leaf(int parent, int slot, int max_values, bool ends)
        {
            const int n = static_cast<int>(p.nodes.size());
            p.nodes.push_back({Leaf, static_cast<int>(p.src.size()), 0, parent, slot, {}});
            Source    s;
            const int k = g.range(nonempty ? 1 : 0, max_values);
            for (int i = 0; i < k; ++i)
            {
                if (g.chance(1, 6))
                    s.acts.push_back(APause);
                s.acts.push_back(ANext);
            }
            const int t = static_cast<int>(g.weighted({5, 2, ends ? 0u : 2u}));
            if (t == 0)
                s.acts.push_back(ACompleted);
            else if (t == 1)
                s.acts.push_back(AError);
            s.sync   = g.chance(1, 8);
            s.polite = g.coin();
            p.src.push_back(s);
            --budget;
            return n;
        }
        int node(int parent, int slot, int depth, const std::vector<uint32_t>& weights)
        {
            int kind = depth <= 0 || budget <= 1 ? static_cast<int>(Leaf) : static_cast<int>(g.weighted(weights));
            if (kind == Leaf)
                return leaf(parent, slot, 3, false);
            const int n = static_cast<int>(p.nodes.size());
            p.nodes.push_back({kind, -1, 0, parent, slot, {}});
            std::vector<int> ch;
            if (kind == Take || kind == Map)
            {
                p.nodes[n].n = g.range(1, 3);
                ch.push_back(node(n, 0, depth, weights)); // (may be nested: each costs one choice, the weights make it end)
            }
            else if (flat(kind))
            {
                const int k = std::min(g.range(1, 3), std::max(1, budget - 1));
                ch.push_back(leaf(n, 0, k, true));
                // as many inner ones as the outer emits
                const auto& acts   = p.src[p.nodes[ch[0]].src].acts;
                int         values = 0;
                for (int a : acts)
                    values += a == ANext;
                for (int i = 0; i < values; ++i)
                    ch.push_back(node(n, i + 1, depth - 1, weights));
            }
            else
            {
                const int k = kind == TakeUntil ? 2 : budget >= 3 && g.chance(1, 3) ? 3 : 2;
                for (int i = 0; i < k; ++i)
                    ch.push_back(node(n, i, depth - 1, weights));
            }
            p.nodes[n].ch = ch;
            return n;
        }
    };
    inline std::string show(const Plan& p, int n)
    {
        const auto& d = p.nodes[n];
        if (d.kind == Leaf)
        {
            const auto& s = p.src[d.src];
            std::string r = "source " + std::to_string(d.src) + "{";
            int         k = 0;
            for (int a : s.acts)
                r += a == APause ? " pause" : a == AError ? " E" : a == ACompleted ? " |" : " " + std::to_string(d.src * 100 + k++);
            return r + (s.sync ? " while subscribing" : "") + (s.polite ? " polite" : "") + "}";
        }
        std::string r = node_names[d.kind];
        if (d.kind == Take)
            r += "<" + std::to_string(d.n) + ">";
        r += "(";
        for (size_t i = 0; i < d.ch.size(); ++i)
            r += (i ? ", " : "") + show(p, d.ch[i]);
        return r + ")";
    }
}
