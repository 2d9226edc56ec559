// C12: histories over subjects, with operations issued from inside callbacks. C13: connectable observables.
#include "diff.hpp"
#include "opsutil.hpp"
#include "vclock.hpp"
#include <map>
#include <rpp/observers/lambda_observer.hpp>
#include <rpp/operators/multicast.hpp>
#include <rpp/operators/publish.hpp>
#include <rpp/operators/ref_count.hpp>
#include <rpp/operators/take.hpp>
#include <rpp/sources/never.hpp>
#include <rpp/subjects/behavior_subject.hpp>
#include <rpp/subjects/publish_subject.hpp>
#include <rpp/subjects/replay_subject.hpp>
using namespace h;

namespace
{
    enum class Kind
    {
        publish,
        behavior,
        replay
    };
    struct Op
    {
        enum T
        {
            sub,
            unsub,
            unsub_self,
            next,
            end
        } t;
        int a = 0;
    };
    struct Spec
    {
        int                              form = 0, take = 0, group = -1;
        std::vector<std::pair<int, Op>>  acts; // at the n-th notification
    };
    struct RealSub
    {
        std::vector<Ev>                   log;
        rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::empty();
        bool                              over = false;
    };
    struct ModelSub
    {
        std::vector<Ev> log;
        bool            dead = false;
        int             taken = 0;
    };
    struct Case
    {
        pbt::Gen&         g;
        Kind              kind = Kind::publish;
        bool              serialized = false;
        size_t            max_subs = 10;
        std::vector<Spec> specs;
        bool              allow_end_inside = true;
        int               nested = 0;
        const Spec&       spec(size_t k)
        {
            while (specs.size() <= k)
            {
                Spec s;
                s.form = g.range(0, 2);
                if (g.chance(1, 5))
                    s.take = g.range(1, 3);
                if (g.chance(1, 4))
                    s.group = g.range(0, 1);
                const int n = g.chance(1, 2) ? g.range(0, 2) : 0;
                for (int i = 0; i < n; ++i)
                {
                    Op o{};
                    o.t = static_cast<Op::T>(g.weighted({4, 4, 3, serialized ? 0u : 2u, serialized ? 0u : 1u}));
                    o.a = o.t == Op::end ? (g.coin() ? 1 : g.range(2, 9)) : g.range(0, 9);
                    s.acts.emplace_back(g.range(1, 3), o);
                }
                std::string d = "  subscriber " + std::to_string(specs.size()) + ": form " + std::to_string(s.form) + (s.take ? " take " + std::to_string(s.take) : "") + (s.group >= 0 ? " group " + std::to_string(s.group) : "");
                for (auto& [at, o] : s.acts)
                {
                    static const char* names[] = {"subscribe", "unsubscribe", "unsubscribe self", "next", "end"};
                    d += " @" + std::to_string(at) + ":" + names[o.t] + "(" + std::to_string(o.a) + ")";
                }
                pbt::note("%s\n", d.c_str());
                specs.push_back(s);
            }
            return specs[k];
        }
    };

    // ---- reference ----
    struct Model
    {
        Case&                                  c;
        std::vector<std::shared_ptr<ModelSub>> subs;
        std::vector<bool>                      group_dead = {false, false};
        std::vector<size_t>                    list; // subscribed, in order
        int                                    term = 0;
        bool                                   disposed = false, ending = false, subscribing = false;
        size_t                                 keep = 0;
        int64_t                                age  = -1;
        std::deque<std::pair<int, int64_t>>    kept;
        int                                    depth = 0, in_terminal = 0;

        bool dead(size_t i) const { return subs[i]->dead || (c.specs[i].group >= 0 && group_dead[static_cast<size_t>(c.specs[i].group)]); }
        void kill(size_t i)
        {
            subs[i]->dead = true;
            if (c.specs[i].group >= 0)
                group_dead[static_cast<size_t>(c.specs[i].group)] = true;
        }
        void deliver(size_t i, Ev ev)
        {
            if (dead(i))
                return;
            auto& s = *subs[i];
            const int take = c.specs[i].take;
            if (ev.k != K::next || !take || s.taken < take)
            {
                ++s.taken;
                s.log.push_back(ev);
                act(i);
            }
            if (ev.k != K::next)
                return kill(i);
            if (take && s.taken >= take && !dead(i))
            {
                s.log.push_back({K::done, 0});
                act(i);
                kill(i);
            }
        }
        void act(size_t i)
        {
            const int n = static_cast<int>(subs[i]->log.size());
            const bool t = subs[i]->log.back().k != K::next;
            in_terminal += t;
            for (size_t a = 0; a < c.specs[i].acts.size(); ++a)
                if (c.specs[i].acts[a].first == n)
                    run(c.specs[i].acts[a].second, i);
            in_terminal -= t;
        }
        void run(Op o, size_t self)
        {
            if (depth >= 3)
                return;
            ++depth;
            switch (o.t)
            {
            case Op::sub:
                if (subs.size() < c.max_subs)
                    subscribe();
                break;
            case Op::unsub: kill(static_cast<size_t>(o.a) % subs.size()); break;
            case Op::unsub_self: kill(self); break;
            case Op::next:
                if (!ending && !subscribing && !in_terminal)
                    next(o.a);
                break;
            case Op::end:
                if (!ending && !subscribing && !in_terminal)
                    end(o.a);
                break;
            }
            --depth;
        }
        void prune()
        {
            if (age >= 0)
                while (!kept.empty() && vclk::now_ns - kept.front().second > age)
                    kept.pop_front();
        }
        void next(int v)
        {
            if (term || disposed)
                return;
            if (keep)
            {
                kept.emplace_back(v, vclk::now_ns);
                while (kept.size() > keep)
                    kept.pop_front();
            }
            auto snap = list;
            for (size_t i : snap)
                deliver(i, {K::next, v});
        }
        void end(int t)
        {
            if (term || disposed)
                return;
            term      = t;
            ending    = true;
            auto snap = std::move(list);
            list.clear();
            for (size_t i : snap)
                deliver(i, t == 1 ? Ev{K::done, 0} : Ev{K::error, t});
            ending = false;
        }
        void subscribe()
        {
            const size_t i = subs.size();
            c.spec(i);
            subs.push_back(std::make_shared<ModelSub>());
            const bool was = std::exchange(subscribing, true);
            prune();
            if (c.kind == Kind::replay || (c.kind == Kind::behavior && !disposed && (!term || ending)))
            {
                auto k = kept;
                for (auto& [v, t] : k)
                    deliver(i, {K::next, v});
            }
            if (term)
                deliver(i, term == 1 ? Ev{K::done, 0} : Ev{K::error, term});
            else if (!disposed)
                list.push_back(i);
            subscribing = was;
        }
    };

    // ---- library ----
    struct Real
    {
        Case&                                          c;
        DynObs                                         o;
        std::function<rpp::dynamic_observer<V>()>      obs;
        rpp::disposable_wrapper                        disp;
        std::function<int()>                           value; // behavior only
        std::vector<std::shared_ptr<RealSub>>          subs;
        std::vector<rpp::composite_disposable_wrapper> groups{rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
        int                                            depth = 0, in_terminal = 0;
        bool                                           ending = false, subscribing = false;

        void got(size_t i, Ev ev)
        {
            auto& s = *subs[i];
            if (s.over)
                pbt::fail("subscriber %zu notified after its terminal notification", i);
            if (ev.k != K::next)
                s.over = true;
            s.log.push_back(ev);
            const int n = static_cast<int>(s.log.size());
            auto      acts = c.specs[i].acts;
            in_terminal += ev.k != K::next;
            for (auto& [at, op] : acts)
                if (at == n)
                    run(op, i);
            in_terminal -= ev.k != K::next;
        }
        void run(Op o, size_t self)
        {
            if (depth >= 3)
                return;
            ++depth;
            ++c.nested;
            switch (o.t)
            {
            case Op::sub:
                if (subs.size() < c.max_subs)
                    subscribe();
                break;
            case Op::unsub: subs[static_cast<size_t>(o.a) % subs.size()]->d.dispose(); break;
            case Op::unsub_self: subs[self]->d.dispose(); break;
            case Op::next:
                if (!ending && !subscribing && !in_terminal)
                    obs().on_next(V{o.a});
                break;
            case Op::end:
                if (!ending && !subscribing && !in_terminal)
                    end(o.a);
                break;
            }
            --depth;
        }
        void end(int t)
        {
            const bool was = std::exchange(ending, true);
            auto ob = obs();
            t == 1 ? ob.on_completed() : ob.on_error(make_error(t));
            ending = was;
        }
        void subscribe()
        {
            const size_t i    = subs.size();
            const Spec   spec = c.spec(i);
            auto         s    = std::make_shared<RealSub>();
            subs.push_back(s);
            const bool was = std::exchange(subscribing, true);
            s->d           = spec.group >= 0 ? groups[static_cast<size_t>(spec.group)] : rpp::composite_disposable_wrapper::make();
            auto n         = [this, i, t = Tok{}](const V& v) { got(i, {K::next, v.get()}); };
            auto e         = [this, i, t = Tok{}](const std::exception_ptr& x) { got(i, {K::error, error_code(x)}); };
            auto d         = [this, i, t = Tok{}] { got(i, {K::done, 0}); };
            DynObs src     = spec.take ? (o | rpp::operators::take(static_cast<size_t>(spec.take))).as_dynamic() : o;
            switch (spec.form)
            {
            case 0: src.subscribe(s->d, n, e, d); break;
            case 1: src.subscribe(rpp::make_lambda_observer<V>(s->d, n, e, d).as_dynamic()); break;
            default: src.subscribe(s->d, rpp::make_lambda_observer<V>(n, e, d)); break;
            }
            subscribing = was;
        }
    };

    template<typename S>
    void bind(Real& r, const S& s)
    {
        r.o    = s.get_observable().as_dynamic();
        r.obs  = [s] { return s.get_observer().as_dynamic(); };
        r.disp = s.get_disposable();
    }

    void subjects(pbt::Gen& g, bool crowd)
    {
        const long v0 = Live::values, t0 = Live::tokens;
        vclk::now_ns = 1000000000;
        {
            Case c{g};
            c.kind       = static_cast<Kind>(g.below(3));
            c.serialized = g.coin();
            if (crowd)
                c.max_subs = 700;
            Model m{c};
            Real  r{c, rpp::source::never<V>().as_dynamic(), {}, rpp::disposable_wrapper::empty(), {}};
            std::string name = c.serialized ? "serialized " : "";
            if (c.kind == Kind::publish)
            {
                name += "publish";
                c.serialized ? bind(r, rpp::subjects::serialized_publish_subject<V>{}) : bind(r, rpp::subjects::publish_subject<V>{});
            }
            else if (c.kind == Kind::behavior)
            {
                const int v = g.range(0, 5);
                name += "behavior(" + std::to_string(v) + ")";
                m.keep = 1;
                m.kept.emplace_back(v, 0);
                if (c.serialized)
                {
                    rpp::subjects::serialized_behavior_subject<V> s{V{v}};
                    bind(r, s);
                    r.value = [s] { return s.get_value().get(); };
                }
                else
                {
                    const V                            init{v};
                    rpp::subjects::behavior_subject<V> s{init};
                    bind(r, s);
                    r.value = [s] { return s.get_value().get(); };
                }
            }
            else
            {
                const int form = static_cast<int>(g.below(3));
                const int n    = g.range(0, 4);
                const int dur  = g.range(0, 5);
                name += form == 0 ? "replay" : form == 1 ? "replay(" + std::to_string(n) + ")"
                                                         : "replay(" + std::to_string(n) + "," + std::to_string(dur) + "ms)";
                m.keep = form == 0 ? 1000000 : std::max<size_t>(1, static_cast<size_t>(n));
                if (form == 2)
                    m.age = dur * 1000000ll;
                using namespace std::chrono_literals;
                auto mk = [&]<typename S>(std::type_identity<S>) {
                    if (form == 0)
                        bind(r, S{});
                    else if (form == 1)
                        bind(r, S{static_cast<size_t>(n)});
                    else
                        bind(r, S{static_cast<size_t>(n), std::chrono::milliseconds{dur}});
                };
                c.serialized ? mk(std::type_identity<rpp::subjects::serialized_replay_subject<V>>{}) : mk(std::type_identity<rpp::subjects::replay_subject<V>>{});
            }
            pbt::note("%s\n", name.c_str());
            pbt::label(name.substr(0, name.find('(')).c_str());
            auto check = [&](const char* when) {
                if (r.subs.size() != m.subs.size())
                    pbt::fail("%s: harness error: subscriber counts differ", when);
                for (size_t i = 0; i < r.subs.size(); ++i)
                    if (r.subs[i]->log != m.subs[i]->log)
                        pbt::fail("%s: subscriber %zu saw %s, expected %s", when, i, show(r.subs[i]->log).c_str(), show(m.subs[i]->log).c_str());
                if (r.value && r.value() != m.kept.back().first)
                    pbt::fail("%s: get_value() is %d, expected %d", when, r.value(), m.kept.back().first);
            };
            int                                   events = 0;
            std::vector<int>                      released;
            const int                             n = g.range(1, crowd ? 10 : 14);
            std::vector<std::shared_ptr<int>>     ups;
            auto                                  subscribe = [&] {
                if (c.kind == Kind::replay && m.disposed)
                    return;
                r.subscribe();
                m.subscribe();
            };
            if (crowd)
            {
                const int k = g.range(20, 300);
                pbt::note("%d plain subscribers\n", k);
                for (int i = 0; i < k; ++i)
                {
                    c.specs.push_back({});
                    r.subscribe();
                    m.subscribe();
                }
                // one that brings many more while an event is being delivered
                Spec s;
                const int more = g.range(0, 12);
                for (int i = 0; i < more; ++i)
                    s.acts.emplace_back(g.range(1, 2), Op{Op::sub, 0});
                c.specs.push_back(s);
                r.subscribe();
                m.subscribe();
                for (int i = 0; i < 20; ++i)
                {
                    Spec x;
                    const int mm = g.range(0, 20);
                    for (int j = 0; j < mm; ++j)
                        x.acts.emplace_back(1, Op{g.chance(1, 4) ? Op::unsub : Op::sub, g.range(0, 400)});
                    c.specs.push_back(x);
                }
            }
            for (int step = 0; step < n; ++step)
            {
                switch (g.weighted({6, 10, 4, 1, 2, 1, 1}))
                {
                case 0:
                    if (r.subs.size() < c.max_subs)
                    {
                        pbt::note("subscribe -> %zu\n", r.subs.size());
                        subscribe();
                    }
                    break;
                case 1: {
                    const int v = g.range(0, 9);
                    pbt::note("next %d\n", v);
                    ++events;
                    r.obs().on_next(V{v});
                    m.next(v);
                    break;
                }
                case 2:
                    if (!r.subs.empty())
                    {
                        const size_t i = g.below(static_cast<uint32_t>(r.subs.size()));
                        pbt::note("unsubscribe %zu\n", i);
                        r.subs[i]->d.dispose();
                        m.kill(i);
                    }
                    break;
                case 3: {
                    const int t = g.coin() ? 1 : g.range(2, 9);
                    pbt::note("end %d\n", t);
                    r.end(t);
                    m.end(t);
                    break;
                }
                case 4: {
                    const int ms = g.range(0, 4);
                    pbt::note("clock +%dms%s\n", ms, ms ? "" : " (+1ns)");
                    vclk::now_ns += ms ? ms * 1000000ll : 1;
                    break;
                }
                case 5:
                    if (!m.term && !m.disposed)
                    {
                        pbt::note("attach an upstream disposable\n");
                        auto k = std::make_shared<int>(0);
                        ups.push_back(k);
                        r.obs().set_upstream(rpp::make_callback_disposable([k]() noexcept { ++*k; }));
                    }
                    break;
                case 6:
                    if (g.chance(1, 3))
                    {
                        pbt::note("dispose the subject\n");
                        r.disp.dispose();
                        m.disposed = true;
                        m.list.clear();
                    }
                    break;
                }
                check("step");
                if (r.obs().is_disposed() != (m.term != 0 || m.disposed))
                    pbt::fail("the subject's observer is %sdisposed", m.term ? "not " : "");
                for (auto& k : ups)
                    if (*k != ((m.term || m.disposed) ? 1 : 0))
                        pbt::fail("a source feeding the subject was released %d times", *k);
            }
            if (c.nested)
                pbt::label("operations from inside callbacks");
            size_t delivered = 0;
            for (auto& s : r.subs)
                delivered += s->log.size();
            pbt::nontrivial(events >= 1 && r.subs.size() >= 1 && delivered >= 2);
            r.disp.dispose();
            for (auto& s : r.subs)
                s->d.dispose();
            // a subscription tied to the harness object must not outlive it
            r.o    = rpp::source::never<V>().as_dynamic();
            r.obs  = {};
            r.disp = rpp::disposable_wrapper::empty();
            r.value = {};
        }
        if (pbt::g_sh->failed)
            return;
        if (Live::values != v0)
            pbt::fail("%ld values still alive after everything was dropped", Live::values - v0);
        if (Live::tokens != t0)
            pbt::fail("%ld callables or observers still alive after everything was dropped", Live::tokens - t0);
    }

    // ---------------- connectable ----------------
    struct MConn
    {
        m::Source                   src;
        std::shared_ptr<m::Subject> subj;
        m::Source                   face; // what subscribers subscribe to
        m::SubP                     conn;
        int                         refs = 0;
        bool                        connected() const { return conn && !conn->closed; }
    };
    using MConnP = std::shared_ptr<MConn>;
    m::SubP m_connect(const MConnP& c, m::SubP with = m::Sub::make())
    {
        if (c->subj->term && !c->subj->closing)
            return {};
        if (c->connected())
            return c->conn;
        c->conn = with;
        auto s  = c->subj;
        // a subject that is over holds no connection, not even one made while its terminal was being delivered
        std::weak_ptr<MConn> w    = c;
        auto                 over = [s, w](int t) {
            s->end(t);
            if (auto c = w.lock(); c && c->conn && !s->closing)
                c->conn->close();
        };
        m::subscribe<int>(c->src, m::mk<int>(
                                      with, [s](int v) { s->next(v); }, [over](int x) { over(x); }, [over] { over(1); }));
        return with;
    }
    m::Source m_ref_count(const MConnP& c)
    {
        struct St
        {
            m::SubP shared;
            int     refs = 0;
        };
        auto st = std::make_shared<St>();
        return [=](m::ObsP o) {
            bool first = false;
            if (!st->shared || st->shared->closed)
            {
                st->shared = m::Sub::make();
                st->refs   = 0;
                first      = true;
            }
            ++st->refs;
            auto mine = st->shared;
            o->sub->add([st, mine] {
                if (st->shared == mine && --st->refs == 0)
                    mine->close();
            });
            m::subscribe<int>(c->face, o);
            if (first && !mine->closed)
                m_connect(c, mine);
        };
    }

    struct RConn
    {
        DynObs                                                                     o; // as subscribers see it
        std::function<rpp::disposable_wrapper()>                                   connect;
        DynObs                                                                     rc;
    };
    template<typename C>
    RConn wrap(const C& c)
    {
        return {c.as_dynamic(), [c] { return c.connect(); }, (c | rpp::operators::ref_count()).as_dynamic()};
    }

    P conn_pair(Env& e, P src, RConn& rc, MConnP& mc, bool nested)
    {
        mc       = std::make_shared<MConn>();
        mc->src  = src.m;
        mc->subj = std::make_shared<m::Subject>();
        auto s   = mc->subj;
        const int k = static_cast<int>(e.g.below(nested ? 2 : 5));
        std::string d;
        mc->face = [s](m::ObsP o) { s->subscribe(o); };
        switch (k)
        {
        case 0:
            rc = wrap(src.r | rpp::operators::publish());
            d  = "publish";
            break;
        case 1:
            rc = wrap(src.r | rpp::operators::multicast<rpp::subjects::publish_subject>());
            d  = "multicast<publish>";
            break;
        case 2:
            rc = wrap(src.r | rpp::operators::multicast(rpp::subjects::serialized_publish_subject<V>{}));
            d  = "multicast(serialized_publish)";
            break;
        case 3: {
            const int v = e.val();
            rc          = wrap(src.r | rpp::operators::multicast(rpp::subjects::behavior_subject<V>{V{v}}));
            d           = "multicast(behavior(" + std::to_string(v) + "))";
            s->keep     = 1;
            s->kept     = {v};
            mc->face    = [s](m::ObsP o) {
                if (!s->term || s->closing)
                    for (int x : m::Vec{s->kept.begin(), s->kept.end()})
                        o->next(x);
                s->subscribe(o);
            };
            break;
        }
        default:
            rc       = wrap(src.r | rpp::operators::multicast<rpp::subjects::replay_subject>());
            d        = "multicast<replay>";
            s->keep  = 1000000;
            mc->face = [s](m::ObsP o) {
                for (int x : m::Vec{s->kept.begin(), s->kept.end()})
                    o->next(x);
                s->subscribe(o);
            };
            break;
        }
        src.d += " | " + d;
        return src;
    }

    void connectable(pbt::Gen& g, bool rc_mode, bool chain, bool nested = false)
    {
        const long v0 = Live::values, t0 = Live::tokens;
        {
            World w;
            Cfg   cfg;
            cfg.scripts      = true;
            cfg.sync_sources = true;
            cfg.share_probes = false;
            cfg.elem         = 1;
            Env    e{g, w, cfg};
            P      src = g.chance(1, 5) ? make_source(e) : make_probe(e);
            if (chain)
                src = apply_ops(e, std::move(src), g.range(0, 2));
            RConn  rc{src.r, {}, src.r};
            MConnP mc;
            src = conn_pair(e, std::move(src), rc, mc, nested);
            P face{rc_mode ? rc.rc : rc.o, rc_mode ? m_ref_count(mc) : mc->face, src.d + (rc_mode ? " | ref_count" : "")};
            if (chain)
            {
                e.cfg.elem = 2;
                face       = apply_ops(e, std::move(face), g.range(0, 2));
            }
            pbt::note("%s\n", face.d.c_str());
            struct Act
            {
                size_t at;
                int    kind, arg;
            };
            std::vector<SinkP>                   sinks;
            std::vector<char>                    sub_r, sub_m; // who was subscribed, on each side
            std::vector<rpp::disposable_wrapper> handles;
            std::vector<m::SubP>                 mhandles;
            int                                  conns = 0, events = 0, subs = 0;
            auto                                 check = [&](const char* when) {
                for (size_t i = 0; i < sinks.size(); ++i)
                {
                    if (sinks[i]->r_after_terminal)
                        pbt::fail("%s: subscriber %zu notified after its terminal notification", when, i);
                    if (sinks[i]->rlog != sinks[i]->mlog)
                        pbt::fail("%s: subscriber %zu saw %s, expected %s", when, i, show(sinks[i]->rlog).c_str(), show(sinks[i]->mlog).c_str());
                }
                if (auto d = state_diff(w); !d.empty())
                    pbt::fail("%s: %s", when, d.c_str());
                for (auto& p : w.probes)
                {
                    int a = 0;
                    for (auto& i : p->r)
                        a += i->r_active();
                    if (a > 1)
                        pbt::fail("%s: %d source subscriptions at once", when, a);
                }
            };
            std::function<size_t(int)> new_sink = [&](int depth) {
                auto         s  = std::make_shared<Sink>();
                const size_t id = sinks.size();
                sinks.push_back(s);
                sub_r.push_back(0);
                sub_m.push_back(0);
                if (g.chance(1, 6))
                    s->dispose_at_r = s->dispose_at_m = g.range(1, 3);
                if (!nested || depth > 1 || !g.coin())
                    return id;
                auto acts = std::make_shared<std::vector<Act>>();
                for (int i = g.range(1, 2); i > 0; --i)
                {
                    Act a{static_cast<size_t>(g.range(1, 3)), g.range(0, 3), 0};
                    if (a.kind >= 2 && rc_mode)
                        a.kind -= 2;
                    a.arg = a.kind == 0 ? static_cast<int>(new_sink(depth + 1)) : g.range(0, 4);
                    static const char* const names[] = {"subscribes", "unsubscribes", "connects", "disconnects"};
                    pbt::note("subscriber %zu, in its notification %zu, %s %d\n", id, a.at, names[a.kind], a.arg);
                    acts->push_back(a);
                }
                Sink* k = s.get();
                s->on_r = [&, k, acts](const Ev&) {
                    for (auto& a : *acts)
                        if (k->rlog.size() == a.at)
                        {
                            pbt::label("nested call");
                            const auto before = std::exchange(k->r_depth, 0);
                            const auto i      = static_cast<size_t>(a.arg);
                            if (a.kind == 0 && !sub_r[i])
                            {
                                sub_r[i] = 1;
                                subscribe_real(face, sinks[i], 0);
                            }
                            else if (a.kind == 1 && i < sinks.size() && sub_r[i])
                                sinks[i]->d.dispose();
                            else if (a.kind == 2)
                                handles.push_back(rc.connect());
                            else if (a.kind == 3 && i < handles.size())
                                rpp::disposable_wrapper{handles[i]}.dispose();
                            k->r_depth = before;
                        }
                };
                s->on_m = [&, k, acts](const Ev&) {
                    for (auto& a : *acts)
                        if (k->mlog.size() == a.at)
                        {
                            const auto i = static_cast<size_t>(a.arg);
                            if (a.kind == 0 && !sub_m[i])
                            {
                                sub_m[i] = 1;
                                subscribe_model(face, sinks[i]);
                            }
                            else if (a.kind == 1 && i < sinks.size() && sub_m[i])
                                sinks[i]->msub->close();
                            else if (a.kind == 2)
                                mhandles.push_back(m_connect(mc));
                            else if (a.kind == 3 && i < mhandles.size() && mhandles[i])
                                m::SubP{mhandles[i]}->close();
                        }
                };
                return id;
            };
            const int n = g.range(2, 20);
            for (int step = 0; step < n; ++step)
            {
                switch (g.weighted({4, 3, rc_mode ? 0u : 3u, rc_mode ? 0u : 2u, 10}))
                {
                case 0: {
                    if (sinks.size() >= 8)
                        break;
                    const size_t id = new_sink(0);
                    auto         s  = sinks[id];
                    sub_r[id] = sub_m[id] = 1;
                    ++subs;
                    pbt::note("subscribe -> %zu%s\n", id, s->dispose_at_r > 0 ? (" (disposes itself at " + std::to_string(s->dispose_at_r) + ")").c_str() : "");
                    subscribe_both(w, face, s, g.range(0, 2));
                    break;
                }
                case 1: {
                    if (sinks.empty())
                        break;
                    const size_t i = g.below(static_cast<uint32_t>(sinks.size()));
                    if (!sub_r[i] || !sub_m[i])
                        break;
                    pbt::note("unsubscribe %zu\n", i);
                    sinks[i]->d.dispose();
                    sinks[i]->msub->close();
                    break;
                }
                case 2: {
                    pbt::note("connect\n");
                    ++conns;
                    auto d = rc.connect();
                    handles.push_back(d);
                    auto md = m_connect(mc);
                    mhandles.push_back(md);
                    if (d.is_disposed() != (!md || md->closed))
                        pbt::fail("connect returned a %s handle", d.is_disposed() ? "disposed" : "live");
                    break;
                }
                case 3: {
                    if (handles.empty())
                        break;
                    const size_t i = g.below(static_cast<uint32_t>(handles.size()));
                    pbt::note("disconnect %zu\n", i);
                    handles[i].dispose();
                    // the handle of an ended source's connect is empty
                    if (mhandles[i])
                        mhandles[i]->close();
                    break;
                }
                default: {
                    std::vector<std::pair<Probe*, size_t>> act;
                    for (auto& pr : w.probes)
                        for (size_t i = 0; i < pr->m.size() && i < pr->r.size(); ++i)
                            if (pr->m[i]->m_active())
                                act.emplace_back(pr.get(), i);
                    if (act.empty())
                        break;
                    auto [pr, i] = act[g.below(static_cast<uint32_t>(act.size()))];
                    Ev         ev{K::next, e.val()};
                    const auto k = g.below(16);
                    if (k >= 14)
                        ev = k == 14 ? Ev{K::done, 0} : Ev{K::error, g.range(2, 9)};
                    pbt::note("probe%d[%zu] %s\n", pr->id, i, show({ev}).c_str());
                    ++events;
                    emit(*pr, i, ev, g.coin());
                }
                }
                check("step");
            }
            size_t max_subs = 0;
            for (auto& p : w.probes)
                max_subs = std::max(max_subs, p->r.size());
            if (max_subs > 1)
                pbt::label("reconnected");
            pbt::nontrivial(subs >= 1 && (events >= 1) && max_subs >= 1);
            for (auto& hd : handles)
                hd.dispose();
            for (auto& s : mhandles)
                if (s)
                    s->close();
            for (auto& s : sinks)
            {
                s->d.dispose();
                s->msub->close();
            }
            clear_world(w);
            mc->subj->obs.clear();
            for (auto& s : sinks)
            {
                s->on_r = s->on_m = {};
                s->msub->td.clear();
            }
        }
        if (pbt::g_sh->failed)
            return;
        if (Live::values != v0)
            pbt::fail("%ld values still alive after everything was dropped", Live::values - v0);
        if (Live::tokens != t0)
            pbt::fail("%ld callables or observers still alive after everything was dropped", Live::tokens - t0);
    }
}

int main(int argc, char** argv)
{
    std::string id = "C12";
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string{argv[i]} == "--property")
            id = argv[i + 1];
    pbt::Spec s;
    s.property = id;
    if (id == "C12")
    {
        s.rule        = "at least one event was emitted into the subject, somebody subscribed, and at least two notifications were delivered; distinct by the full sequence of generator choices";
        s.assumptions = {"one thread", "a subject is not emitted into while a subscription to it is still replaying or while its terminal is being delivered"};
        s.families.push_back({"histories", [](pbt::Gen& g) { subjects(g, false); }, 120000, 3000000});
        s.families.push_back({"crowd", [](pbt::Gen& g) { subjects(g, true); }, 1500, 40000});
        DiffOpt o;
        o.cfg.elem = 1; o.cfg.part = 1; o.cfg.flat = 2; o.cfg.comb = 2; o.cfg.resub = 1;
        o.cfg.max_ops = 2; o.second_sub = 4; o.cfg.subjects = 6; o.cfg.max_depth = 2; o.cfg.subject_kinds = 3;
        s.families.push_back({"composed", [o](pbt::Gen& g) { run_diff(g, o); }, 60000, 1500000});
    }
    else
    {
        s.rule        = "somebody subscribed, the source was subscribed, and at least one source event was issued; distinct by the full sequence of generator choices";
        s.assumptions = {"one thread", "an observable is either connected by hand or reference counted, not both"};
        s.families.push_back({"manual", [](pbt::Gen& g) { connectable(g, false, false); }, 60000, 1500000});
        s.families.push_back({"ref_count", [](pbt::Gen& g) { connectable(g, true, false); }, 60000, 1500000});
        s.families.push_back({"manual-chain", [](pbt::Gen& g) { connectable(g, false, true); }, 30000, 700000});
        s.families.push_back({"ref_count-chain", [](pbt::Gen& g) { connectable(g, true, true); }, 30000, 700000});
        s.families.push_back({"manual-nested", [](pbt::Gen& g) { connectable(g, false, false, true); }, 40000, 1000000});
        s.families.push_back({"ref_count-nested", [](pbt::Gen& g) { connectable(g, true, false, true); }, 40000, 1000000});
    }
    return pbt::run_main(argc, argv, s);
}
