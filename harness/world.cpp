#include "world.hpp"
#include <rpp/observers/lambda_observer.hpp>
#include <rpp/operators/subscribe.hpp>
#include <rpp/schedulers/current_thread.hpp>
#include <rpp/schedulers/immediate.hpp>
#include <rpp/sources/create.hpp>
#include <rpp/sources/from.hpp>
#include <rpp/sources/just.hpp>
#include <rpp/sources/empty.hpp>
#include <rpp/sources/error.hpp>
#include <rpp/sources/never.hpp>
#include <rpp/subjects/behavior_subject.hpp>
#include <rpp/subjects/publish_subject.hpp>
#include <rpp/subjects/replay_subject.hpp>
#include <rpp/utils/exceptions.hpp>
#include <rpp/observables/variant_observable.hpp>

namespace h
{
    int error_code(const std::exception_ptr& e)
    {
        if (!e)
            return -50;
        try
        {
            std::rethrow_exception(e);
        }
        catch (const Err& x)
        {
            return x.code;
        }
        catch (const rpp::utils::not_enough_emissions&)
        {
            return m::kNotEnough;
        }
        catch (const rpp::utils::out_of_range&)
        {
            return m::kOutOfRange;
        }
        catch (const rpp::utils::timeout_reached&)
        {
            return m::kTimeout;
        }
        catch (...)
        {
            return -99;
        }
    }
    std::exception_ptr make_error(int code, int) { return std::make_exception_ptr(Err{code}); }

    std::string show(const std::vector<Ev>& l)
    {
        std::string s;
        for (auto& e : l)
            s += (s.empty() ? "" : " ") + (e.k == K::next ? std::to_string(e.v) : e.k == K::done ? std::string{"|"}
                                                                                                : "#" + std::to_string(e.v));
        return "[" + s + "]";
    }

    struct ProbeSubscribe
    {
        ProbeP p;
        World* w;
        Tok    t;
        template<typename Obs>
        void operator()(Obs&& o) const
        {
            const size_t          idx = p->r.size();
            std::shared_ptr<Inst> in;
            {
                Side own{0};
                in = std::make_shared<Inst>();
                p->r.push_back(in);
            }
            in->r.emplace(std::forward<Obs>(o).as_dynamic());
            if (w->budget_r-- <= 0)
            {
                if (w->lenient)
                    return;
                pbt::fail("endless synchronous resubscription (library side)");
            }
            if (p->set_upstream)
            {
                // not a callback disposable: dispose must reach the source exactly once
                std::weak_ptr<Inst> wi   = in;
                const int           parting = p->parting;
                in->r->set_upstream(rpp::make_callback_disposable([wi, parting]() noexcept {
                    if (auto i = wi.lock())
                    {
                        const bool first = i->r_disposed++ == 0 && !i->r_done;
                        if (!first || !parting)
                            return;
                        pbt::label("a released source still sends");
                        auto o = *i->r;
                        if (parting == 1)
                            o.on_next(V{0});
                        else if (parting == 2)
                            o.on_completed();
                        else
                            o.on_error(make_error(7));
                    }
                }));
            }
            const auto a = p->attempt(idx);
            if (a.poke_hot >= 0 && idx < p->script.size() && !w->hots.empty())
                if (auto h = w->hots[static_cast<size_t>(a.poke_hot) % w->hots.size()]; !h->done)
                    h->obs().on_next(V{a.poke_value});
            for (int v : a.vals)
            {
                if (in->r->is_disposed() && !p->rude)
                    break;
                if (w->budget_r-- <= 0)
                {
                    if (w->lenient)
                        return;
                    pbt::fail("endless synchronous emission (library side)");
                }
                in->r->on_next(V{v});
            }
            if (a.throws_)
            {
                in->r_done = true;
                throw Err{a.terminal > 1 ? a.terminal : 77};
            }
            if (a.terminal == 1)
            {
                in->r_done = true;
                in->r->on_completed();
            }
            else if (a.terminal > 1)
            {
                in->r_done = true;
                in->r->on_error(make_error(a.terminal));
            }
            for (int i = 0; i < a.rude_after; ++i)
                switch ((i + a.terminal) % 3)
                {
                case 0: in->r->on_next(V{i}); break;
                case 1: in->r->on_completed(); break;
                default: in->r->on_error(make_error(9)); break;
                }
        }
    };

    static World* g_world = nullptr;
    P             from_probe(const ProbeP& p)
    {
        World*       w = g_world;
        m::Source    ms = [p, w](m::ObsP o) {
            const size_t          idx = p->m.size();
            std::shared_ptr<Inst> in;
            {
                Side own{0};
                in    = std::make_shared<Inst>();
                in->m = o;
                p->m.push_back(in);
            }
            if (w->budget_m-- <= 0)
                pbt::fail("endless synchronous resubscription (model side)");
            const auto& a = p->attempt(idx);
            if (a.poke_hot >= 0 && idx < p->script.size() && !w->hots.empty())
                if (auto h = w->hots[static_cast<size_t>(a.poke_hot) % w->hots.size()]; !h->done)
                    h->m->next(a.poke_value);
            for (int v : a.vals)
            {
                if (!o->live())
                    break;
                if (w->budget_m-- <= 0)
                    pbt::fail("endless synchronous emission (model side)");
                o->next(v);
            }
            if (a.throws_)
            {
                in->m_done = true;
                throw m::MErr{a.terminal > 1 ? a.terminal : 77};
            }
            if (a.terminal)
                in->m_done = true;
            if (a.terminal == 1)
                o->done();
            else if (a.terminal > 1)
                o->error(a.terminal);
        };
        return {rpp::source::create<V>(ProbeSubscribe{p, w, {}}).as_dynamic(), ms, "probe" + std::to_string(p->id), !p->script.empty() && (p->script.back().terminal || p->script.back().throws_ || !p->script.back().vals.empty())};
    }

    template<typename S>
    static std::shared_ptr<Hot> hot_of(int id, const S& s, const char* d)
    {
        return std::make_shared<Hot>(Hot{id, s.get_observable().as_dynamic(), [s] { return s.get_observer().as_dynamic(); }, std::make_shared<m::Subject>(), {}, false, d + std::to_string(id)});
    }
    static P make_hot(Env& e)
    {
        auto& hs = e.w.hots;
        if (hs.size() < 2 && (hs.empty() || e.g.chance(1, 4)))
        {
            const int            id = static_cast<int>(hs.size());
            std::shared_ptr<Hot> h;
            switch (e.g.below(static_cast<uint32_t>(e.cfg.subject_kinds)))
            {
            case 0:
                h       = e.cfg.poke_subscribe || e.g.coin() ? hot_of(id, rpp::subjects::publish_subject<V>{}, "subject") : hot_of(id, rpp::subjects::serialized_publish_subject<V>{}, "serialized_subject");
                h->msrc = [m = h->m](m::ObsP o) { m->subscribe(o); };
                break;
            case 1: {
                const int v = e.val();
                h           = e.g.coin() ? hot_of(id, rpp::subjects::behavior_subject<V>{V{v}}, "behavior") : hot_of(id, rpp::subjects::serialized_behavior_subject<V>{V{v}}, "serialized_behavior");
                h->d += "(" + std::to_string(v) + ")";
                h->m->keep   = 1;
                h->m->kept   = {v};
                h->msrc      = [m = h->m](m::ObsP o) {
                    if (!m->term || m->closing) // not yet over for those who come while the terminal is being delivered
                        for (int x : m::Vec{m->kept.begin(), m->kept.end()})
                            o->next(x);
                    m->subscribe(o);
                };
                break;
            }
            default: {
                const int n = e.g.range(1, 3);
                h           = e.g.coin() ? hot_of(id, rpp::subjects::replay_subject<V>{static_cast<size_t>(n)}, "replay") : hot_of(id, rpp::subjects::serialized_replay_subject<V>{static_cast<size_t>(n)}, "serialized_replay");
                h->d += "(" + std::to_string(n) + ")";
                h->m->keep = static_cast<size_t>(n);
                h->msrc    = [m = h->m](m::ObsP o) {
                    for (int x : m::Vec{m->kept.begin(), m->kept.end()})
                        o->next(x);
                    m->subscribe(o);
                };
            }
            }
            hs.push_back(h);
        }
        auto h = hs[e.g.below(static_cast<uint32_t>(hs.size()))];
        return {h->r, h->msrc, h->d, true};
    }
    void emit_hot(Hot& h, Ev ev, int cat)
    {
        auto o = h.obs();
        switch (ev.k)
        {
        case K::next:
            if (cat == 1)
                o.on_next(V{ev.v});
            else
            {
                V v{ev.v};
                if (cat == 2)
                    o.on_next(v);
                else
                    o.on_next(std::as_const(v));
                if (v.moved() || v.get() != ev.v)
                    pbt::fail("the object given to the subject was %s", v.moved() ? "moved from" : "modified");
            }
            h.m->next(ev.v);
            break;
        case K::error:
            h.done = true;
            o.on_error(make_error(ev.v));
            h.m->end(ev.v);
            break;
        case K::done:
            h.done = true;
            o.on_completed();
            h.m->end(1);
            break;
        }
    }

    P make_probe(Env& e)
    {
        g_world = &e.w;
        if (e.cfg.subjects && e.g.chance(static_cast<uint32_t>(e.cfg.subjects), 8))
            return make_hot(e);
        // reuse an existing probe sometimes (one observable used as several inputs)
        if (e.cfg.share_probes && !e.w.probes.empty() && (static_cast<int>(e.w.probes.size()) >= e.cfg.max_probes || e.g.chance(1, 8)))
        {
            auto p = e.w.probes[e.g.below(static_cast<uint32_t>(e.w.probes.size()))];
            return from_probe(p);
        }
        auto p             = std::make_shared<Probe>();
        p->id              = static_cast<int>(e.w.probes.size());
        if (e.cfg.parting && e.g.coin())
            p->parting = e.g.range(1, 3);
        if (e.cfg.scripts && e.g.chance(1, 2))
        {
            const int n = e.g.range(1, 4);
            for (int i = 0; i < n; ++i)
            {
                Attempt   a;
                const int k = e.g.range(0, 3);
                for (int j = 0; j < k; ++j)
                    a.vals.push_back(e.val());
                if (e.cfg.poke_subscribe && e.g.coin())
                {
                    a.poke_hot   = e.g.range(0, 1);
                    a.poke_value = e.val();
                }
                switch (e.g.below(4))
                {
                case 0: a.terminal = 0; break;
                case 1: a.terminal = 1; break;
                case 2: a.terminal = e.g.range(2, 9); break;
                case 3:
                    a.terminal = e.g.range(2, 9);
                    a.throws_  = e.cfg.throwing_subscribe && (e.depth == 0 || a.vals.empty());
                    break;
                }
                p->script.push_back(a);
            }
        }
        e.w.probes.push_back(p);
        auto        r = from_probe(p);
        std::string sc;
        for (auto& a : p->script)
            sc += " " + (a.poke_hot >= 0 ? "makes subject " + std::to_string(a.poke_hot) + " emit " + std::to_string(a.poke_value) + " " : std::string{}) + list(a.vals) + (a.throws_ ? "throw" : "") + (a.terminal == 0 ? "..." : a.terminal == 1 ? "|"
                                                                                                          : "#" + std::to_string(a.terminal));
        if (!sc.empty())
            r.d += "(" + sc + " )";
        if (p->parting)
            r.d += p->parting == 1 ? "[emits when released]" : p->parting == 2 ? "[completes when released]" : "[fails when released]";
        return r;
    }

    P make_probe_quiet(Env& e)
    {
        g_world = &e.w;
        auto p  = std::make_shared<Probe>();
        p->id   = static_cast<int>(e.w.probes.size());
        e.w.probes.push_back(p);
        return from_probe(p);
    }

    P make_source(Env& e)
    {
        g_world = &e.w;
        if (e.cfg.sync_sources && e.g.chance(1, 4))
        {
            m::Vec    vals;
            const int n = e.g.range(0, 4);
            for (int i = 0; i < n; ++i)
                vals.push_back(e.val());
            const int   t = static_cast<int>(e.g.below(4)); // 0,1: complete, 2: error, 3: never
            std::vector<V> vv;
            for (int v : vals)
                vv.emplace_back(v);
            if (t >= 2)
            {
                const int term = t == 2 ? e.g.range(2, 9) : 0;
                if (vals.empty())
                {
                    if (t == 2)
                        return {rpp::source::error<V>(make_error(term)).as_dynamic(), m::cold({}, term), "error(" + std::to_string(term) + ")", true};
                }
                return {rpp::source::create<V>([vv, term, t = Tok{}, w = g_world](auto&& o) {
                            // the source of an endless sequence keeps its observer
                            auto obs = std::move(o).as_dynamic();
                            if (!term)
                                w->kept.push_back(obs);
                            for (auto& v : vv)
                            {
                                if (obs.is_disposed())
                                    return;
                                obs.on_next(v);
                            }
                            if (term)
                                obs.on_error(make_error(term));
                        }).as_dynamic(),
                        m::cold(vals, term), "create(" + list(vals) + (term ? ",#" + std::to_string(term) : std::string{",..."}) + ")", true};
            }
            if (vals.empty())
                return {rpp::source::empty<V>().as_dynamic(), m::cold({}, 1), "empty", true};
            return {rpp::source::from_iterable(vv, rpp::schedulers::immediate{}).as_dynamic(), m::cold(vals, 1), "from(" + list(vals) + ")", true};
        }
        return make_probe(e);
    }

    P apply_ops(Env& e, P p, int n)
    {
        const Cfg& c = e.cfg;
        for (int i = 0; i < n; ++i)
        {
            std::vector<uint32_t> w{static_cast<uint32_t>(c.elem), static_cast<uint32_t>(c.part), static_cast<uint32_t>(c.flat), static_cast<uint32_t>(c.comb), static_cast<uint32_t>(c.resub), static_cast<uint32_t>(c.misc)};
            const size_t          k  = e.g.weighted(w);
            const auto&           ops = k == 0 ? ops_elem() : k == 1 ? ops_part()
                                                   : k == 2          ? ops_flat()
                                                   : k == 3          ? ops_comb()
                                                   : k == 4          ? ops_resub()
                                                                     : ops_misc();
            const auto& op = ops[e.g.below(static_cast<uint32_t>(ops.size()))];
            if (const std::string n = op.name; c.no_early_end && (n == "take" || n == "take_while" || n == "first" || n == "element_at"))
                continue;
            if (c.no_zip && std::string{op.name} == "zip")
                continue;
            pbt::label(op.name);
            ++e.depth;
            p = op.fn(e, std::move(p));
            --e.depth;
        }
        return p;
    }
    P make_pipeline(Env& e, int max_ops)
    {
        P p = make_source(e);
        return apply_ops(e, std::move(p), e.g.range(0, max_ops));
    }

    void Sink::real(Ev ev)
    {
        if (r_depth)
            overlapped = true;
        if (r_terminal)
            r_after_terminal = true;
        ++r_depth;
        if (ev.k != K::next)
            r_terminal = true;
        if (quiet)
        {
            --r_depth;
            return;
        }
        rlog.push_back(ev);
        if (rlog.size() > 100000)
            pbt::fail("endless emission (library side)");
        if (static_cast<int>(rlog.size()) == dispose_at_r)
            d.dispose();
        if (on_r)
            on_r(ev);
        --r_depth;
    }
    void Sink::model(Ev ev)
    {
        if (quiet)
            return;
        mlog.push_back(ev);
        if (mlog.size() > 100000)
            pbt::fail("endless emission (model side)");
        if (static_cast<int>(mlog.size()) == dispose_at_m)
            msub->close();
        if (on_m)
            on_m(ev);
    }

    int subscribe_real(const P& p, const SinkP& s, int how)
    {
        auto n = [s, t = Tok{}](auto&& v) {
            const int x = v.get();
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(v)>>)
            {
                if (s->steal)
                {
                    V stolen{std::move(v)};
                    (void) stolen;
                }
            }
            s->real({K::next, x});
        };
        auto n2 = [n](V v) { n(std::move(v)); };
        auto e  = [s, t = Tok{}](const std::exception_ptr& err) { s->real({K::error, error_code(err)}); };
        auto c  = [s, t = Tok{}] { s->real({K::done, 0}); };
        int escaped = 0;
        try
        {
            if (p.direct)
            {
                p.direct(s, how);
                return 0;
            }
            switch (how)
            {
            case 0:
                s->d = rpp::composite_disposable_wrapper::make();
                p.r.subscribe(s->d, n2, e, c);
                break;
            case 1:
                s->d = rpp::composite_disposable_wrapper::make();
                p.r.subscribe(s->d, rpp::make_lambda_observer<V>(n2, e, c));
                break;
            case 2:
                s->d = rpp::composite_disposable_wrapper::make();
                p.r.subscribe(rpp::make_lambda_observer<V>(s->d, n2, e, c).as_dynamic());
                break;
            case 3:
                s->d = p.r.subscribe_with_disposable(n2, e, c);
                break;
            default:
                p.r | rpp::operators::subscribe(n2, e, c);
                break;
            }
        }
        catch (const Err& x)
        {
            escaped = x.code;
        }
        return escaped;
    }
    int subscribe_model(const P& p, const SinkP& s)
    {
        auto mo = m::mk<int>(
            s->msub, [s](int v) { s->model({K::next, v}); }, [s](int x) { s->model({K::error, x}); }, [s] { s->model({K::done, 0}); });
        int m_escaped = 0;
        try
        {
            m::subscribe<int>(p.m, mo);
        }
        catch (const m::MErr& x)
        {
            m_escaped = x.code;
        }
        return m_escaped;
    }
    void subscribe_both(World& w, const P& p, const SinkP& s, int how)
    {
        (void) w;
        const int escaped   = subscribe_real(p, s, how);
        const int m_escaped = subscribe_model(p, s);
        if (escaped != m_escaped)
            pbt::fail("exception %d escaped from subscribe (expected %d; 0 = none)", escaped, m_escaped);
        s->escaped = escaped;
    }

    void emit(Probe& p, size_t idx, Ev ev, int cat)
    {
        emit_real(p, idx, ev, cat);
        emit_model(p, idx, ev);
    }
    void emit_real(Probe& p, size_t idx, Ev ev, int cat)
    {
        if (idx < p.r.size() && p.r[idx]->r)
        {
            auto in = p.r[idx];
            auto o  = *in->r; // keeps the observer alive across a re-entrant clean-up
            if (ev.k != K::next)
                in->r_done = true;
            try
            {
                switch (ev.k)
                {
                case K::next:
                    if (cat == 1)
                        o.on_next(V{ev.v});
                    else if (cat == 2)
                    {
                        V v{ev.v};
                        o.on_next(v);
                        if (v.moved() || v.get() != ev.v)
                            pbt::fail("the emitted object was %s", v.moved() ? "moved from" : "modified");
                    }
                    else
                    {
                        const V v{ev.v};
                        o.on_next(v);
                        if (v.get() != ev.v)
                            pbt::fail("the emitted object was modified");
                    }
                    break;
                case K::error: o.on_error(make_error(ev.v)); break;
                case K::done: o.on_completed(); break;
                }
            }
            catch (const Err& x)
            {
                pbt::fail("exception %d escaped to the source", x.code);
            }
        }
    }
    void emit_model(Probe& p, size_t idx, Ev ev)
    {
        if (idx < p.m.size() && p.m[idx]->m)
        {
            auto in = p.m[idx];
            if (ev.k != K::next)
                in->m_done = true;
            auto o = in->m;
            switch (ev.k)
            {
            case K::next: o->next(ev.v); break;
            case K::error: o->error(ev.v); break;
            case K::done: o->done(); break;
            }
        }
    }

    std::string sub_state(const Probe& p)
    {
        std::string s = "probe" + std::to_string(p.id) + " library:";
        for (auto& i : p.r)
            s += i->r_active() ? " active" : i->r_done ? " ended"
                                                       : " released";
        s += " model:";
        for (auto& i : p.m)
            s += i->m_active() ? " active" : i->m_done ? " ended"
                                                       : " released";
        return s;
    }

    std::string state_diff(const World& w)
    {
        for (auto& p : w.probes)
        {
            if (p->r.size() != p->m.size())
                return "number of subscriptions differs: " + sub_state(*p);
            for (size_t i = 0; i < p->r.size(); ++i)
            {
                if (p->r[i]->r_active() != p->m[i]->m_active())
                    return "subscription " + std::to_string(i) + " differs: " + sub_state(*p);
                if (p->r[i]->r_disposed > 1)
                    return "subscription released more than once: " + sub_state(*p);
            }
        }
        for (size_t i = 0; i < w.counters.size(); ++i)
            if (w.counters[i]->r != w.counters[i]->m)
                return "side effects of callback group " + std::to_string(i) + " differ";
        for (size_t i = 0; i < w.finals.size(); ++i)
            if (!w.finals[i]->agrees())
                return "finaliser " + std::to_string(i) + " ran " + std::to_string(w.finals[i]->r) + " times, expected " + std::to_string(w.finals[i]->m);
        return {};
    }
    void clear_world(World& w)
    {
        for (auto& h : w.hots) // an observable kept by its own subscriber is a cycle until the subject ends
            if (!h->done)
                emit_hot(*h, {K::done, 0});
        for (auto& p : w.probes)
        {
            auto r = std::move(p->r);
            auto mm = std::move(p->m);
            p->r.clear();
            p->m.clear();
        }
        w.probes.clear();
        auto hots = std::move(w.hots);
        w.hots.clear();
        auto k = std::move(w.kept);
        w.kept.clear();
        auto mk = std::move(m::g_kept);
        m::g_kept.clear();
    }
}
