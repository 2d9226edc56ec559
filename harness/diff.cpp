#include "diff.hpp"
#include "opsutil.hpp"
#include <map>
#include <utility>

namespace h
{
    static bool terminated(const std::vector<Ev>& l) { return !l.empty() && l.back().k != K::next; }

    static void compare(World& w, const std::vector<SinkP>& sinks, const char* when)
    {
        for (size_t i = 0; i < sinks.size(); ++i)
        {
            auto& s = *sinks[i];
            if (s.r_after_terminal)
                pbt::fail("%s: subscriber %zu was notified after its terminal notification: library %s", when, i, show(s.rlog).c_str());
            if (s.overlapped)
                pbt::fail("%s: subscriber %zu was notified re-entrantly", when, i);
            if (s.rlog != s.mlog)
                pbt::fail("%s: subscriber %zu saw %s, expected %s", when, i, show(s.rlog).c_str(), show(s.mlog).c_str());
        }
        if (auto d = state_diff(w); !d.empty())
            pbt::fail("%s: %s", when, d.c_str());
    }

    void run_diff(pbt::Gen& g, const DiffOpt& o)
    {
        const long v0 = Live::values, t0 = Live::tokens;
        {
            World              w;
            std::vector<SinkP> sinks;
            int                events = 0, notes = 0;
            bool               disposed = false, escaped = false;
            {
                Env e{g, w, o.cfg};
                P   p = o.root ? o.root(e) : [&] {
                    P s = make_source(e);
                    return apply_ops(e, std::move(s), g.range(o.min_ops, o.cfg.max_ops));
                }();
                pbt::note("%s\n", p.d.c_str());
                const int  subs = (o.second_sub && g.chance(static_cast<uint32_t>(o.second_sub), 8)) ? 2 : 1;
                const int  catm = g.range(0, 3);
                auto       cat  = [&] { return catm == 3 ? g.range(0, 2) : catm; };
                auto       add  = [&] {
                    auto s   = std::make_shared<Sink>();
                    s->steal = g.coin();
                    if (o.dispose && !p.direct_late && g.chance(static_cast<uint32_t>(o.dispose_in), 6))
                        s->dispose_at_r = s->dispose_at_m = g.range(1, 4);
                    int how = g.range(0, 4);
                    if (s->dispose_at_r > 0 && how >= 3)
                        how = 0;
                    sinks.push_back(s);
                    if (o.nested)
                    {
                        auto plan = std::make_shared<std::map<size_t, std::pair<Ev, bool>>>();
                        for (int i = g.range(1, 3); i > 0; --i)
                        {
                            const auto at = static_cast<size_t>(g.range(1, 6));
                            Ev         ev{K::next, g.range(0, o.cfg.value_range - 1)};
                            if (g.chance(1, 8))
                                ev = g.coin() ? Ev{K::done, 0} : Ev{K::error, g.range(2, 9)};
                            (*plan)[at] = {ev, g.coin()};
                            pbt::note("from inside notification %zu the subscriber makes the source emit %s\n", at, show({ev}).c_str());
                        }
                        Sink* k = s.get();
                        World* wp = &w;
                        s->on_r = [k, plan, wp](const Ev& ev) {
                            if (auto it = plan->find(k->rlog.size()); ev.k == K::next && it != plan->end() && !wp->probes.empty() && !wp->probes[0]->r.empty() && wp->probes[0]->r[0]->r_active())
                            {
                                pbt::label("nested emission");
                                const auto before = std::exchange(k->r_depth, 0);
                                emit_real(*wp->probes[0], 0, it->second.first, it->second.second);
                                k->r_depth = before;
                            }
                        };
                        s->on_m = [k, plan, wp](const Ev& ev) {
                            if (auto it = plan->find(k->mlog.size()); ev.k == K::next && it != plan->end() && !wp->probes.empty() && !wp->probes[0]->m.empty() && wp->probes[0]->m[0]->m_active())
                                emit_model(*wp->probes[0], 0, it->second.first);
                        };
                    }
                    pbt::note("subscribe(form %d%s)\n", how, s->dispose_at_r > 0 ? (", disposes itself in notification " + std::to_string(s->dispose_at_r)).c_str() : "");
                    subscribe_both(w, p, s, how);
                    if (s->escaped)
                    {
                        // the program was told by exception; what it got so far must still be right
                        escaped = true;
                        s->d.dispose();
                        s->msub->close();
                    }
                    else
                        compare(w, sinks, "subscribe");
                };
                add();
                const int n = g.range(0, o.max_steps);
                int       pending_subs = subs - 1;
                for (int step = 0; step < n && !escaped; ++step)
                {
                    if (pending_subs && g.chance(1, 4))
                    {
                        --pending_subs;
                        add();
                        continue;
                    }
                    if (o.dispose && g.chance(static_cast<uint32_t>(o.dispose_ext), 24))
                    {
                        auto& s = *sinks[g.below(static_cast<uint32_t>(sinks.size()))];
                        if (s.d.is_disposed() || s.msub->closed)
                            continue;
                        pbt::note("dispose\n");
                        disposed = true;
                        s.d.dispose();
                        s.msub->close();
                        compare(w, sinks, "dispose");
                        continue;
                    }
                    std::vector<std::pair<Probe*, size_t>> act, rel;
                    for (auto& pr : w.probes)
                        for (size_t i = 0; i < pr->m.size() && i < pr->r.size(); ++i)
                            if (pr->m[i]->m_active())
                                act.emplace_back(pr.get(), i);
                            else if (!pr->m[i]->m_done && !pr->r[i]->r_done)
                                rel.emplace_back(pr.get(), i);
                    std::vector<Hot*> hot;
                    for (auto& h : w.hots)
                        if (!h->done)
                            hot.push_back(h.get());
                    if (!hot.empty() && (act.empty() || g.chance(3, 4)))
                    {
                        auto&      h = *hot[g.below(static_cast<uint32_t>(hot.size()))];
                        const auto k = g.below(14);
                        Ev         ev{K::next, g.range(0, o.cfg.value_range - 1)};
                        if (k >= 12)
                            ev = k == 12 ? Ev{K::done, 0} : Ev{K::error, g.range(2, 9)};
                        pbt::note("%s %s\n", h.d.c_str(), show({ev}).c_str());
                        ++events;
                        emit_hot(h, ev, cat());
                        compare(w, sinks, "event");
                        continue;
                    }
                    const bool poke = o.poke && !rel.empty() && (act.empty() ? g.coin() : g.chance(static_cast<uint32_t>(o.poke), 10));
                    if (act.empty() && !poke)
                        break;
                    auto& from   = poke ? rel : act;
                    auto [pr, i] = from[g.below(static_cast<uint32_t>(from.size()))];
                    Ev           ev{K::next, 0};
                    const auto   k = g.below(static_cast<uint32_t>(10 + o.end_bias + (o.end_bias + 2) / 3));
                    if (k < 10)
                        ev.v = g.range(0, o.cfg.value_range - 1);
                    else if (k < 10u + static_cast<unsigned>(o.end_bias))
                        ev = {K::done, 0};
                    else
                        ev = {K::error, g.range(2, 9)};
                    pbt::note("probe%d[%zu] %s%s\n", pr->id, i, show({ev}).c_str(), poke ? " (already released)" : "");
                    if (poke)
                        pbt::label("emission into released subscription");
                    else
                        ++events;
                    emit(*pr, i, ev, cat());
                    compare(w, sinks, "event");
                }
                for (auto& s : sinks)
                    notes += static_cast<int>(s->rlog.size());
                // everything a finished subscription used has been let go (the model does so by construction; make it explicit)
                bool all_over = true;
                for (auto& s : sinks)
                    all_over &= terminated(s->mlog) || s->msub->closed;
                if (escaped)
                    pbt::label("subscribe threw");
                else if (all_over)
                {
                    for (auto& pr : w.probes)
                        for (auto& i : pr->r)
                            if (i->r_active())
                                pbt::fail("a source subscription is still held after every subscriber finished: %s", sub_state(*pr).c_str());
                    for (auto& f : w.finals)
                        if (!f->agrees())
                            pbt::fail("finaliser count differs");
                    pbt::label("finished");
                }
                else
                    pbt::label("abandoned");
                if (disposed)
                    pbt::label("disposed");
            }
            bool fired = false, any_inside = false;
            for (auto& k : sinks)
                any_inside |= k->dispose_at_r > 0 && static_cast<int>(k->rlog.size()) >= k->dispose_at_r && k->rlog.back().k == K::next;
            for (auto& f : w.faults)
                fired |= f->at && f->r >= f->at;
            if (fired)
                pbt::label("callback threw");
            pbt::nontrivial((o.require_dispose || o.require_fault || events + notes >= 3) && (o.require_dispose ? events + notes : notes) >= 1 && (!o.require_fault || fired) && (!o.require_dispose || disposed || any_inside));
            for (auto& s : sinks)
            {
                if (s->d.is_disposed())
                    continue;
                s->d.dispose();
            }
            clear_world(w);
            for (auto& s : sinks)
            {
                s->msub->close();
                s->msub->td.clear();
            }
        }
        if (pbt::g_sh->failed)
            return;
        if (Live::values != v0)
            pbt::fail("%ld values still alive after everything was dropped", Live::values - v0);
        if (Live::tokens != t0)
            pbt::fail("%ld callables or observers still alive after everything was dropped", Live::tokens - t0);
    }

    void run_grammar(pbt::Gen& g, const GrammarOpt& o)
    {
        const long v0 = Live::values, t0 = Live::tokens;
        Live::strict  = !o.reentrant;
        {
            World w;
            w.lenient  = true;
            w.budget_r = 300;
            auto  s      = std::make_shared<Sink>();
            int   events = 0, illegal = 0, nested = 0;
            {
                Env e{g, w, o.cfg};
                P   p = make_probe(e);
                p     = apply_ops(e, std::move(p), g.range(1, o.cfg.max_ops));
                if (o.misbehave)
                    for (auto& pr : w.probes)
                    {
                        pr->rude         = g.coin();
                        pr->set_upstream = !g.chance(1, 4);
                        for (auto& a : pr->script)
                            if (g.chance(1, 3))
                            {
                                a.rude_after = g.range(1, 4);
                            }
                    }
                pbt::note("%s\n", p.d.c_str());
                auto drive = [&](Ev ev, bool legal) {
                    std::vector<std::shared_ptr<Inst>> act;
                    std::vector<std::string>           names;
                    for (auto& pr : w.probes)
                        for (size_t i = 0; i < pr->r.size(); ++i)
                            if (!legal || pr->r[i]->r_active())
                            {
                                act.push_back(pr->r[i]);
                                names.push_back("probe" + std::to_string(pr->id) + "[" + std::to_string(i) + "]");
                            }
                    if (act.empty())
                        return;
                    const size_t i  = g.below(static_cast<uint32_t>(act.size()));
                    auto         in = act[i];
                    if (!in->r)
                        return;
                    pbt::note("%s%s %s\n", nested ? "  (nested) " : "", names[i].c_str(), show({ev}).c_str());
                    if (in->r_done)
                        ++illegal;
                    ++events;
                    auto ob = *in->r;
                    if (ev.k == K::next)
                        ob.on_next(V{ev.v});
                    else if (ev.k == K::done)
                    {
                        in->r_done = true;
                        ob.on_completed();
                    }
                    else
                    {
                        in->r_done = true;
                        ob.on_error(make_error(ev.v));
                    }
                };
                auto gen_ev = [&] {
                    const auto k = g.below(16);
                    return k < 9 ? Ev{K::next, e.val()} : k < 14 ? Ev{K::done, 0}
                                                                 : Ev{K::error, g.range(2, 9)};
                };
                int left = o.reentrant ? 6 : 0;
                if (o.reentrant)
                    s->on_r = [&](const Ev& ev) {
                        if (ev.k != K::next || left <= 0 || !g.coin())
                            return;
                        --left;
                        ++nested;
                        const auto before = s->r_depth;
                        s->r_depth        = 0; // nested deliveries are expected here
                        drive(gen_ev(), !o.misbehave || g.coin());
                        s->r_depth = before;
                        --nested;
                        ++illegal;
                    };
                const bool disp = g.chance(1, 8);
                if (disp)
                    s->dispose_at_r = g.range(1, 5);
                const int how = g.range(0, 2);
                pbt::note("subscribe(form %d)\n", how);
                subscribe_real(p, s, how);
                auto check = [&] {
                    if (s->r_after_terminal)
                        pbt::fail("the subscriber was notified after its terminal notification: %s", show(s->rlog).c_str());
                    if (s->overlapped && !o.reentrant)
                        pbt::fail("the subscriber was notified re-entrantly: %s", show(s->rlog).c_str());
                };
                check();
                const int n = g.range(0, o.max_steps);
                for (int i = 0; i < n; ++i)
                {
                    drive(gen_ev(), !o.misbehave || g.coin());
                    check();
                }
                s->on_r = {};
            }
            if (s->r_terminal)
                pbt::label("terminated");
            if (illegal)
                pbt::label(o.reentrant ? "re-entrant driving" : "events after the source's own terminal");
            pbt::nontrivial(illegal > 0 && events >= 2 && !s->rlog.empty());
            s->d.dispose();
            clear_world(w);
        }
        if (pbt::g_sh->failed)
            return;
        if (Live::values != v0)
            pbt::fail("%ld values still alive after everything was dropped", Live::values - v0);
        if (Live::tokens != t0)
            pbt::fail("%ld callables or observers still alive after everything was dropped", Live::tokens - t0);
    }
}
