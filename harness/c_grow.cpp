// C29: a subscription that goes on does not pile up what its finished parts used.
// The same round of events is played over and over into one live pipeline; the number of allocations the library keeps
// must not grow with the number of rounds, unless the reference model has to keep more as well.
#include "world.hpp"
#include <rpp/operators/publish.hpp>
#include <rpp/operators/ref_count.hpp>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <new>

namespace
{
    long         g_out[4]; // outstanding allocations by side
    struct Head
    {
        Head*    prev;
        Head*    next;
        long     side;
        uint64_t order;
    };
    Head     g_list{&g_list, &g_list, 0, 0};
    uint64_t g_order = 0;
    void* take(size_t n)
    {
        auto* h = static_cast<Head*>(std::malloc(n + sizeof(Head)));
        if (!h)
            std::abort();
        h->side = h::g_side;
        ++g_out[h::g_side];
        h->order = ++g_order;
        h->prev  = g_list.prev;
        h->next  = &g_list;
        g_list.prev->next = h;
        g_list.prev       = h;
        return h + 1;
    }
    void give(void* p)
    {
        if (!p)
            return;
        auto* h = static_cast<Head*>(p) - 1;
        --g_out[h->side];
        h->prev->next = h->next;
        h->next->prev = h->prev;
        std::free(h);
    }
}
extern "C" void __asan_describe_address(void*);
// GROW_DEBUG=FILE: where the youngest allocations of the library come from
static void describe(int n)
{
    if (const int fd = open(std::getenv("GROW_DEBUG"), O_WRONLY | O_CREAT | O_TRUNC, 0644); fd >= 0)
        dup2(fd, 2);
    for (auto* h = g_list.prev; h != &g_list && n > 0; h = h->prev)
        if (h->side == 1)
        {
            --n;
            __asan_describe_address(h + 1);
        }
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void  operator delete(void* p) noexcept { give(p); }
void  operator delete[](void* p) noexcept { give(p); }
void  operator delete(void* p, size_t) noexcept { give(p); }
void  operator delete[](void* p, size_t) noexcept { give(p); }

using namespace h;
namespace
{
    struct Step
    {
        enum What
        {
            event,
            subject,
            visit
        } what;
        uint32_t sel;
        Ev       ev;
        int      how;
    };
    struct Round
    {
        std::vector<Step> steps;
        bool              drain;
    };
    constexpr int kRounds = 12; // between two measurements

    bool over(const SinkP& s, bool real) { return real ? s->r_terminal || s->d.is_disposed() : s->msub->closed; }

    template<bool Real>
    void play(World& w, const P& p, const Round& r, const std::vector<size_t>& roots, int how)
    {
        auto active = [&](bool inner) {
            std::vector<std::pair<Probe*, size_t>> a;
            for (size_t k = 0; k < w.probes.size(); ++k)
            {
                auto& v = Real ? w.probes[k]->r : w.probes[k]->m;
                for (size_t i = inner ? roots[k] : 0; i < v.size(); ++i)
                    if (v[i] && (Real ? v[i]->r_active() : v[i]->m_active()))
                        a.emplace_back(w.probes[k].get(), i);
            }
            return a;
        };
        auto fire = [&](std::pair<Probe*, size_t> t, Ev ev) {
            Side s{Real ? 1 : 2};
            if constexpr (Real)
                emit_real(*t.first, t.second, ev, 1);
            else
                emit_model(*t.first, t.second, ev);
        };
        auto tidy = [&] {
            // sources drop the observers they have finished with
            for (auto& pr : w.probes)
                for (auto& i : Real ? pr->r : pr->m)
                    if (i && !(Real ? i->r_active() : i->m_active()))
                        i.reset();
            if constexpr (Real)
                std::erase_if(w.kept, [](auto& o) { return o.is_disposed(); });
            else
                std::erase_if(m::g_kept, [](auto& o) { return !static_cast<m::Obs*>(o.get())->live(); });
        };
        for (auto& st : r.steps)
        {
            switch (st.what)
            {
            case Step::event:
                if (auto a = active(false); !a.empty())
                {
                    if (st.ev.k == K::next)
                        fire(a[st.sel % a.size()], st.ev);
                    else if (auto in = active(true); !in.empty())
                        fire(in[st.sel % in.size()], st.ev);
                    else if (st.how)
                        fire(a[st.sel % a.size()], st.ev);
                }
                break;
            case Step::subject:
                if (!w.hots.empty())
                {
                    auto& hot = *w.hots[st.sel % w.hots.size()];
                    Side  s{Real ? 1 : 2};
                    if constexpr (Real)
                        hot.obs().on_next(V{st.ev.v});
                    else
                        hot.m->next(st.ev.v);
                }
                break;
            case Step::visit: {
                auto s = std::make_shared<Sink>();
                s->quiet = true;
                Side side{Real ? 1 : 2};
                if constexpr (Real)
                {
                    subscribe_real(p, s, how);
                    s->d.dispose();
                }
                else
                {
                    subscribe_model(p, s);
                    s->msub->close();
                }
                break;
            }
            }
            tidy();
        }
        if (r.drain)
            for (int k = 0; k < 12; ++k)
            {
                auto a = active(true);
                if (a.empty())
                    break;
                fire(a.back(), {K::done, 0});
                tidy();
            }
    }

    void run(pbt::Gen& g, const Cfg& cfg, bool visits)
    {
        World w;
        w.budget_r = w.budget_m = 1000000;
        auto s = std::make_shared<Sink>();
        s->quiet = true;
        {
            Env e{g, w, cfg};
            P   p = apply_ops(e, make_probe(e), g.range(1, cfg.max_ops));
            if (visits && g.chance(1, 3))
            {
                // one connection for all subscribers; to the reference every subscriber is on its own
                p.r = (p.r | rpp::operators::publish() | rpp::operators::ref_count()).as_dynamic();
                p.d += " | publish | ref_count";
            }
            const bool again = p.d.find("re") != std::string::npos; // repeat, retry, on_error_resume_next...: sources may end
            pbt::note("%s\n", p.d.c_str());
            const int how = g.range(0, 2);
            Round     r;
            for (int n = g.range(1, 6); n > 0; --n)
            {
                Step       st{Step::event, g.below(16), {K::next, g.range(0, cfg.value_range - 1)}, 0};
                const auto k = g.below(10);
                if (k >= 7)
                    st.ev = k == 9 && g.chance(1, 3) ? Ev{K::error, g.range(2, 9)} : Ev{K::done, 0};
                st.how = again && g.chance(1, 3);
                if (!w.hots.empty() && g.coin())
                    st = {Step::subject, st.sel, {K::next, st.ev.k == K::next ? st.ev.v : 0}, 0};
                if (visits && g.chance(1, 4))
                    st.what = Step::visit;
                pbt::note("  each round: %s %s (%u)\n", st.what == Step::event ? "source" : st.what == Step::subject ? "subject" : "a subscriber comes and goes", show({st.ev}).c_str(), st.sel);
                r.steps.push_back(st);
            }
            r.drain = !g.chance(1, 4);
            if (r.drain)
                pbt::note("  each round: the sources subscribed during rounds complete\n");
            long lib[5]{}, mod[5]{};
            std::vector<size_t> roots;
            {
                Side side{1};
                subscribe_real(p, s, how);
            }
            for (auto& pr : w.probes)
                roots.push_back(pr->r.size());
            // stops where values multiply without bound
            const auto crowded = [](int side, long start) { return g_out[side] > start + 4000; };
            const long start1  = g_out[1];
            for (int k = 0; k < 5; ++k)
            {
                for (int i = 0; i < kRounds && !over(s, true) && !crowded(1, start1); ++i)
                    play<true>(w, p, r, roots, how);
                lib[k] = g_out[1];
            }
            const bool ended = over(s, true);
            size_t inner = 0;
            for (size_t k = 0; k < w.probes.size(); ++k)
                inner += w.probes[k]->r.size() - roots[k];
            if (!ended)
            {
                Side side{2};
                subscribe_model(p, s);
            }
            roots.clear();
            for (auto& pr : w.probes)
                roots.push_back(pr->m.size());
            const long start2 = g_out[2];
            for (int k = 0; k < 5; ++k)
            {
                for (int i = 0; i < kRounds && !ended && !crowded(2, start2); ++i)
                    play<false>(w, p, r, roots, how);
                mod[k] = g_out[2];
            }
            auto grows = [](const long* v, long start, int least) {
                if (v[4] > start + 2000)
                    return true;
                for (int k = 1; k < 4; ++k)
                    if (v[k + 1] - v[k] < least)
                        return false;
                return true;
            };
            if (ended)
                pbt::label("ended");
            else if (grows(mod, start2, 1))
                pbt::label("the model grows too");
            else if (grows(lib, start1, kRounds / 4))
            {
                if (std::getenv("GROW_DEBUG"))
                    describe(12);
                pbt::fail("the library keeps more and more allocations: %ld, %ld, %ld, %ld, %ld after %d rounds each; the model: %ld, %ld, %ld, %ld, %ld", lib[0], lib[1], lib[2], lib[3], lib[4], kRounds, mod[0], mod[1], mod[2], mod[3], mod[4]);
            }
            pbt::nontrivial(!ended && !grows(mod, start2, 1) && (inner >= 3 * kRounds || visits));
        }
        s->d.dispose();
        clear_world(w);
        s->msub->close();
        s->msub->td.clear();
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property    = "C29";
    s.rule        = "the subscription was still alive after all rounds, at least three rounds out of five made a new inner subscription (or subscribers came and went) and the reference model needed no more memory from round to round; distinct by the full sequence of generator choices";
    s.assumptions = {"sources drop the observers of subscriptions that ended or were released", "one thread"};
    auto fam = [&](const char* name, Cfg c, bool visits, uint64_t q, uint64_t t) { s.families.push_back({name, [c, visits](pbt::Gen& g) { run(g, c, visits); }, q, t}); };
    Cfg c;
    c.flat = 3; c.part = 2; c.resub = 3; c.comb = 1; c.elem = 1;
    c.max_ops = 1; c.max_depth = 2; c.scripts = true; c.no_early_end = true;
    c.no_zip = true; // inputs of different speed: the pending values pile up rightly
    fam("single", c, false, 20000, 400000);
    c.max_ops = 3;
    fam("chain", c, false, 15000, 400000);
    c.comb = 3; c.misc = 1; c.subjects = 5; c.subject_kinds = 3;
    fam("subscribers come and go", c, true, 15000, 400000);
    return pbt::run_main(argc, argv, s);
}
