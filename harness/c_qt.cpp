// C27: the Qt bridge under a virtual clock: tasks of the main thread scheduler, and observables made of signals.
#include "c_qt.hpp"
#include "pbt.hpp"
#include "value.hpp"
#include "vclock.hpp"
#include <QCoreApplication>
#include <QThread>
#include <QTimer>
#include <algorithm>
#include <memory>
#include <optional>
#include <rpp/disposables.hpp>
#include <rpp/observables/dynamic_observable.hpp>
#include <rpp/observers/dynamic_observer.hpp>
#include <rpp/operators.hpp>
#include <rpp/schedulers.hpp>
#include <rpp/sources/interval.hpp>
#include <rppqt/rppqt.hpp>
#include <thread>
#include <vector>
using namespace h;
namespace rs = rpp::schedulers;
using std::chrono::nanoseconds;
constexpr int64_t kMs = 1000000;

namespace
{
    int   g_argc = 1;
    char  g_name[] = "check";
    char* g_argv[] = {g_name, nullptr};
    int64_t vnow() { return vclk::now_ns - 1000000000; }

    // ---------------- tasks ----------------
    struct Action
    {
        enum K { Schedule, Dispose } k;
        int task;
    };
    struct Run
    {
        int64_t             takes = 0, next = 0;
        std::vector<Action> actions;
    };
    struct Task
    {
        int              mode = 0; // 0 from now, 1 from this timepoint, 2 to
        int64_t          delay = 0;
        int              absolute = 0; // 1: for a time point
        bool             thread = false, throws = false, twin = false;
        std::vector<Run> runs;
    };
    struct Inst
    {
        int64_t queued = -1, due_lo = 0, due_hi = 0, b = -1, e = -1;
        int     order = -1, q_order = -1;
        bool    posted = false, hop = false; // hop: a delayed one from another thread, started by the event loop
    };
    struct Rec
    {
        std::vector<Inst> inst; // those begun, and the next one
        int               n = 0, errors = 0;
        bool              scheduled = false;
        int               disposed_at = -1; // order
        int               lost = 0;
    };
    struct World
    {
        std::vector<Task>                              tasks;
        std::vector<Rec>                               rec;
        std::vector<rpp::composite_disposable_wrapper> flag;
        int                                            order = 0, depth = 0;
        std::thread::id                                main_thread = std::this_thread::get_id();
    };
    World* W;

    struct Handler
    {
        int                               task;
        rpp::composite_disposable_wrapper flag;
        Tok                               tok{};
        bool is_disposed() const { return flag.is_disposed(); }
        void on_error(const std::exception_ptr& e) const
        {
            try
            {
                std::rethrow_exception(e);
            }
            catch (const Err& x)
            {
                if (x.code != 40 + task)
                    pbt::fail_soft("the handler of task %d got error %d", task, x.code);
                ++W->rec[task].errors;
            }
            catch (const rppqt::utils::no_active_qapplication&)
            {
                ++W->rec[task].lost;
            }
        }
    };
    void do_schedule(int id);
    void do_dispose(int t)
    {
        if (W->rec[t].disposed_at < 0)
            W->rec[t].disposed_at = W->order++;
        W->flag[t].dispose();
    }
    struct Body
    {
        int     task;
        int     run = 0;
        Tok     tok{};
        int64_t operator()(const Handler& h, const V& arg, int64_t& to)
        {
            const Task& t = W->tasks[task];
            Rec&        r = W->rec[task];
            const int   k = r.n++;
            if (k >= static_cast<int>(t.runs.size()))
                pbt::fail("task %d runs more often than requested", task);
            Inst& i = r.inst[k];
            i.b     = vnow();
            i.order = W->order++;
            if (std::this_thread::get_id() != W->main_thread)
                pbt::fail("task %d runs on another thread", task);
            if (r.disposed_at >= 0)
                pbt::fail("task %d (run %d) runs after its handler was disposed", task, k);
            if (i.queued < 0)
                pbt::fail("task %d runs before it was scheduled", task);
            if (i.b < i.due_lo)
                pbt::fail("task %d (run %d) runs at %ld us, it is due at %ld us", task, k, static_cast<long>(i.b / 1000), static_cast<long>(i.due_lo / 1000));
            if (arg.get() != task * 10 + 3 || arg.moved() || h.task != task || run++ != k)
                pbt::fail("task %d (run %d) gets damaged arguments", task, k);
            if (++W->depth > 1)
                pbt::fail("task %d runs inside another task", task);
            const Run& me = t.runs[k];
            for (auto& a : me.actions)
                if (a.k == Action::Schedule)
                    do_schedule(a.task);
                else
                    do_dispose(a.task);
            vclk::now_ns += me.takes;
            --W->depth;
            Inst& j = r.inst[k]; // the vector may have grown
            j.e     = vnow();
            if (k + 1 == static_cast<int>(t.runs.size()))
            {
                if (t.throws)
                    throw Err{40 + task};
                return -1;
            }
            Inst n;
            n.queued  = j.e;
            n.q_order = W->order++;
            switch (t.mode)
            {
                case 1: n.due_lo = j.due_lo + me.next; n.due_hi = j.due_hi + me.next; break;
                default: n.due_lo = n.due_hi = to = j.e + me.next; break;
            }
            n.posted = n.due_hi <= j.e;
            r.inst.push_back(n);
            return me.next;
        }
    };
    struct FromNow : Body
    {
        rs::optional_delay_from_now operator()(const Handler& h, const V& v)
        {
            int64_t    to = 0;
            const auto d  = Body::operator()(h, v, to);
            return d < 0 ? rs::optional_delay_from_now{} : rs::optional_delay_from_now{nanoseconds{d}};
        }
    };
    struct FromThis : Body
    {
        rs::optional_delay_from_this_timepoint operator()(const Handler& h, const V& v)
        {
            int64_t    to = 0;
            const auto d  = Body::operator()(h, v, to);
            return d < 0 ? rs::optional_delay_from_this_timepoint{} : rs::optional_delay_from_this_timepoint{nanoseconds{d}};
        }
    };
    struct To : Body
    {
        rs::optional_delay_to operator()(const Handler& h, const V& v)
        {
            int64_t    to = 0;
            const auto d  = Body::operator()(h, v, to);
            return d < 0 ? rs::optional_delay_to{} : rs::optional_delay_to{rs::time_point{nanoseconds{to + 1000000000}}};
        }
    };
    void do_schedule(int id)
    {
        const Task& t = W->tasks[id];
        Rec&        r = W->rec[id];
        r.scheduled   = true;
        Inst i;
        i.queued  = vnow();
        i.q_order = W->order++;
        i.due_lo = i.due_hi = vnow() + t.delay;
        i.posted            = t.delay <= 0;
        i.hop               = t.thread && t.delay > 0;
        r.inst.push_back(i);
        auto go = [&](auto body) {
            auto    w = rppqt::schedulers::main_thread_scheduler::create_worker();
            Handler h{id, W->flag[id]};
            const V v{id * 10 + 3};
            if (t.absolute)
                w.schedule(rs::time_point{nanoseconds{vclk::now_ns + t.delay}}, std::move(body), std::move(h), v);
            else if (t.delay)
                w.schedule(nanoseconds{t.delay}, std::move(body), h, V{id * 10 + 3});
            else
                w.schedule(std::move(body), h, v);
        };
        auto all = [&] {
            switch (t.mode)
            {
                case 0: go(FromNow{{id}}); break;
                case 1: go(FromThis{{id}}); break;
                default: go(To{{id}}); break;
            }
        };
        if (t.thread)
            std::thread{all}.join();
        else
            all();
    }

    void run_tasks(pbt::Gen& g)
    {
        const long v0 = Live::values, t0 = Live::tokens;
        vclk::now_ns  = 1000000000 + (g.chance(1, 3) ? g.range(1, 999) * 1000 : 0);
        {
            World w;
            W                 = &w;
            const bool no_app = g.chance(1, 24);
            int        budget = 8;
            auto       ms     = [&](int hi) -> int64_t { return g.chance(1, 6) ? g.range(1, 9) * 100000 + g.range(0, 3) * kMs : g.range(1, hi) * kMs; };
            auto       delay  = [&]() -> int64_t { return g.chance(2, 5) ? 0 : g.chance(1, 12) ? 1500 * kMs : ms(9); };
            auto       make   = [&](auto&& self, int depth) -> int {
                const int id = static_cast<int>(w.tasks.size());
                w.tasks.push_back({});
                Task t;
                t.mode     = static_cast<int>(g.below(3));
                t.delay    = g.chance(1, 16) ? -ms(3) : delay();
                t.absolute = static_cast<int>(g.below(2));
                t.thread   = g.chance(1, 5);
                t.throws   = g.chance(1, 8);
                for (int n = g.chance(1, 2) ? 1 : g.range(1, 4); n > 0; --n)
                {
                    Run r;
                    r.next  = delay();
                    r.takes = g.chance(1, 4) ? ms(6) : 0;
                    for (int a = g.chance(1, 2) ? 0 : g.range(0, 2); a > 0; --a)
                        if (g.chance(1, 3))
                            r.actions.push_back({Action::Dispose, static_cast<int>(g.below(static_cast<uint32_t>(id + 1)))});
                        else if (depth < 2 && budget > 0)
                        {
                            --budget;
                            r.actions.push_back({Action::Schedule, self(self, depth + 1)});
                        }
                    t.runs.push_back(r);
                }
                w.tasks[id] = t;
                return id;
            };
            std::vector<std::pair<int64_t, Action>> ops;
            for (int n = g.range(1, 5); n > 0; --n)
                ops.push_back({g.coin() ? 0 : g.range(0, 12) * kMs, {Action::Schedule, make(make, 0)}});
            for (int n = g.range(0, 2); n > 0; --n)
                ops.push_back({g.range(0, 14) * kMs, {Action::Dispose, static_cast<int>(g.below(static_cast<uint32_t>(w.tasks.size())))}});
            std::stable_sort(ops.begin(), ops.end(), [](auto& a, auto& b) { return a.first < b.first; });
            w.rec.resize(w.tasks.size());
            for (size_t i = 0; i < w.tasks.size(); ++i)
                w.flag.push_back(rpp::composite_disposable_wrapper::make());
            for (size_t i = 0; i < w.tasks.size(); ++i)
            {
                const Task& t = w.tasks[i];
                pbt::note("task %zu: %s %ldus%s%s,", i, t.absolute ? "at +" : "after", static_cast<long>(t.delay / 1000), t.thread ? ", from another thread" : "", t.throws ? ", throws at the end" : "");
                for (size_t k = 0; k < t.runs.size(); ++k)
                {
                    pbt::note(" run");
                    for (auto& a : t.runs[k].actions)
                        pbt::note(" %s %d", a.k == Action::Schedule ? "schedules" : "disposes", a.task);
                    if (t.runs[k].takes)
                        pbt::note(" takes %ldus", static_cast<long>(t.runs[k].takes / 1000));
                    if (k + 1 < t.runs.size())
                        pbt::note(" then %s %ldus;", t.mode == 0 ? "from now" : t.mode == 1 ? "from this timepoint" : "to now+", static_cast<long>(t.runs[k].next / 1000));
                }
                pbt::note("\n");
            }
            for (auto& [at, a] : ops)
                pbt::note("at %ldms: %s %d\n", static_cast<long>(at / kMs), a.k == Action::Schedule ? "schedule" : "dispose", a.task);
            if (no_app)
            {
                pbt::note("no application\n");
                for (auto& [at, a] : ops)
                    if (a.k == Action::Schedule)
                    {
                        do_schedule(a.task);
                        if (w.rec[a.task].lost != 1 || w.rec[a.task].n)
                            pbt::fail("without an application task %d got %d errors and %d runs", a.task, w.rec[a.task].lost, w.rec[a.task].n);
                    }
                pbt::label("no application");
            }
            else
            {
                QCoreApplication app{g_argc, g_argv};
                const int64_t    start = vnow();
                size_t           next  = 0;
                bool             crowd = false;
                auto             settle = [&] {
                    for (int quiet = 0; quiet < 2;)
                    {
                        const int o = w.order;
                        QCoreApplication::processEvents();
                        quiet = o == w.order ? quiet + 1 : 0;
                        crowd |= w.order > 400;
                        if (w.order > 2000)
                            pbt::fail("endless");
                    }
                };
                int64_t idle_until = 0;
                for (int64_t t = 0; t < 60000; ++t)
                {
                    if (vnow() < start + t * kMs)
                        vclk::now_ns = 1000000000 + start + t * kMs;
                    settle();
                    while (next < ops.size() && vnow() - start >= ops[next].first)
                    {
                        auto& a = ops[next++].second;
                        if (a.k == Action::Schedule)
                            do_schedule(a.task);
                        else
                            do_dispose(a.task);
                    }
                    settle();
                    // jump over long stretches of waiting
                    int64_t soon = next < ops.size() ? start + ops[next].first : INT64_MAX;
                    for (size_t i = 0; i < w.rec.size(); ++i)
                        if (auto& r = w.rec[i]; r.scheduled && r.n < static_cast<int>(r.inst.size()) && r.disposed_at < 0)
                            soon = std::min(soon, r.inst[r.n].due_lo);
                    if (soon == INT64_MAX)
                    {
                        if (++idle_until > 5)
                            break;
                    }
                    else if (soon > vnow() + 20 * kMs)
                        t = (soon - start) / kMs - 3;
                    t = std::max(t, (vnow() - start) / kMs);
                }
                // everything waiting for disposed handlers is let go
                vclk::now_ns += 10000 * kMs;
                settle();
            }
            int                                 ran = 0;
            std::vector<std::pair<int, Inst*>> all;
            for (size_t t = 0; t < w.tasks.size() && !no_app; ++t)
            {
                auto&     r    = w.rec[t];
                const int want = static_cast<int>(w.tasks[t].runs.size());
                if (!r.scheduled)
                    continue;
                if (r.n < want && r.disposed_at < 0)
                    pbt::fail("task %zu ran %d times instead of %d", t, r.n, want);
                const bool over = r.disposed_at >= 0 && r.n == want && r.disposed_at < r.inst[want - 1].order + 1 + 0 ;
                (void)over;
                if (r.errors != (w.tasks[t].throws && r.n == want))
                    pbt::fail("task %zu: its handler got %d errors after %d runs of %d%s", t, r.errors, r.n, want, w.tasks[t].throws ? ", the last throws" : "");
                for (int k = 0; k < r.n; ++k)
                {
                    all.push_back({static_cast<int>(t), &r.inst[k]});
                    ++ran;
                }
            }
            auto timeline = [&] {
                std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.second->order < b.second->order; });
                for (auto& [t, i] : all)
                    pbt::note("  task %d: queued at %ld us, due %ld us, ran %ld..%ld us\n", t, static_cast<long>(i->queued / 1000), static_cast<long>(i->due_lo / 1000), static_cast<long>(i->b / 1000), static_cast<long>(i->e / 1000));
            };
            timeline();
            for (auto& [t, i] : all)
            {
                int64_t at = std::max(i->due_hi, i->queued) + 2 * kMs;
                for (bool again = true; again;)
                {
                    again = false;
                    for (auto& [u, x] : all)
                        if (x != i && x->order < i->order && x->b <= at && x->e + 2 * kMs > at)
                        {
                            at    = x->e + 2 * kMs;
                            again = true;
                        }
                }
                if (i->b > at)
                    pbt::fail("task %d (run due at %ld us, queued at %ld us) ran only at %ld us though the thread was idle", t, static_cast<long>(i->due_hi / 1000), static_cast<long>(i->queued / 1000), static_cast<long>(i->b / 1000));
                if (i->b > i->due_lo + 2 * kMs)
                    pbt::label("late because the thread was busy");
                for (auto& [u, x] : all)
                    if (x != i && i->q_order < x->q_order && i->order > x->order)
                    {
                        if (i->posted && x->posted)
                            pbt::fail("task %d, due at once, ran after task %d, which was scheduled later", t, u);
                        if (!i->posted && !x->posted && !i->hop && i->due_hi + 2 * kMs <= x->due_lo)
                            pbt::fail("task %d ran after task %d, which was due later", t, u);
                    }
            }
            pbt::nontrivial(no_app || ran >= 3);
            for (auto& r : w.rec)
                if (r.disposed_at >= 0 && r.scheduled)
                    pbt::label("a task was disposed");
            for (auto& t : w.tasks)
                if (t.thread)
                    pbt::label("scheduled from another thread");
        }
        if (pbt::g_sh->failed)
            return;
        if (Live::values != v0 || Live::tokens != t0)
            pbt::fail("%ld values and %ld callables or handlers are left", Live::values - v0, Live::tokens - t0);
    }

    // ---------------- signals ----------------
    // What a subscriber sees, in numbers: values >= 0, -1 completion, -2 error
    using Log = std::vector<int>;
    enum Sig { One, Ref, Base, Two, Many, None, kSigs };
    const char* sig_name[] = {"one(V)", "ref(const V&)", "base(const V&)", "two(const V&, int)", "many(int, const V&, V, string)", "none()"};

    template<typename T>
    int code(T&& v)
    {
        using D = std::decay_t<T>;
        if constexpr (std::is_same_v<D, V>)
        {
            const int x = v.get();
            if constexpr (!std::is_const_v<std::remove_reference_t<T>> && !std::is_lvalue_reference_v<T>)
                V stolen{std::move(v)};
            return x;
        }
        else if constexpr (std::is_same_v<D, rpp::utils::none>)
            return 7;
        else if constexpr (std::tuple_size_v<D> == 2)
            return std::get<0>(v).get() * 100 + std::get<1>(v);
        else
            return std::get<0>(v) * 1000000 + std::get<1>(v).get() * 10000 + std::get<2>(v).get() * 100 + static_cast<int>(std::get<3>(v).size());
    }
    int expected(Sig s, int v)
    {
        switch (s)
        {
            case None: return 7;
            case Two: return v * 100 + v % 5;
            case Many: return v * 1000000 + v * 10000 + (v + 1) * 100 + v % 7;
            default: return v;
        }
    }
    struct Sub
    {
        int                               source;
        Log                               got, want;
        rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::empty();
        bool                              open = true; // by the model
        int                               act_at = -1, act = 0, arg = 0; // in the act_at-th value: 0 dispose itself, 1 dispose another, 2 subscribe, 3 emit
        bool                              acted = false;
        Tok                               tok{};
    };
    struct Source
    {
        int                                    obj;
        Sig                                    sig;
        std::function<void(int, Sub*)>         subscribe;
        std::vector<Sub*>                      subs; // by the model, in order
        bool                                   over = false;
    };
    struct SWorld
    {
        std::vector<std::unique_ptr<Obj>>    objs;
        std::vector<Source>                  sources;
        std::vector<std::unique_ptr<Sub>>    subs;
        bool                                 blocked = false;
        int                                  nested = 0;
    };

    template<typename O>
    void do_subscribe(const O& obs, int how, Sub* s, const std::function<void(Sub*, bool)>& hook)
    {
        auto nx = [s, hook, t = Tok{}](auto&& v) { s->got.push_back(code(std::forward<decltype(v)>(v))); hook(s, true); };
        auto er = [s, t = Tok{}](const std::exception_ptr&) { s->got.push_back(-2); };
        auto co = [s, hook, t = Tok{}] { s->got.push_back(-1); hook(s, false); };
        if (how == 0)
            s->d = obs.subscribe_with_disposable(nx, er, co);
        else
        {
            s->d = rpp::composite_disposable_wrapper::make();
            if (how == 1)
                obs.subscribe(s->d, nx, er, co);
            else
                obs.as_dynamic().subscribe(s->d, [nx](auto v) { nx(std::move(v)); }, er, co);
        }
    }

    void run_signals(pbt::Gen& g)
    {
        const long v0 = Live::values, t0 = Live::tokens;
        {
            QCoreApplication app{g_argc, g_argv};
            SWorld           w;
            const int        n_obj = g.range(1, 2);
            for (int i = 0; i < n_obj; ++i)
                w.objs.push_back(std::make_unique<Obj>());
            int events = 0, notes = 0, inner = 0;
            std::function<void(Sub*, bool)> hook;
            // the model's side of an emission, and the real one
            auto fire = [&](Obj& o, Sig sig, int v) {
                const V c{v};
                switch (sig)
                {
                    case One: emit o.one(c); break;
                    case Ref: emit o.ref(c); break;
                    case Base: emit o.base(c); break;
                    case Two: emit o.two(c, v % 5); break;
                    case Many: emit o.many(v, c, V{v + 1}, std::string(static_cast<size_t>(v % 7), 'x')); break;
                    default: emit o.none();
                }
                if (c.get() != v || c.moved())
                    pbt::fail("the emitted object was changed");
            };
            auto dispose = [&](Sub* s) {
                s->d.dispose();
                s->open = false;
            };
            hook = [&](Sub* s, bool value) {
                ++notes;
                if (!s->open && value)
                    pbt::fail("a disposed subscriber was notified");
                if (value && s->act_at > 0 && static_cast<int>(s->got.size()) >= s->act_at && !s->acted && w.nested == 0)
                {
                    s->acted = true;
                    ++inner;
                    if (s->act == 0)
                        dispose(s);
                    else
                        dispose(w.subs[static_cast<size_t>(s->arg) % w.subs.size()].get());
                }
            };
            auto add_source = [&](int obj, Sig sig) {
                Source src;
                src.obj = obj;
                src.sig = sig;
                Obj& o  = *w.objs[obj];
                auto wrap = [&](auto obs) { src.subscribe = [obs, &hook](int how, Sub* s) { do_subscribe(obs, how, s, hook); }; };
                switch (sig)
                {
                    case One: wrap(rppqt::source::from_signal(o, &Obj::one)); break;
                    case Ref: wrap(rppqt::source::from_signal(o, &Obj::ref)); break;
                    case Base: wrap(rppqt::source::from_signal(o, &Obj::base)); break;
                    case Two: wrap(rppqt::source::from_signal(o, &Obj::two)); break;
                    case Many: wrap(rppqt::source::from_signal(o, &Obj::many)); break;
                    default: wrap(rppqt::source::from_signal(o, &Obj::none));
                }
                pbt::note("source %zu: object %d, %s\n", w.sources.size(), obj, sig_name[sig]);
                w.sources.push_back(std::move(src));
            };
            add_source(0, static_cast<Sig>(g.below(kSigs)));
            auto check = [&](const char* what) {
                for (size_t i = 0; i < w.subs.size(); ++i)
                    if (w.subs[i]->got != w.subs[i]->want)
                    {
                        std::string a, b;
                        for (int x : w.subs[i]->got)
                            a += " " + std::to_string(x);
                        for (int x : w.subs[i]->want)
                            b += " " + std::to_string(x);
                        pbt::fail("%s: subscriber %zu saw%s, expected%s (-1 is the completion)", what, i, a.c_str(), b.c_str());
                    }
            };
            for (int step = g.range(4, 22); step > 0; --step)
            {
                const auto k = g.below(16);
                std::vector<int> alive;
                for (int i = 0; i < n_obj; ++i)
                    if (w.objs[i])
                        alive.push_back(i);
                if (k == 15 && !alive.empty() && step < 6)
                {
                    const int i = alive[g.below(static_cast<uint32_t>(alive.size()))];
                    pbt::note("object %d is destroyed\n", i);
                    for (auto& s : w.sources)
                        if (s.obj == i && !s.over)
                        {
                            s.over = true;
                            for (Sub* u : s.subs)
                                if (u->open)
                                    u->want.push_back(-1);
                        }
                    for (auto& s : w.sources)
                        if (s.obj == i)
                            for (Sub* u : s.subs)
                                (void)u;
                    w.objs[i].reset();
                    for (auto& s : w.sources)
                        if (s.obj == i)
                            for (Sub* u : s.subs)
                                u->open = false;
                    pbt::label("object destroyed");
                }
                else if (k >= 13 && !alive.empty() && w.sources.size() < 4)
                    add_source(alive[g.below(static_cast<uint32_t>(alive.size()))], static_cast<Sig>(g.below(kSigs)));
                else if (k >= 9 && w.subs.size() < 6)
                {
                    const int i = static_cast<int>(g.below(static_cast<uint32_t>(w.sources.size())));
                    w.subs.push_back(std::make_unique<Sub>());
                    Sub* s    = w.subs.back().get();
                    s->source = i;
                    if (g.chance(1, 4))
                    {
                        s->act_at = g.range(1, 3);
                        s->act    = g.range(0, 1);
                        s->arg    = g.range(0, 5);
                    }
                    const int how = g.range(0, 2);
                    pbt::note("subscriber %zu to source %d, form %d", w.subs.size() - 1, i, how);
                    if (s->act_at > 0)
                        pbt::note(", in value %d disposes %s", s->act_at, s->act == 0 ? "itself" : ("subscriber " + std::to_string(s->arg) + " modulo").c_str());
                    pbt::note("\n");
                    if (w.sources[i].over)
                    {
                        s->want.push_back(-1);
                        w.sources[i].subscribe(how, s);
                        s->open = false;
                    }
                    else
                    {
                        w.sources[i].subs.push_back(s);
                        w.sources[i].subscribe(how, s);
                    }
                }
                else if (k == 8 && !w.subs.empty())
                {
                    const auto i = g.below(static_cast<uint32_t>(w.subs.size()));
                    pbt::note("dispose subscriber %u\n", i);
                    dispose(w.subs[i].get());
                }
                else if (k == 7 && !alive.empty())
                {
                    const int i = alive[g.below(static_cast<uint32_t>(alive.size()))];
                    const bool b = w.objs[i]->signalsBlocked();
                    pbt::note("object %d: signals %s\n", i, b ? "unblocked" : "blocked");
                    w.objs[i]->blockSignals(!b);
                }
                else if (!alive.empty())
                {
                    const int i   = alive[g.below(static_cast<uint32_t>(alive.size()))];
                    std::vector<Sig> used;
                    for (auto& s : w.sources)
                        if (s.obj == i)
                            used.push_back(s.sig);
                    const Sig sig = used.empty() ? One : used[g.below(static_cast<uint32_t>(used.size()))];
                    const int v   = g.range(0, 60);
                    const bool th = g.chance(1, 6);
                    pbt::note("object %d emits %s %d%s\n", i, sig_name[sig], v, th ? " from another thread" : "");
                    ++events;
                    // deliveries in order of sources, then of subscription; one disposed by an earlier delivery gets nothing
                    std::vector<Sub*> order;
                    if (!w.objs[i]->signalsBlocked())
                        for (auto& s : w.sources)
                            if (s.obj == i && s.sig == sig)
                                for (Sub* u : s.subs)
                                    order.push_back(u);
                    std::vector<size_t> before;
                    for (Sub* u : order)
                        before.push_back(u->got.size());
                    std::vector<bool> was;
                    for (Sub* u : order)
                        was.push_back(u->open);
                    if (th)
                        std::thread{[&] { fire(*w.objs[i], sig, v); }}.join();
                    else
                        fire(*w.objs[i], sig, v);
                    // replay the disposals of the model in the same order
                    std::vector<bool> open = was;
                    for (size_t x = 0; x < order.size(); ++x)
                    {
                        if (!open[x])
                            continue;
                        Sub* u = order[x];
                        u->want.push_back(expected(sig, v));
                        if (u->acted && u->act_at > 0 && static_cast<int>(u->want.size()) >= u->act_at && u->act >= 0)
                        {
                            Sub* victim = u->act == 0 ? u : w.subs[static_cast<size_t>(u->arg) % w.subs.size()].get();
                            if (u->act < 2 && static_cast<int>(u->want.size()) == u->act_at)
                                for (size_t y = 0; y < order.size(); ++y)
                                    if (order[y] == victim)
                                        open[y] = false;
                        }
                    }
                }
                check("step");
            }
            for (auto& s : w.subs)
                s->d.dispose();
            w.objs.clear();
            w.sources.clear();
            w.subs.clear();
            pbt::nontrivial(events >= 1 && notes >= 2);
            if (inner)
                pbt::label("disposal inside a notification");
        }
        if (pbt::g_sh->failed)
            return;
        if (Live::values != v0 || Live::tokens != t0)
            pbt::fail("%ld values and %ld callables are left", Live::values - v0, Live::tokens - t0);
    }
}

int main(int argc, char** argv)
{
    setenv("QT_NO_GLIB", "1", 1);
    pbt::Spec s;
    s.property    = "C27";
    s.rule        = "tasks: at least three runs of tasks (or scheduling without an application); signals: at least one emission and two notifications; distinct by the full sequence of generator choices";
    s.assumptions = {"virtual clock, stepped by a millisecond; the event loop is run to quiescence at every step", "Qt's own unix event dispatcher", "deadlines are held to two milliseconds"};
    s.families.push_back({"tasks", run_tasks, 40000, 2000000});
    s.families.push_back({"signals", run_signals, 60000, 2000000});
    return pbt::run_main(argc, argv, s);
}
