// C17: immediate, current_thread, run_loop and test_scheduler against a reference scheduler.
// A case is a program: a tree of tasks (each with a list of runs: actions, then a result) plus root actions. It is
// interpreted twice, by the reference schedulers and by the real ones under a virtual clock; the execution logs must agree.
#include "pbt.hpp"
#include "value.hpp"
#include "vclock.hpp"
#include <rpp/schedulers.hpp>
#include <rpp/schedulers/test_scheduler.hpp>
#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace
{
    using namespace h;
    using std::chrono::nanoseconds;
    namespace rs = rpp::schedulers;

    enum Sch { kImm, kCt, kRl0, kRl1, kTs };
    const char* sch_name[] = {"immediate", "current_thread", "run_loop#0", "run_loop#1", "test_scheduler"};
    enum Res { kFromNow, kFromThis, kTo };
    const char* res_name[] = {"delay_from_now", "delay_from_this_timepoint", "delay_to"};

    struct Task;
    struct Action
    {
        enum K { Work, Sched, Dispose, Guard, Drain, One, Dispatch, Advance } k;
        int64_t             v = 0; // work / delay / time point / advance
        int                 how = 0; // Sched: 0 plain, 1 delay, 2 time point
        int                 arg = 0; // handler, run loop
        Task*               task = nullptr;
        std::vector<Action> sub{};
    };
    struct Run
    {
        std::vector<Action> acts;
        int                 result = 0; // 0 none, 1 reschedule, 2 throw
        int64_t             v = 0;
    };
    struct Task
    {
        int              id, handler, res;
        Sch              sch;
        bool             with_arg, rvalue_handler;
        std::vector<Run> runs;
    };
    struct Prog
    {
        std::vector<std::unique_ptr<Task>>   tasks;
        std::vector<Action>                  root;
        std::vector<std::pair<int64_t, int>> hooks; // at time, dispose handler
        int                                  handlers = 1;
    };

    struct Ev
    {
        char    kind; // S start, E end, ! error, G/g guard, D/d dispatching
        int     id, run;
        int64_t t, ts;
        bool    operator==(const Ev&) const = default;
    };
    std::string show(const Ev& e)
    {
        char b[100];
        const char* w = e.kind == 'S' ? "starts" : e.kind == 'E' ? "ends" : e.kind == '!' ? "handler got error" : e.kind == 'd' ? "dispatching done, loop" : e.kind == 'a' ? "advanced" : e.kind == 'g' ? "guard left" : e.kind == 'r' ? "root step done" : "?";
        snprintf(b, sizeof b, "%s%d%s run %d at t=%ld (test clock %ld)", e.kind == 'S' || e.kind == 'E' ? "task " : "", e.id, "", e.run, static_cast<long>(e.t), static_cast<long>(e.ts));
        return std::string{w} + " " + b;
    }

    struct Exec
    {
        std::vector<Ev>  log;
        std::vector<int> decisions;
        std::vector<char> disposed;
        const Prog*      prog{};
        int              in_loop[2]{};
        virtual ~Exec() = default;
        virtual int64_t now() = 0;
        virtual int64_t ts_now() = 0;
        virtual void    work(int64_t d) = 0;
        virtual void    schedule(Task* t, int how, int64_t v) = 0;
        virtual void    guard(const std::vector<Action>& a) = 0;
        virtual void    drain(int i) = 0;
        virtual void    one(int i) = 0;
        virtual void    dispatch(int i) = 0;
        virtual void    advance(int64_t d) = 0;
        virtual int     decide(const Action& a) = 0; // 0 skip, 1 do, 2 drain instead
        void            ev(char k, int id, int run) { log.push_back({k, id, run, now(), ts_now()}); }
        void            hooks()
        {
            for (auto& [t, hd] : prog->hooks)
                if (t <= now())
                    disposed[hd] = 1;
        }
        void act(const std::vector<Action>& as)
        {
            for (auto& a : as)
                switch (a.k)
                {
                    case Action::Work: work(a.v); break;
                    case Action::Sched: schedule(a.task, a.how, a.v); break;
                    case Action::Dispose: disposed[a.arg] = 1; break;
                    case Action::Guard: guard(a.sub); ev('g', 0, 0); break;
                    case Action::Advance: advance(a.v); ev('a', 0, 0); break;
                    default:
                    {
                        int d = decide(a);
                        if (!d)
                            break;
                        ++in_loop[a.arg];
                        if (d == 2 || a.k == Action::Drain)
                            drain(a.arg);
                        else if (a.k == Action::One)
                            one(a.arg);
                        else
                            dispatch(a.arg);
                        --in_loop[a.arg];
                        ev('d', a.arg, 0);
                    }
                }
        }
    };

    // ------------------------------------------------------------------------------------------- reference schedulers
    struct Model : Exec
    {
        struct Q
        {
            Task*   t;
            int64_t due;
            long    seq;
            int     run;
        };
        int64_t        t_ = 0, ts_ = 0;
        long           seq = 0;
        bool           owned = false;
        std::vector<Q> ct, rl[2], tq;
        std::vector<int64_t> schedulings, executions;
        int            runs = 0, resched = 0, ties = 0, waits = 0, nested = 0, dropped = 0, throws = 0, depth = 0;

        int64_t now() override { return t_; }
        int64_t ts_now() override { return ts_; }
        void    set(int64_t t)
        {
            if (t > t_)
            {
                t_ = t;
                hooks();
            }
        }
        void work(int64_t d) override { set(t_ + d); }
        bool dead(const Task* t) { return disposed[t->handler]; }
        void push(std::vector<Q>& q, Q x)
        {
            x.seq = seq++;
            for (auto& y : q)
                ties += y.due == x.due;
            q.push_back(x);
        }
        static size_t min_of(const std::vector<Q>& q)
        {
            size_t b = 0;
            for (size_t i = 1; i < q.size(); ++i)
                if (q[i].due < q[b].due || (q[i].due == q[b].due && q[i].seq < q[b].seq))
                    b = i;
            return b;
        }
        static Q pop(std::vector<Q>& q)
        {
            auto i = min_of(q);
            Q    x = q[i];
            q.erase(q.begin() + static_cast<long>(i));
            return x;
        }
        std::optional<int64_t> run(Q& x)
        {
            Task* t = x.t;
            int   n = x.run++;
            ++runs;
            ev('S', t->id, n);
            ++depth;
            nested += depth > 1;
            auto& r = t->runs[static_cast<size_t>(n)];
            act(r.acts);
            --depth;
            ev('E', t->id, n);
            if (r.result == 2)
            {
                ++throws;
                if (!dead(t))
                    ev('!', t->handler, t->id);
                return {};
            }
            if (r.result == 0)
                return {};
            ++resched;
            const int64_t n_ = t->sch == kTs ? ts_ : t_;
            return t->res == kFromNow ? n_ + r.v : t->res == kFromThis ? x.due + r.v : r.v;
        }
        void schedule(Task* t, int how, int64_t v) override
        {
            const int64_t n   = t->sch == kTs ? ts_ : t_;
            const int64_t due = how == 0 ? n : how == 1 ? n + v : v;
            if (dead(t))
                ++dropped;
            switch (t->sch)
            {
                case kImm:
                {
                    Q x{t, due, 0, 0};
                    while (!dead(t))
                    {
                        waits += x.due > t_;
                        set(x.due);
                        if (dead(t))
                            break;
                        auto r = run(x);
                        if (!r)
                            break;
                        x.due = *r;
                    }
                    break;
                }
                case kCt:
                    if (dead(t))
                        return;
                    push(ct, {t, due, 0, 0});
                    if (!owned)
                    {
                        owned = true;
                        drain_ct();
                    }
                    break;
                case kRl0:
                case kRl1: push(rl[t->sch - kRl0], {t, due, 0, 0}); break;
                case kTs:
                    schedulings.push_back(due);
                    push(tq, {t, due, 0, 0});
                    drain_ts();
                    break;
            }
        }
        void drain_ct()
        {
            while (!ct.empty())
            {
                Q x = pop(ct);
                if (dead(x.t))
                {
                    ++dropped;
                    continue;
                }
                waits += x.due > t_;
                set(x.due);
                if (dead(x.t))
                {
                    ++dropped;
                    continue;
                }
                if (auto r = run(x); r && !dead(x.t))
                {
                    x.due = *r;
                    push(ct, x);
                }
            }
            owned = false;
        }
        void drain_ts()
        {
            while (!tq.empty() && tq[min_of(tq)].due <= ts_)
            {
                Q x = pop(tq);
                if (dead(x.t))
                {
                    ++dropped;
                    continue;
                }
                executions.push_back(ts_);
                if (auto r = run(x); r && !dead(x.t))
                {
                    x.due = std::max(ts_, *r);
                    schedulings.push_back(x.due);
                    push(tq, x);
                }
            }
        }
        void guard(const std::vector<Action>& a) override
        {
            const bool mine = !owned;
            owned           = true;
            act(a);
            if (mine)
                drain_ct();
        }
        bool step(int i)
        {
            auto& q = rl[i];
            while (!q.empty())
            {
                if (dead(q[min_of(q)].t))
                {
                    pop(q);
                    ++dropped;
                    continue;
                }
                if (q[min_of(q)].due > t_)
                    return false;
                Q x = pop(q);
                if (auto r = run(x))
                {
                    x.due = *r;
                    push(q, x);
                }
                return true;
            }
            return false;
        }
        void drain(int i) override
        {
            while (step(i)) {}
        }
        void one(int i) override { step(i); }
        void dispatch(int i) override
        {
            auto& q = rl[i];
            waits += q[min_of(q)].due > t_;
            set(q[min_of(q)].due);
            step(i);
        }
        void advance(int64_t d) override
        {
            ts_ += d;
            drain_ts();
        }
        int decide(const Action& a) override
        {
            int   d = 1;
            auto& q = rl[a.arg];
            if (in_loop[a.arg])
                d = 0; // a loop is not dispatched from its own tasks
            else if (a.k != Action::Drain)
            {
                for (auto& x : q)
                    if (dead(x.t))
                        d = 2; // a dispatch may be spent on throwing a disposed task away
                if (d == 1 && a.k == Action::Dispatch)
                {
                    if (q.empty())
                        d = 2;
                    else
                        for (auto& [t, hd] : prog->hooks)
                            if (t > t_ && t <= q[min_of(q)].due)
                                d = 2;
                }
            }
            decisions.push_back(d);
            if (d == 1 && a.k == Action::Dispatch)
                decisions.push_back(static_cast<int>(q[min_of(q)].due));
            return d;
        }
    };

    // ------------------------------------------------------------------------------------------- the real schedulers
    struct Real;
    Real* g_real = nullptr;

    struct Boom : std::runtime_error
    {
        int id;
        explicit Boom(int i)
            : std::runtime_error{"boom"}
            , id{i}
        {
        }
    };

    struct Handler
    {
        int  id;
        Tok  tok{};
        bool is_disposed() const;
        void on_error(const std::exception_ptr& e) const;
    };

    struct Real : Exec
    {
        int64_t base = vclk::now_ns;
        int64_t ts_base = 0;
        std::optional<rs::run_loop>       loops[2];
        std::optional<rs::test_scheduler> ts;
        size_t                            di = 0;
        std::vector<int>                  dec;

        using RlW = decltype(std::declval<rs::run_loop>().create_worker());
        using TsW = decltype(std::declval<rs::test_scheduler>().create_worker());
        std::optional<RlW> rlw[2];
        std::optional<TsW> tsw;

        Real()
        {
            for (int i = 0; i < 2; ++i)
            {
                loops[i].emplace();
                rlw[i].emplace(loops[i]->create_worker());
            }
            ts.emplace();
            tsw.emplace(ts->create_worker());
            ts_base = rs::test_scheduler::s_current_time.time_since_epoch().count();
        }
        int64_t now() override { return vclk::now_ns - base; }
        int64_t ts_now() override { return rs::test_scheduler::s_current_time.time_since_epoch().count() - ts_base; }
        void    work(int64_t d) override
        {
            vclk::now_ns += d;
            hooks();
        }
        rs::time_point tp(Sch s, int64_t v) { return rs::time_point{nanoseconds{(s == kTs ? ts_base : base) + v}}; }

        template<typename D>
        std::optional<D> body(Task* t, const Handler& hd, int n)
        {
            if (hd.id != t->handler)
                pbt::fail("task %d was given handler %d instead of %d", t->id, hd.id, t->handler);
            if (static_cast<size_t>(n) >= t->runs.size())
                pbt::fail("task %d runs again although it did not ask for it (run %d)", t->id, n);
            ev('S', t->id, n);
            auto& r = t->runs[static_cast<size_t>(n)];
            act(r.acts);
            ev('E', t->id, n);
            if (log.size() > 5000)
                pbt::fail("the log does not end");
            if (r.result == 2)
                throw Boom{t->id};
            if (r.result == 0)
                return std::nullopt;
            if constexpr (std::is_same_v<D, rs::delay_to>)
                return D{tp(t->sch, r.v)};
            else
                return D{nanoseconds{r.v}};
        }
        template<typename D, typename W>
        void sched_d(const W& w, Task* t, int how, int64_t v)
        {
            Handler lv{t->handler};
            auto    go = [&](auto&& fn, auto&&... args) {
                auto put = [&](auto&& hd) {
                    if (how == 0)
                        w.schedule(std::forward<decltype(fn)>(fn), std::forward<decltype(hd)>(hd), std::forward<decltype(args)>(args)...);
                    else if (how == 1)
                        w.schedule(nanoseconds{v}, std::forward<decltype(fn)>(fn), std::forward<decltype(hd)>(hd), std::forward<decltype(args)>(args)...);
                    else
                        w.schedule(tp(t->sch, v), std::forward<decltype(fn)>(fn), std::forward<decltype(hd)>(hd), std::forward<decltype(args)>(args)...);
                };
                if (t->rvalue_handler)
                    put(Handler{t->handler});
                else
                    put(lv);
            };
            Tok tok;
            if (t->with_arg)
                go([this, t, tok](const Handler& hd, int& n, std::string& s) -> std::optional<D> {
                    if (s != std::string(static_cast<size_t>(n) + 20, 'x'))
                        pbt::fail("task %d lost the argument it was scheduled with", t->id);
                    s.push_back('x');
                    return body<D>(t, hd, n++);
                },
                   0,
                   std::string(20, 'x'));
            else
                go([this, t, tok, n = std::make_shared<int>(0)](const Handler& hd) -> std::optional<D> { return body<D>(t, hd, (*n)++); });
        }
        template<typename W>
        void sched_w(const W& w, Task* t, int how, int64_t v)
        {
            switch (t->res)
            {
                case kFromNow: return sched_d<rs::delay_from_now>(w, t, how, v);
                case kFromThis: return sched_d<rs::delay_from_this_timepoint>(w, t, how, v);
                default: return sched_d<rs::delay_to>(w, t, how, v);
            }
        }
        void schedule(Task* t, int how, int64_t v) override
        {
            switch (t->sch)
            {
                case kImm: return sched_w(rs::immediate::create_worker(), t, how, v);
                case kCt: return sched_w(rs::current_thread::create_worker(), t, how, v);
                case kTs: return sched_w(*tsw, t, how, v);
                default: return sched_w(*rlw[t->sch - kRl0], t, how, v);
            }
        }
        void guard(const std::vector<Action>& a) override
        {
            const auto g = rs::current_thread::own_queue_and_drain_finally_if_not_owned();
            act(a);
        }
        void drain(int i) override
        {
            for (int n = 0; loops[i]->is_any_ready_schedulable(); ++n)
            {
                if (n > 2000)
                    pbt::fail("the run loop always claims that a task is ready");
                loops[i]->dispatch_if_ready();
            }
        }
        void one(int i) override { loops[i]->dispatch_if_ready(); }
        void dispatch(int i) override
        {
            const int64_t due = di < dec.size() ? dec[di++] : 0;
            if (loops[i]->is_empty())
                return;
            vclk::spin_target = base + due;
            loops[i]->dispatch();
            vclk::spin_target = 0;
        }
        void advance(int64_t d) override { ts->time_advance(nanoseconds{d}); }
        int  decide(const Action&) override { return di < dec.size() ? dec[di++] : 0; }
    };

    bool Handler::is_disposed() const { return g_real->disposed[static_cast<size_t>(id)]; }
    void Handler::on_error(const std::exception_ptr& e) const
    {
        if (is_disposed())
            return;
        try
        {
            std::rethrow_exception(e);
        }
        catch (const Boom& b)
        {
            g_real->ev('!', id, b.id);
        }
        catch (...)
        {
            pbt::fail("handler %d got an error no task threw", id);
        }
    }

    // ------------------------------------------------------------------------------------------- generation
    struct Opt
    {
        std::vector<uint32_t> sch; // weights
        int                   max_tasks = 10;
        bool                  disposal = true, throwing = true;
    };

    struct Maker
    {
        pbt::Gen&  g;
        const Opt& o;
        Prog&      p;
        int        left;

        int64_t delay()
        {
            switch (g.below(8))
            {
                case 0: case 1: case 2: return 0;
                case 7: return g.chance(1, 3) ? -10 * g.range(1, 3) : 10 * g.range(4, 12);
                default: return 10 * g.range(1, 3);
            }
        }
        Task* task(int depth)
        {
            p.tasks.push_back(std::make_unique<Task>());
            Task* t = p.tasks.back().get();
            --left;
            t->id      = static_cast<int>(p.tasks.size()) - 1;
            t->sch     = static_cast<Sch>(g.weighted(o.sch));
            t->handler = static_cast<int>(g.below(static_cast<uint32_t>(p.handlers)));
            t->res     = static_cast<int>(g.below(3));
            t->with_arg = g.coin();
            t->rvalue_handler = g.coin();
            const int runs = 1 + (g.chance(1, 2) ? g.range(1, 3) : 0);
            for (int i = 0; i < runs; ++i)
            {
                Run r;
                const int n = g.chance(3, 5) ? g.range(1, 3) : 0;
                for (int k = 0; k < n; ++k)
                    action(r.acts, depth + 1);
                r.result = i + 1 < runs ? 1 : o.throwing && g.chance(1, 6) ? 2 : 0;
                r.v      = t->res == kTo ? 10 * g.range(0, 20) : delay();
                t->runs.push_back(std::move(r));
            }
            return t;
        }
        void action(std::vector<Action>& out, int depth)
        {
            Action a{};
            const bool rl = o.sch[kRl0] || o.sch[kRl1], ts = o.sch[kTs];
            switch (g.weighted({3, depth < 5 && left > 0 ? 6u : 0u, o.disposal ? 1u : 0u, o.sch[kCt] ? 1u : 0u, rl ? 2u : 0u, ts ? 2u : 0u}))
            {
                case 0: a.k = Action::Work; a.v = 10 * g.range(0, 3); break;
                case 1:
                    a.k   = Action::Sched;
                    a.how = static_cast<int>(g.below(3));
                    a.v   = a.how == 2 ? 10 * g.range(0, 15) : delay();
                    a.task = task(depth);
                    break;
                case 2: a.k = Action::Dispose; a.arg = static_cast<int>(g.below(static_cast<uint32_t>(p.handlers))); break;
                case 3:
                {
                    a.k = Action::Guard;
                    const int n = g.range(1, 4);
                    for (int i = 0; i < n; ++i)
                        action(a.sub, depth + 1);
                    break;
                }
                case 4:
                    a.k   = static_cast<Action::K>(Action::Drain + g.below(3));
                    a.arg = o.sch[kRl1] ? static_cast<int>(g.below(2)) : 0;
                    break;
                case 5: a.k = Action::Advance; a.v = 10 * g.range(0, 4); break;
            }
            out.push_back(std::move(a));
        }
    };

    void describe(const std::vector<Action>& as, std::string& s)
    {
        for (auto& a : as)
        {
            char b[100];
            switch (a.k)
            {
                case Action::Work: snprintf(b, sizeof b, "work %ld; ", static_cast<long>(a.v)); s += b; break;
                case Action::Sched:
                    snprintf(b, sizeof b, "schedule T%d on %s%s", a.task->id, sch_name[a.task->sch], a.how ? "" : "; ");
                    s += b;
                    if (a.how)
                    {
                        snprintf(b, sizeof b, a.how == 1 ? " in %ld; " : " at %ld; ", static_cast<long>(a.v));
                        s += b;
                    }
                    break;
                case Action::Dispose: snprintf(b, sizeof b, "dispose handler %d; ", a.arg); s += b; break;
                case Action::Guard: s += "own current_thread { "; describe(a.sub, s); s += "} "; break;
                case Action::Drain: snprintf(b, sizeof b, "dispatch everything ready in run_loop#%d; ", a.arg); s += b; break;
                case Action::One: snprintf(b, sizeof b, "run_loop#%d.dispatch_if_ready; ", a.arg); s += b; break;
                case Action::Dispatch: snprintf(b, sizeof b, "run_loop#%d.dispatch; ", a.arg); s += b; break;
                case Action::Advance: snprintf(b, sizeof b, "test clock += %ld; ", static_cast<long>(a.v)); s += b; break;
            }
        }
    }

    void on_advance()
    {
        if (g_real)
            g_real->hooks();
    }

    void run_case(pbt::Gen& g, const Opt& o)
    {
        vclk::now_ns += 1000000; // cases never see time going back
        Prog  p;
        p.handlers = g.range(1, 4);
        Maker mk{g, o, p, g.size(o.max_tasks / 2, o.max_tasks)};
        const int steps = g.range(1, 5);
        for (int i = 0; i < steps; ++i)
        {
            if (mk.left <= 0)
                mk.left = 1;
            mk.action(p.root, 0);
        }
        if (o.disposal)
            for (int n = g.chance(1, 3) ? g.range(1, 2) : 0; n > 0; --n)
                p.hooks.push_back({10 * g.range(1, 15) - static_cast<int>(g.below(2)) * 5, static_cast<int>(g.below(static_cast<uint32_t>(p.handlers)))});
        const bool finish = !g.chance(1, 4); // otherwise pending tasks are dropped with their schedulers

        std::string d;
        describe(p.root, d);
        pbt::note("root: %s\n", d.c_str());
        for (auto& t : p.tasks)
        {
            pbt::note("T%d: handler %d, %s, %s%s\n", t->id, t->handler, res_name[t->res], t->with_arg ? "extra arguments" : "no arguments", t->rvalue_handler ? ", handler moved in" : "");
            for (auto& r : t->runs)
            {
                d.clear();
                describe(r.acts, d);
                if (r.result == 1)
                    pbt::note("    run: %s-> %ld\n", d.c_str(), static_cast<long>(r.v));
                else
                    pbt::note("    run: %s-> %s\n", d.c_str(), r.result ? "throws" : "done");
            }
        }
        for (auto& [t, hd] : p.hooks)
            pbt::note("at t=%ld handler %d is disposed\n", static_cast<long>(t), hd);

        Model m;
        int   rounds = 0;
        auto fin = [&](Exec& e) {
            if (!finish)
                return;
            for (int i = 0; &e == &m ? !m.rl[0].empty() || !m.rl[1].empty() || !m.tq.empty() : i < rounds; ++i)
            {
                rounds = std::max(rounds, i + 1);
                e.work(200);
                e.drain(0);
                e.drain(1);
                e.advance(200);
            }
            e.ev('r', 0, 0);
        };

        m.prog = &p;
        m.disposed.assign(static_cast<size_t>(p.handlers), 0);
        m.act(p.root);
        fin(m);

        const long tok0 = Live::tokens;
        {
            Real r;
            r.prog = &p;
            r.disposed.assign(static_cast<size_t>(p.handlers), 0);
            r.dec  = m.decisions;
            g_real = &r;
            struct Reset
            {
                ~Reset() { g_real = nullptr; }
            } reset;
            r.act(p.root);
            fin(r);
            size_t n = 0;
            while (n < r.log.size() && n < m.log.size() && r.log[n] == m.log[n])
                ++n;
            if (n < r.log.size() || n < m.log.size())
            {
                for (size_t i = n > 6 ? n - 6 : 0; i < n; ++i)
                    pbt::note("  both: %s\n", show(m.log[i]).c_str());
                pbt::fail("execution differs: expected %s, got %s", n < m.log.size() ? show(m.log[n]).c_str() : "nothing more", n < r.log.size() ? show(r.log[n]).c_str() : "nothing more");
            }
            auto cmp = [&](const char* what, const std::vector<rs::time_point>& got, const std::vector<int64_t>& want) {
                bool same = got.size() == want.size();
                for (size_t i = 0; same && i < got.size(); ++i)
                    same = got[i].time_since_epoch().count() - r.ts_base == want[i];
                if (!same)
                    pbt::fail("test_scheduler reports other %s than took place", what);
            };
            if (finish)
            {
                for (int i = 0; i < 2; ++i)
                    if (!r.loops[i]->is_empty())
                        pbt::fail("run_loop#%d is not empty after everything was dispatched", i);
                cmp("schedulings", r.ts->get_schedulings(), m.schedulings);
                cmp("executions", r.ts->get_executions(), m.executions);
            }
            for (auto& l : r.loops)
                l.reset();
            r.ts.reset();
            if (!p.tasks.empty() && !finish)
            {
                // workers outlive their schedulers: scheduling is refused, nothing runs
                const auto n0 = r.log.size();
                for (auto& t : p.tasks)
                    if (t->sch != kImm && t->sch != kCt)
                        r.schedule(t.get(), 1, 0);
                if (r.log.size() != n0)
                    pbt::fail("a task runs on a scheduler that is gone");
            }
        }
        if (Live::tokens != tok0)
            pbt::fail("%ld tasks or handlers still alive after the schedulers are gone", Live::tokens - tok0);
        pbt::nontrivial(m.runs >= 2 && m.ties + m.waits + m.nested + m.resched > 0);
        if (m.resched) pbt::label("rescheduled");
        if (m.ties) pbt::label("equal due times");
        if (m.waits) pbt::label("waited");
        if (m.nested) pbt::label("task during task");
        if (m.dropped) pbt::label("disposed handler");
        if (m.throws) pbt::label("throwing task");
        if (m.runs >= 8) pbt::label(">=8 runs");
    }
}

int main(int argc, char** argv)
{
    vclk::on_advance = &on_advance;
    pbt::Spec s;
    s.property    = "C17";
    s.rule        = "at least two task runs, and among the tasks at least one tie of due times, wait, reschedule or task scheduled from a task; distinct by the full sequence of generator choices";
    s.assumptions = {"one thread", "virtual monotonic clock", "a run loop is not dispatched from its own tasks"};
    auto fam = [&](const char* name, Opt o, uint64_t q, uint64_t t) {
        s.families.push_back({name, [o](pbt::Gen& g) { run_case(g, o); }, q, t});
    };
    fam("current_thread", {{0, 1, 0, 0, 0}}, 150000, 4000000);
    fam("current_thread-order", {{0, 1, 0, 0, 0}, 24, false, false}, 40000, 1200000);
    fam("immediate", {{1, 0, 0, 0, 0}}, 50000, 1200000);
    fam("run_loop", {{0, 0, 2, 1, 0}, 16}, 100000, 3000000);
    fam("test", {{0, 0, 0, 0, 1}, 16}, 100000, 3000000);
    fam("mixed", {{2, 3, 2, 1, 2}, 20}, 80000, 2500000);
    return pbt::run_main(argc, argv, s);
}
