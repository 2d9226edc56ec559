// C18: new_thread, thread_pool, computational and run_loop driven from several threads under simulated schedules.
// C26 (built with WITH_ASIO): the asio strand scheduler, its context polled by one or more threads.
#include "simrt.hpp"
#ifdef WITH_ASIO
#include <asio/executor_work_guard.hpp>
#include <asio/io_context.hpp>
#include <rppasio/schedulers/strand.hpp>
#endif
#include <algorithm>
#include <fcntl.h>
#include <climits>
#include <memory>
#include <optional>
#include <rpp/disposables.hpp>
#include <rpp/schedulers.hpp>
#include <thread>
#include <variant>
#include <vector>

namespace
{
    namespace rs = rpp::schedulers;
    using std::chrono::nanoseconds;

    struct Action
    {
        enum K { Schedule, Current, DisposeTask, Point } k = Point;
        int task = 0;
    };
    struct Run
    {
        int                 sleep = 0;
        std::vector<Action> actions;
        int                 next = 0; // delay, when another run follows
    };
    struct Task
    {
        int              worker = 0, mode = 0, delay = 0;
        bool             absolute = false, throws = false;
        std::vector<Run> runs;
    };
    struct Op
    {
        enum K { Schedule, DisposeTask, Sleep, DropWorker, NewWorker } k = Schedule;
        int a = 0;
    };
    struct Plan
    {
        int                          kind = 0, pool = 1, workers = 1; // 0 new thread, 1 pool, 2 run loop, 3 computational, 4 strand
        std::vector<Task>            tasks;
        std::vector<std::vector<Op>> threads;
        bool                         jumps = false, sleeps = false;
    };

    // what happened, hidden from the race checker
    struct Inst
    {
        int     queue  = -1;
        long    q_b    = -1, q_e = LONG_MAX; // steps between which it was put into the queue
        int64_t due_lo = 0, due_hi = 0;
        long    b = -1, e = LONG_MAX;
        int64_t tb = 0, te = 0, t_queued = 0;
        int     thread = -1;
        bool    posted = false; // strand: for at once, not through a timer
    };
    struct Rec
    {
        int64_t             disposed_t = LONG_MAX;
        bool                scheduled = false;
        int                 errors    = 0;
        long                disposed_b = -1, disposed_e = LONG_MAX;
        Inst                inst[8];
        int                 n = 0; // runs begun
        int                 q = 0; // instances queued
    };
    constexpr int kMaxTasks = 32;
    Rec           R[kMaxTasks];

    using NT = decltype(rs::new_thread::create_worker());
    using TP = decltype(std::declval<rs::thread_pool>().create_worker());
    using RL = decltype(std::declval<rs::run_loop>().create_worker());
#ifdef WITH_ASIO
    using AS        = decltype(std::declval<rppasio::schedulers::strand>().create_worker());
    using AnyWorker = std::variant<std::monostate, NT, TP, RL, AS>;
#else
    using AnyWorker = std::variant<std::monostate, NT, TP, RL>;
#endif
    constexpr int kPoll = 5; // virtual time between two looks of an idle poller

    struct World
    {
        const Plan*                                     p;
        std::vector<AnyWorker>                          workers; // slot i is dropped or replaced by one thread only
        std::vector<rpp::composite_disposable_wrapper>  flag;
        std::optional<rs::thread_pool>                  pool;
        std::optional<rs::run_loop>                     rl;
#ifdef WITH_ASIO
        std::optional<asio::io_context>                 io;
#endif
        int                                             queue_of[8]; // which queue a worker uses: unknown for pools created in the run
    };
    World* W;

    struct Handler
    {
        int                               task;
        rpp::composite_disposable_wrapper flag;
        std::shared_ptr<int>              payload = std::make_shared<int>(5);

        bool is_disposed() const { return flag.is_disposed(); }
        void on_error(const std::exception_ptr& e) const
        {
            if (!e || *payload != 5)
                pbt::fail("a damaged error");
            sim::Quiet q;
            ++R[task].errors;
        }
    };

    int64_t vnow() { return rs::clock_type::now().time_since_epoch().count(); }

    void do_schedule(int t, const AnyWorker& w, bool current);
    void do_dispose(int t)
    {
        {
            sim::Quiet q;
            if (R[t].disposed_b < 0)
                R[t].disposed_b = sim::steps();
        }
        W->flag[t].dispose();
        sim::Quiet q;
        if (R[t].disposed_e == LONG_MAX)
        {
            R[t].disposed_e = sim::steps();
            R[t].disposed_t = sim::now();
        }
    }

    struct Boom
    {
    };
    // one run of a task: returns the delay until the next one, or -1
    struct Body
    {
        int       task;
        AnyWorker worker; // workers stay alive while a task that uses them is queued
        int       run = 0;

        int64_t   operator()(const Handler& h, int64_t& due_to)
        {
            const Task& t = W->p->tasks[task];
            int         k;
            {
                sim::Quiet q;
                Rec&       r = R[task];
                k            = r.n++;
                if (k >= static_cast<int>(t.runs.size()))
                    pbt::fail("task %d runs more often than requested", task);
                Inst& i = r.inst[k];
                i.b     = sim::steps();
                i.tb    = sim::now();
                i.thread = sim::self();
                if (i.q_b < 0)
                    pbt::fail("task %d runs although it was not scheduled", task);
                if (i.tb < i.due_lo)
                    pbt::fail("task %d (run %d) runs at %ld, it is due at %ld", task, k, static_cast<long>(i.tb - 1000000000), static_cast<long>(i.due_lo - 1000000000));
            }
            if (*h.payload != 5 || h.task != task)
                pbt::fail("damaged arguments");
            if (run++ != k)
                pbt::fail("task %d lost its state", task);
            sim::point();
            const Run& me = t.runs[k];
            for (const auto& a : me.actions)
                switch (a.k)
                {
                    case Action::Schedule: do_schedule(a.task, worker, false); break;
                    case Action::Current: do_schedule(a.task, worker, true); break;
                    case Action::DisposeTask: do_dispose(a.task); break;
                    default: sim::point();
                }
            if (me.sleep)
                sim::sleep(me.sleep);
            sim::point();
            const bool last = k + 1 == static_cast<int>(t.runs.size());
            const bool thrown = last && t.throws;
            {
                sim::Quiet q;
                Rec&       r = R[task];
                Inst&      i = r.inst[k];
                i.e          = sim::steps();
                i.te         = sim::now();
                if (!last)
                {
                    Inst& n    = r.inst[k + 1];
                    n.q_b      = i.e;
                    n.queue    = i.queue;
                    n.t_queued = i.te;
                    r.q        = k + 2;
                    switch (t.mode)
                    {
                        case 0:
                            n.due_lo = i.te + me.next;
                            n.due_hi = LONG_MAX; // the clock is read after the task returned
                            break;
                        case 1: // relative to the time it was due
                            n.due_lo = i.due_lo + me.next;
                            n.due_hi = i.due_hi == LONG_MAX ? LONG_MAX : i.due_hi + me.next;
                            break;
                        default: n.due_lo = n.due_hi = due_to = i.te + me.next; break;
                    }
                }
            }
            if (thrown)
                throw Boom{};
            return last ? -1 : me.next;
        }
    };
    struct FromNow : Body
    {
        rs::optional_delay_from_now operator()(const Handler& h)
        {
            int64_t to = 0;
            const auto d = Body::operator()(h, to);
            if (d < 0)
                return {};
            return rs::optional_delay_from_now{nanoseconds{d}};
        }
    };
    struct FromThis : Body
    {
        rs::optional_delay_from_this_timepoint operator()(const Handler& h)
        {
            int64_t to = 0;
            const auto d = Body::operator()(h, to);
            if (d < 0)
                return {};
            return rs::optional_delay_from_this_timepoint{nanoseconds{d}};
        }
    };
    struct To : Body
    {
        rs::optional_delay_to operator()(const Handler& h)
        {
            int64_t to = 0;
            const auto d = Body::operator()(h, to);
            if (d < 0)
                return {};
            return rs::optional_delay_to{rs::time_point{nanoseconds{to}}};
        }
    };

    int queue_of(const AnyWorker& w, int worker)
    {
        (void)w;
        return W->queue_of[worker];
    }

    void do_schedule(int id, const AnyWorker& w, bool current)
    {
        const Task& t = W->p->tasks[id];
        {
            sim::Quiet q;
            Rec&       r = R[id];
            r.scheduled  = true;
            r.q          = 1;
            Inst& i      = r.inst[0];
            i.q_b        = sim::steps();
            i.due_lo     = sim::now() + t.delay;
            i.due_hi     = LONG_MAX;
            i.queue      = W->queue_of[t.worker];
        }
        Handler h{id, W->flag[id]};
        auto    go = [&](const auto& wk, auto body) {
            if (t.absolute)
            {
                const int64_t at = vnow() + t.delay;
                wk.schedule(rs::time_point{nanoseconds{at}}, std::move(body), std::move(h));
            }
            else if (t.delay)
                wk.schedule(nanoseconds{t.delay}, std::move(body), std::move(h));
            else
                wk.schedule(std::move(body), std::move(h));
        };
        auto with = [&](const auto& wk) {
            switch (t.mode)
            {
                case 0: go(wk, FromNow{Body{id, w}}); break;
                case 1: go(wk, FromThis{Body{id, w}}); break;
                default: go(wk, To{Body{id, w}}); break;
            }
        };
        if (current)
            with(rs::current_thread::create_worker());
        else
            std::visit([&](const auto& wk) {
                if constexpr (!std::is_same_v<std::decay_t<decltype(wk)>, std::monostate>)
                    with(wk);
            }, w);
        sim::Quiet q;
        Inst& i    = R[id].inst[0];
        i.posted   = !current && !t.absolute && !t.delay;
        i.q_e      = sim::steps();
        i.t_queued = sim::now();
        i.due_hi   = sim::now() + t.delay;
        if (t.mode == 1 && t.runs.size() > 1 && R[id].n == 0)
            ;
    }

    struct Opt
    {
        int  kind   = 0;
        bool timing = false; // no time passes while anything can run, nothing sleeps inside tasks: tasks must be on time
    };

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        p.kind    = o.kind;
        p.pool    = g.range(1, 2);
        p.workers = o.kind == 2 ? 1 : g.range(1, 3);
        if (o.kind == 0)
            p.workers = g.range(1, 2);
        p.jumps = !o.timing;
        if (o.kind == 4)
            p.pool = o.timing ? 1 : g.range(1, 3);
        auto delay = [&] { return g.chance(1, 2) ? 0 : g.chance(1, 8) ? 1000 : 10 * g.range(1, 4); };
        const int        roots = g.range(2, 6);
        int              budget = 10;
        // tasks made inside tasks come later in the list
        auto make = [&](auto&& self, int depth, int worker) -> int {
            const int id = static_cast<int>(p.tasks.size());
            p.tasks.push_back({});
            Task t;
            t.worker   = worker; // tasks made by a task use the worker that runs it
            t.mode     = static_cast<int>(g.below(3));
            t.delay    = delay();
            t.absolute = g.coin();
            t.throws   = g.chance(1, 8);
            const int n = g.chance(1, 2) ? 1 : g.range(1, 4);
            for (int i = 0; i < n; ++i)
            {
                Run r;
                r.next  = delay();
                r.sleep = (!o.timing || o.kind == 4) && g.chance(1, 5) ? 10 * g.range(1, 3) : 0;
                const int a = g.chance(1, 2) ? 0 : g.range(0, 2);
                for (int k = 0; k < a; ++k)
                {
                    Action x;
                    switch (g.below(4))
                    {
                        case 0: x.k = Action::Point; break;
                        case 1:
                            x.k    = Action::DisposeTask;
                            x.task = static_cast<int>(g.below(static_cast<uint32_t>(id + 1)));
                            break;
                        default:
                            if (depth < 2 && budget > 0)
                            {
                                --budget;
                                // through the current thread scheduler it shares the queue of the thread it runs on
                                x.k    = o.kind != 2 && g.coin() ? Action::Current : Action::Schedule;
                                p.tasks[id] = t;
                                x.task = self(self, depth + 1, worker);
                            }
                    }
                    r.actions.push_back(x);
                }
                t.runs.push_back(r);
            }
            p.tasks[id] = t;
            return id;
        };
        std::vector<int> ids;
        for (int i = 0; i < roots; ++i)
            ids.push_back(make(make, 0, static_cast<int>(g.below(static_cast<uint32_t>(p.workers)))));
        const int nt = g.range(1, 3);
        p.threads.resize(nt);
        for (int id : ids)
            p.threads[g.below(static_cast<uint32_t>(nt))].push_back({Op::Schedule, id});
        for (auto& t : p.threads)
        {
            const int extra = g.range(0, 2);
            for (int i = 0; i < extra; ++i)
            {
                Op x;
                switch (g.below(3))
                {
                    case 0: x = {Op::DisposeTask, static_cast<int>(g.below(static_cast<uint32_t>(p.tasks.size())))}; break;
                    case 1: x = {Op::Sleep, 10 * g.range(1, 4)}; break;
                    default: x = {Op::NewWorker, 0}; break;
                }
                t.insert(t.begin() + g.below(static_cast<uint32_t>(t.size() + 1)), x);
            }
        }
        // a worker is dropped by a thread that is the only one to use it directly
        const char* kinds[] = {"new_thread", "thread_pool", "run_loop", "computational", "asio strand"};
        pbt::note("%s, %d workers%s\n", kinds[p.kind], p.workers, p.kind == 1 || p.kind == 4 ? p.pool == 1 ? ", 1 thread" : p.pool == 2 ? ", 2 threads" : ", 3 threads" : "");
        for (size_t i = 0; i < p.tasks.size(); ++i)
        {
            const Task& t = p.tasks[i];
            pbt::note("task %zu: worker %d, %s %d%s,", i, t.worker, t.absolute ? "at +" : "after", t.delay, t.throws ? ", throws at the end" : "");
            for (size_t k = 0; k < t.runs.size(); ++k)
            {
                pbt::note(" run");
                for (auto& a : t.runs[k].actions)
                    pbt::note(" %s %d", a.k == Action::Schedule ? "schedules" : a.k == Action::Current ? "schedules on current_thread" : a.k == Action::DisposeTask ? "disposes" : "-", a.task);
                if (t.runs[k].sleep)
                    pbt::note(" sleeps %d", t.runs[k].sleep);
                if (k + 1 < t.runs.size())
                    pbt::note(" then %s %d;", t.mode == 0 ? "from now" : t.mode == 1 ? "from this timepoint" : "to now+", t.runs[k].next);
            }
            pbt::note("\n");
        }
        for (auto& t : p.threads)
        {
            pbt::note("thread:");
            for (auto& x : t)
                pbt::note(" %s %d;", x.k == Op::Schedule ? "schedule" : x.k == Op::DisposeTask ? "dispose" : x.k == Op::Sleep ? "sleep" : "create a worker", x.a);
            pbt::note("\n");
        }

        auto sc  = sim::draw(g);
        sc.jumps = p.jumps;
        sim::begin(g, sc);
        const long news = sim::live_news();
        {
            World w;
            w.p = &p;
            W   = &w;
            if (p.kind == 1)
                w.pool.emplace(static_cast<size_t>(p.pool));
            if (p.kind == 2)
                w.rl.emplace();
#ifdef WITH_ASIO
            if (p.kind == 4)
                w.io.emplace();
#endif
            for (int i = 0; i < p.workers; ++i)
            {
#ifdef WITH_ASIO
                if (p.kind == 4)
                {
                    w.queue_of[i] = i;
                    w.workers.emplace_back(rppasio::schedulers::strand{w.io->get_executor()}.create_worker());
                    continue;
                }
#endif
                w.queue_of[i] = p.kind == 0 ? i : p.kind == 1 ? i % p.pool : p.kind == 2 ? 0 : 100 + i;
                if (p.kind == 0)
                    w.workers.emplace_back(rs::new_thread::create_worker());
                else if (p.kind == 1)
                    w.workers.emplace_back(w.pool->create_worker());
                else if (p.kind == 2)
                    w.workers.emplace_back(w.rl->create_worker());
                else
                    w.workers.emplace_back(rs::computational::create_worker());
            }
            for (size_t i = 0; i < p.tasks.size(); ++i)
                w.flag.push_back(rpp::composite_disposable_wrapper::make());
            std::optional<std::thread> disp;
            bool                       stop = false;
            int                        disp_id = -1;
            if (p.kind == 2)
                disp.emplace([&] {
                    disp_id = sim::self();
                    while (!stop)
                        w.rl->dispatch();
                });
#ifdef WITH_ASIO
            std::vector<std::thread> pollers;
            if (p.kind == 4)
                for (int i = 0; i < p.pool; ++i)
                    pollers.emplace_back([&w] {
                        {
                            sim::Quiet q;
                            sim::set(sim::self(), 1);
                        }
                        auto guard = asio::make_work_guard(*w.io);
                        for (int idle = 0; idle * kPoll < 1100;) // no delay is longer
                            if (w.io->poll_one())
                                idle = 0;
                            else
                            {
                                idle += sim::get(40);
                                sim::sleep(kPoll);
                            }
                    });
#endif
            {
                std::vector<std::thread> ts;
                for (auto& t : p.threads)
                    ts.emplace_back([&] {
                        for (auto& x : t)
                            switch (x.k)
                            {
                                case Op::Schedule: do_schedule(x.a, W->workers[p.tasks[x.a].worker], false); break;
                                case Op::DisposeTask: do_dispose(x.a); break;
                                case Op::Sleep: sim::sleep(x.a); break;
                                default:
#ifdef WITH_ASIO
                                    if (p.kind == 4)
                                        rppasio::schedulers::strand{w.io->get_executor()}.create_worker();
                                    else
#endif
                                    if (p.kind == 1)
                                    {
                                        auto extra = w.pool->create_worker();
                                        (void)extra;
                                    }
                                    else if (p.kind == 0)
                                    {
                                        auto extra = rs::new_thread::create_worker();
                                        (void)extra;
                                    }
                                    else if (p.kind == 2)
                                    {
                                        auto extra = w.rl->create_worker();
                                        if (w.rl->is_empty())
                                            w.rl->is_any_ready_schedulable();
                                    }
                                    else
                                        rs::computational::create_worker();
                            }
                    });
                for (auto& t : ts)
                    t.join();
            }
            if (p.kind == 2)
            {
                struct Stop
                {
                    bool is_disposed() const { return false; }
                    void on_error(const std::exception_ptr&) const {}
                };
                w.rl->create_worker().schedule(nanoseconds{6000}, [&stop](const Stop&) { stop = true; return rs::optional_delay_from_now{}; }, Stop{});
                disp->join();
            }
#ifdef WITH_ASIO
            if (p.kind == 4)
            {
                sim::set(40, 1);
                for (auto& t : pollers)
                    t.join();
            }
#endif
            // dropping the workers lets the threads end once their queues are empty
            w.workers.clear();
            w.pool.reset();
            if (p.kind == 3)
                sim::finish_idle();
            else
                sim::finish();
            w.rl.reset();
#ifdef WITH_ASIO
            w.io.reset();
#endif
        }

        sim::Quiet q;
        int        ran = 0, concurrent = 0, waited = 0;
        int        thread_of[8];
        std::fill(thread_of, thread_of + 8, -1);
        struct X
        {
            int         t, k;
            const Inst* i;
        };
        std::vector<X> all;
        if (getenv("SIM_RUNS"))
            for (size_t t = 0; t < p.tasks.size(); ++t)
                for (int k = 0; k < std::max(R[t].n, R[t].q); ++k)
                {
                    const Inst& i = R[t].inst[k];
                    dprintf(open("/tmp/runs.txt", 02001 | 0100, 0644), "task %zu run %d: queued at %ld, due %ld..%ld, ran %ld..%ld on %d, steps %ld..%ld\n", t, k, long(i.t_queued - 1000000000), long(i.due_lo - 1000000000), i.due_hi == LONG_MAX ? -1 : long(i.due_hi - 1000000000), long(i.tb - 1000000000), long(i.te - 1000000000), i.thread, i.b, i.e);
                }
        for (size_t t = 0; t < p.tasks.size(); ++t)
        {
            const Rec&  r = R[t];
            const Task& a = p.tasks[t];
            if (!r.scheduled)
                continue;
            const int  want     = static_cast<int>(a.runs.size());
            const bool disposed = r.disposed_b >= 0;
            if (r.n < want && !disposed)
                pbt::fail("task %zu ran %d times instead of %d and its thread has ended", t, r.n, want);
            if (r.n < want && r.n > 0 && r.inst[r.n - 1].e == LONG_MAX)
                pbt::fail("task %zu did not finish", t);
            if (r.errors != (a.throws && r.n == want))
                pbt::fail("task %zu: its handler got %d errors, %d runs of %d, %s", t, r.errors, r.n, want, a.throws ? "the last throws" : "none throws");
            for (int k = 0; k < r.n; ++k)
            {
                const Inst& i = r.inst[k];
                all.push_back({static_cast<int>(t), k, &i});
                ++ran;
                waited += i.tb > 1000000000;
                int& th = thread_of[a.worker];
                if (p.kind == 4)
                {
                    if (!sim::get(i.thread))
                        pbt::fail("task %zu runs on thread %d, which doesn't run the context", t, i.thread);
                }
                else if (th >= 0 && th != i.thread)
                    pbt::fail("tasks of worker %d run on threads %d and %d", a.worker, th, i.thread);
                th = i.thread;
                if (i.thread == 0 || (i.thread <= static_cast<int>(p.threads.size()) && p.kind == 7))
                    pbt::fail("task %zu runs on the main thread", t);
                if (o.timing && p.kind == 4)
                {
                    // on time, but for what the only thread was busy with
                    int64_t at = std::max(i.due_hi == LONG_MAX ? std::max(i.due_lo, r.inst[k - 1].te) : i.due_hi, i.t_queued);
                    for (bool again = true; again;)
                    {
                        again = false;
                        for (size_t t2 = 0; t2 < p.tasks.size(); ++t2)
                            for (int k2 = 0; k2 < R[t2].n; ++k2)
                                if (const Inst& b = R[t2].inst[k2]; &b != &i && b.tb <= at + kPoll && b.te > at && b.b < i.b)
                                {
                                    at    = b.te;
                                    again = true;
                                }
                    }
                    if (i.tb > at + kPoll)
                        pbt::fail("task %zu (run %d), due at %ld, was started only at %ld though the context was idle", t, k, static_cast<long>(i.due_lo - 1000000000), static_cast<long>(i.tb - 1000000000));
                }
                else if (o.timing)
                {
                    const int64_t lo = std::max(i.due_lo, k ? r.inst[k - 1].te : 0);
                    if (i.tb > std::max(i.due_hi == LONG_MAX ? lo : i.due_hi, i.t_queued))
                        pbt::fail("task %zu (run %d), due at %ld, was started only at %ld though its worker was idle", t, k, static_cast<long>(lo - 1000000000), static_cast<long>(i.tb - 1000000000));
                }
            }
        }
        // a thread that has already taken a task may start it just after the disposal of its handler
        for (auto& a : all)
            if (R[a.t].disposed_e < a.i->b)
            {
                if (o.timing && R[a.t].disposed_t < a.i->tb)
                    pbt::fail("task %d starts long after its handler was disposed", a.t);
                for (auto& b : all)
                    if (p.tasks[b.t].worker == p.tasks[a.t].worker && b.i->b > R[a.t].disposed_e && b.i->b < a.i->b)
                        pbt::fail("task %d starts after its handler was disposed and its worker has run something else since", a.t);
                pbt::label("started just after the disposal");
            }
        for (auto& a : all)
            for (auto& b : all)
            {
                if (&a == &b || p.tasks[a.t].worker != p.tasks[b.t].worker)
                    continue;
                if (a.i->b < b.i->b && b.i->b < a.i->e)
                    pbt::fail("task %d starts while task %d of the same worker runs", b.t, a.t);
                // a was queued before b, and is due no later: it runs first
                const long a_in = a.k ? a.i->q_b : a.i->q_e;
                // (strand: those posted among themselves, those on timers by due time when one thread runs the context)
                const bool ordered = p.kind != 4 || (a.i->posted && b.i->posted) || (p.pool == 1 && !a.i->posted && !b.i->posted && a.i->due_hi < b.i->due_lo);
                if (ordered && a.k == 0 && a_in < b.i->q_b && a.i->due_hi <= b.i->due_lo && a.i->b > b.i->b)
                    pbt::fail("task %d (run %d) ran before task %d, which was queued earlier and due no later", b.t, b.k, a.t);
                concurrent += a.i->q_b < b.i->e && b.i->b < a.i->q_e && a.k == 0;
            }
        pbt::nontrivial(ran >= 2 && concurrent > 0);
        if (waited)
            pbt::label("a task waited for its time");
        for (auto& r : R)
            if (r.disposed_b >= 0 && r.scheduled)
                pbt::label("a task's handler was disposed");
        if (p.kind != 3 && sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C18";
    s.rule             = "at least two runs of tasks, one of them scheduled while a task of the same worker was running; distinct by the full sequence of generator choices (program and schedule)";
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders", "virtual time", "one dispatching thread per run loop"};
    s.case_cpu_limit_s = 5;
    auto fam = [&](const char* n, int kind, bool timing, uint64_t q, uint64_t t) { s.families.push_back({n, [=](pbt::Gen& g) { run_case(g, {kind, timing}); }, q, t, true}); };
#ifdef WITH_ASIO
    s.property = "C26";
    s.rule     = "at least two runs of tasks, one of them scheduled while a task of the same worker was running; distinct by the full sequence of generator choices (program and schedule)";
    s.assumptions.back() = "threads run the context by polling it, every 5 ticks of virtual time when idle";
    fam("one thread, on time", 4, true, 30000, 1500000);
    fam("strand", 4, false, 30000, 1500000);
    return pbt::run_main(argc, argv, s);
#endif
    fam("new thread", 0, false, 16000, 1000000);
    fam("new thread, on time", 0, true, 16000, 1000000);
    fam("pool", 1, false, 16000, 1000000);
    fam("pool, on time", 1, true, 8000, 500000);
    fam("run loop", 2, false, 10000, 500000);
    fam("run loop, on time", 2, true, 8000, 500000);
    fam("computational", 3, false, 6000, 300000);
    return pbt::run_main(argc, argv, s);
}
