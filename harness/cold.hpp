#pragma once
// C10: creation functions on every scheduler and storage policy, against reference sources running on reference schedulers.
#include "model.hpp"
#include "pbt.hpp"
#include "value.hpp"
#include "vclock.hpp"
#include <rpp/observables/dynamic_observable.hpp>
#include <rpp/observers/dynamic_observer.hpp>
#include <rpp/observables/variant_observable.hpp>
#include <rpp/operators/map.hpp>
#include <rpp/operators/merge.hpp>
#include <rpp/operators/take.hpp>
#include <rpp/schedulers.hpp>
#include <rpp/schedulers/test_scheduler.hpp>
#include <rpp/sources.hpp>
#include <array>
#include <deque>
#include <forward_list>
#include <list>

namespace cold
{
    using namespace h;
    using std::chrono::nanoseconds;
    namespace rs = rpp::schedulers;
    using Dyn    = rpp::dynamic_observable<V>;

    enum Sch { kImm, kCt, kRl, kTs };
    inline const char* sch_name[] = {"immediate", "current_thread", "run_loop", "test_scheduler"};

    struct Ev
    {
        char    kind; // n e c: notification; F factory, B body, I callable invoked, x operation done
        int     id, v;
        int64_t t, ts;
        bool    operator==(const Ev&) const = default;
    };
    inline std::string show(const Ev& e)
    {
        char b[120];
        const char* w = e.kind == 'n' ? "on_next" : e.kind == 'e' ? "on_error" : e.kind == 'c' ? "on_completed" : e.kind == 'F' ? "factory called" : e.kind == 'B' ? "subscription function called" : e.kind == 'I' ? "callable invoked" : "end of operation";
        snprintf(b, sizeof b, "%s (%s %d, value %d) at t=%ld/%ld", w, e.kind == 'n' || e.kind == 'e' || e.kind == 'c' ? "subscriber" : "node", e.id, e.v, static_cast<long>(e.t), static_cast<long>(e.ts));
        return b;
    }

    // reference schedulers over closures
    struct MS
    {
        struct Q
        {
            int64_t                                        due;
            long                                           seq;
            std::function<bool()>                          dead;
            std::function<std::optional<int64_t>(int64_t)> run; // due -> next due
        };
        int64_t        t = 0, ts = 0;
        long           seq = 0;
        bool           owned = false;
        std::vector<Q> ct, rl, tq;
        int64_t        now(Sch s) const { return s == kTs ? ts : t; }
        void           push(std::vector<Q>& q, Q x)
        {
            x.seq = seq++;
            q.push_back(std::move(x));
        }
        static size_t min_of(const std::vector<Q>& q)
        {
            size_t b = 0;
            for (size_t i = 1; i < q.size(); ++i)
                if (q[i].due < q[b].due || (q[i].due == q[b].due && q[i].seq < q[b].seq))
                    b = i;
            return b;
        }
        static Q pop(std::vector<Q>& q)
        {
            auto i = min_of(q);
            Q    x = q[i];
            q.erase(q.begin() + static_cast<long>(i));
            return x;
        }
        void schedule(Sch s, int64_t due, std::function<bool()> dead, std::function<std::optional<int64_t>(int64_t)> run)
        {
            Q x{due, 0, dead, run};
            switch (s)
            {
                case kImm:
                    while (!x.dead())
                    {
                        t = std::max(t, x.due);
                        auto r = x.run(x.due);
                        if (!r)
                            break;
                        x.due = *r;
                    }
                    break;
                case kCt:
                    if (dead())
                        return;
                    push(ct, x);
                    if (!owned)
                    {
                        owned = true;
                        drain_ct();
                    }
                    break;
                case kRl: push(rl, x); break;
                case kTs:
                    push(tq, x);
                    drain_ts();
                    break;
            }
        }
        void drain_ct()
        {
            while (!ct.empty())
            {
                Q x = pop(ct);
                if (x.dead())
                    continue;
                t = std::max(t, x.due);
                if (auto r = x.run(x.due); r && !x.dead())
                {
                    x.due = *r;
                    push(ct, x);
                }
            }
            owned = false;
        }
        template<typename F>
        void guard(F f)
        {
            const bool mine = !owned;
            owned           = true;
            f();
            if (mine)
                drain_ct();
        }
        void drain_rl()
        {
            while (!rl.empty())
            {
                if (rl[min_of(rl)].dead())
                {
                    pop(rl);
                    continue;
                }
                if (rl[min_of(rl)].due > t)
                    return;
                Q x = pop(rl);
                if (auto r = x.run(x.due))
                {
                    x.due = *r;
                    push(rl, x);
                }
            }
        }
        void drain_ts()
        {
            while (!tq.empty() && tq[min_of(tq)].due <= ts)
            {
                Q x = pop(tq);
                if (x.dead())
                    continue;
                if (auto r = x.run(x.due); r && !x.dead())
                {
                    x.due = std::max(ts, *r);
                    push(tq, x);
                }
            }
        }
    };

    // a lazily generated sequence that may be endless and may throw while being walked
    struct RangeData
    {
        int  n      = 0; // length; < 0 endless
        int  throw_deref = -1, throw_inc = -1;
        bool throw_begin = false;
        int  code = 0;
        long derefs = 0;
    };
    struct Range
    {
        std::shared_ptr<RangeData> d;
        Tok                        tok{};
        struct It
        {
            using iterator_category = std::input_iterator_tag;
            using value_type        = V;
            using difference_type   = std::ptrdiff_t;
            using pointer           = const V*;
            using reference         = V;
            RangeData* d = nullptr;
            int        i = 0;
            V          operator*() const
            {
                ++d->derefs;
                if (i == d->throw_deref)
                    throw Err{d->code};
                return V{i};
            }
            It& operator++()
            {
                if (i == d->throw_inc)
                    throw Err{d->code};
                ++i;
                return *this;
            }
            It operator++(int)
            {
                It c = *this;
                ++*this;
                return c;
            }
            bool operator==(const It& o) const { return i == o.i; }
        };
        It begin() const
        {
            if (d->throw_begin)
                throw Err{d->code};
            return {d.get(), 0};
        }
        It end() const { return {d.get(), d->n < 0 ? 1 << 30 : d->n}; }
    };

    struct Ctx
    {
        MS                               ms;
        std::vector<Ev>                  rlog, mlog;
        std::optional<rs::run_loop>      rl;
        std::optional<rs::test_scheduler> ts;
        int64_t                          base = vclk::now_ns, ts_base = 0;
        std::vector<std::shared_ptr<RangeData>> ranges;
        int                              nodes = 0;
        bool                             any_async = false;
        Ctx()
        {
            rl.emplace();
            ts.emplace();
            ts_base = rs::test_scheduler::s_current_time.time_since_epoch().count();
        }
        void r(char k, int id, int v)
        {
            if (rlog.size() > 3000)
                pbt::fail("emission does not end");
            rlog.push_back({k, id, v, vclk::now_ns - base, rs::test_scheduler::s_current_time.time_since_epoch().count() - ts_base});
        }
        void m(char k, int id, int v)
        {
            if (mlog.size() > 3000)
                pbt::fail("emission does not end (model)");
            mlog.push_back({k, id, v, ms.t, ms.ts});
        }
    };
    inline Ctx* C = nullptr;

    struct P
    {
        Dyn         r;
        m::Source   m;
        std::string d;
        bool        shared_leaf = false; // a leaf with shared storage: never copies its values
    };

    inline int error_code(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const Err& x)
        {
            return x.code;
        }
        catch (...)
        {
            return -99;
        }
    }

    // ---- reference sources ----
    // at(i): value; throws MErr. n < 0: endless. walk(i): throws when stepping past i
    struct Seq
    {
        int                      n;
        std::function<int(int)>  at;
        std::function<void(int)> walk  = [](int) {};
        std::function<void()>    start = [] {};
    };
    inline m::Source iterable_model(Seq s, Sch sch)
    {
        return [=](m::ObsP d) {
            auto dead = [d] { return !d->live(); };
            if (sch == kImm)
            {
                try
                {
                    s.start();
                    for (int i = 0; i != s.n; ++i)
                    {
                        if (dead())
                            return;
                        d->next(s.at(i));
                        s.walk(i);
                    }
                    d->done();
                }
                catch (const m::MErr& e)
                {
                    d->error(e.code);
                }
                return;
            }
            auto i = std::make_shared<int>(0);
            C->ms.schedule(sch, C->ms.now(sch), dead, [=](int64_t) -> std::optional<int64_t> {
                try
                {
                    s.start();
                    if (*i != s.n)
                    {
                        d->next(s.at(*i));
                        s.walk(*i);
                        if (++*i != s.n)
                            return C->ms.now(sch);
                    }
                    d->done();
                }
                catch (const m::MErr& e)
                {
                    d->error(e.code);
                }
                return {};
            });
        };
    }
    inline m::Source interval_model(Sch sch, int64_t first, bool absolute, int64_t period)
    {
        return [=](m::ObsP d) {
            auto n = std::make_shared<int>(0);
            C->ms.schedule(sch, absolute ? first : C->ms.now(sch) + first, [d] { return !d->live(); }, [=](int64_t due) -> std::optional<int64_t> {
                d->next((*n)++);
                return due + period;
            });
        };
    }

    // ---- generation ----
    template<typename F>
    Dyn on_scheduler(Sch s, F f)
    {
        switch (s)
        {
            case kImm: return f(rs::immediate{});
            case kCt: return f(rs::current_thread{});
            case kRl: return f(*C->rl);
            default: return f(*C->ts);
        }
    }

    template<typename Cont>
    Dyn iterable_real(const Cont& c, bool shared, bool rvalue, Sch sch);

}
