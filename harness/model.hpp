// Reference model: a small, direct, push-based implementation of the Rx contract over plain ints.
// Written from the documented behaviour of the operators, with no sharing of structure with the library.
#pragma once
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

namespace m
{
    // error codes of errors the operators themselves raise
    constexpr int kNotEnough = -1, kOutOfRange = -2, kTimeout = -3;

    struct MErr
    {
        int code;
    };

    struct Sub;
    using SubP = std::shared_ptr<Sub>;
    struct Sub
    {
        bool                                    closed = false;
        std::map<size_t, std::function<void()>> td; // run in the order they were added
        size_t                                  next_id = 0;
        size_t                                  add(std::function<void()> f)
        {
            if (closed)
                f();
            else
                td.emplace(next_id, std::move(f));
            return next_id++;
        }
        void close()
        {
            if (closed)
                return;
            closed = true;
            auto t = std::move(td);
            td.clear();
            for (auto& [i, f] : t)
                f();
        }
        static SubP make() { return std::make_shared<Sub>(); }
    };
    // a subscription that closes when the parent closes
    inline SubP child(const SubP& p)
    {
        auto       c  = Sub::make();
        const auto id = p->add([c] { c->close(); });
        c->add([w = std::weak_ptr<Sub>{p}, id] {
            if (auto q = w.lock())
                q->td.erase(id);
        });
        return c;
    }

    template<typename T>
    struct ObsT
    {
        SubP                          sub;
        std::function<void(const T&)> n;
        std::function<void(int)>      e;
        std::function<void()>         c;
        bool                          term = false;
        bool                          live() const { return !term && !sub->closed; }
        void                          next(const T& v)
        {
            if (live())
                n(v);
        }
        void error(int x)
        {
            if (!live())
                return;
            term = true;
            e(x);
            sub->close();
        }
        void done()
        {
            if (!live())
                return;
            term = true;
            c();
            sub->close();
        }
    };
    template<typename T>
    using ObsPT = std::shared_ptr<ObsT<T>>;
    template<typename T>
    using SourceT = std::function<void(ObsPT<T>)>;
    using Obs     = ObsT<int>;
    using ObsP    = ObsPT<int>;
    using Source  = SourceT<int>;
    using Vec     = std::vector<int>;

    template<typename T>
    ObsPT<T> mk(SubP s, std::function<void(const T&)> n, std::function<void(int)> e, std::function<void()> c)
    {
        auto o = std::make_shared<ObsT<T>>();
        o->sub = std::move(s);
        o->c   = std::move(c);
        o->e   = std::move(e);
        // an exception thrown while handling a value is an error of that value's stream
        std::weak_ptr<ObsT<T>> w = o;
        o->n                     = [n = std::move(n), w](const T& v) {
            try
            {
                n(v);
            }
            catch (const MErr& x)
            {
                if (auto s = w.lock())
                    s->error(x.code);
            }
        };
        return o;
    }
    // upstream observer that forwards errors and completion downstream
    template<typename T, typename D>
    ObsPT<T> up(const ObsPT<D>& d, std::function<void(const T&)> n, std::function<void()> c = {}, std::function<void(int)> e = {})
    {
        if (!c)
            c = [d] { d->done(); };
        if (!e)
            e = [d](int x) { d->error(x); };
        return mk<T>(child(d->sub), std::move(n), std::move(e), std::move(c));
    }
    template<typename T>
    void subscribe(const SourceT<T>& s, const ObsPT<T>& o)
    {
        // an exception thrown by a subscription function travels up to the operator (or caller) that subscribed
        if (!o->sub->closed)
            s(o);
    }

    // operators that resubscribe turn an exception of the subscription function into an error
    template<typename D, typename F>
    void guarded(const ObsPT<D>& d, F f)
    {
        try
        {
            f();
        }
        catch (const MErr& x)
        {
            d->error(x.code);
        }
    }

    // ---------- single source ----------
    template<typename T, typename R>
    SourceT<R> map(SourceT<T> s, std::function<R(const T&)> f)
    {
        return [=](ObsPT<R> d) { subscribe<T>(s, up<T, R>(d, [=](const T& v) { d->next(f(v)); })); };
    }
    inline Source filter(Source s, std::function<bool(int)> f)
    {
        return [=](ObsP d) { subscribe<int>(s, up<int>(d, [=](int v) { if (f(v)) d->next(v); })); };
    }
    // documented "0 - instant complete": this library completes at the first event of the source
    inline Source take(Source s, size_t n)
    {
        return [=](ObsP d) {
            auto left = std::make_shared<size_t>(n);
            subscribe<int>(s, up<int>(d, [=](int v) {
                if (*left > 0)
                {
                    --*left;
                    d->next(v);
                }
                if (*left == 0)
                    d->done(); }));
        };
    }
    inline Source skip(Source s, size_t n)
    {
        return [=](ObsP d) {
            auto left = std::make_shared<size_t>(n);
            subscribe<int>(s, up<int>(d, [=](int v) { if (*left) --*left; else d->next(v); }));
        };
    }
    inline Source take_while(Source s, std::function<bool(int)> f)
    {
        return [=](ObsP d) { subscribe<int>(s, up<int>(d, [=](int v) { if (f(v)) d->next(v); else d->done(); })); };
    }
    inline Source take_last(Source s, size_t n)
    {
        return [=](ObsP d) {
            auto q = std::make_shared<std::deque<int>>();
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { q->push_back(v); if (q->size() > n) q->pop_front(); }, [=] { for (int v : *q) d->next(v); d->done(); }));
        };
    }
    inline Source element_at(Source s, size_t i)
    {
        return [=](ObsP d) {
            auto k = std::make_shared<size_t>(0);
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { if ((*k)++ == i) { d->next(v); d->done(); } }, [=] { d->error(kOutOfRange); }));
        };
    }
    inline Source first(Source s)
    {
        return [=](ObsP d) {
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { d->next(v); d->done(); }, [=] { d->error(kNotEnough); }));
        };
    }
    inline Source last(Source s)
    {
        return [=](ObsP d) {
            auto l = std::make_shared<std::optional<int>>();
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { *l = v; }, [=] { if (*l) { d->next(**l); d->done(); } else d->error(kNotEnough); }));
        };
    }
    inline Source distinct(Source s)
    {
        return [=](ObsP d) {
            auto seen = std::make_shared<std::set<int>>();
            subscribe<int>(s, up<int>(d, [=](int v) { if (seen->insert(v).second) d->next(v); }));
        };
    }
    inline Source distinct_until_changed(Source s, std::function<bool(int, int)> eq)
    {
        return [=](ObsP d) {
            auto l = std::make_shared<std::optional<int>>();
            subscribe<int>(s, up<int>(d, [=](int v) { if (*l && eq(**l, v)) return; *l = v; d->next(v); }));
        };
    }
    using Acc = std::function<int(int, int)>;
    inline Source scan(Source s, std::optional<int> seed, Acc f)
    {
        return [=](ObsP d) {
            auto a = std::make_shared<std::optional<int>>(seed);
            if (seed)
                d->next(*seed);
            if (d->sub->closed || d->term)
                return;
            subscribe<int>(s, up<int>(d, [=](int v) { *a = *a ? f(**a, v) : v; d->next(**a); }));
        };
    }
    inline Source reduce(Source s, std::optional<int> seed, Acc f)
    {
        return [=](ObsP d) {
            auto a = std::make_shared<std::optional<int>>(seed);
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { *a = *a ? f(**a, v) : v; }, [=] { if (*a) d->next(**a); d->done(); }));
        };
    }
    inline SourceT<Vec> buffer(Source s, size_t n)
    {
        if (n == 0)
            n = 1;
        return [=](ObsPT<Vec> d) {
            auto b = std::make_shared<Vec>();
            subscribe<int>(s, up<int, Vec>(
                                  d, [=](int v) { b->push_back(v); if (b->size() == n) { auto x = std::move(*b); b->clear(); d->next(x); } }, [=] { if (!b->empty()) d->next(*b); d->done(); }));
        };
    }
    inline Source tap(Source s, std::function<void(int)> n, std::function<void(int)> e, std::function<void()> c)
    {
        return [=](ObsP d) {
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { n(v); d->next(v); }, [=] { c(); d->done(); }, [=](int x) { e(x); d->error(x); }));
        };
    }
    inline Source finally_(Source s, std::function<void()> f)
    {
        return [=](ObsP d) {
            d->sub->add(f);
            subscribe<int>(s, up<int>(d, [=](int v) { d->next(v); }));
        };
    }

    // ---------- sources ----------
    inline std::vector<std::shared_ptr<void>> g_kept; // observers held by sources that never end
    inline Source cold(Vec vals, int terminal /*0 never, 1 complete, else error code*/)
    {
        return [=](ObsP d) {
            if (terminal == 0)
                g_kept.push_back(d);
            for (int v : vals)
            {
                if (!d->live())
                    return;
                d->next(v);
            }
            if (terminal == 1)
                d->done();
            else if (terminal != 0)
                d->error(terminal);
        };
    }
    inline Source defer(std::function<Source()> f)
    {
        return [=](ObsP d) {
            Source s;
            try
            {
                s = f();
            }
            catch (const MErr& x)
            {
                return d->error(x.code);
            }
            subscribe<int>(s, d);
        };
    }

    // ---------- flattening ----------
    inline Source merge(SourceT<Source> s)
    {
        return [=](ObsP d) {
            auto active = std::make_shared<int>(1);
            auto fin    = [=] { if (--*active == 0) d->done(); };
            subscribe<Source>(s, up<Source, int>(
                                     d, [=](const Source& in) {
                                         ++*active;
                                         subscribe<int>(in, up<int>(d, [=](int v) { d->next(v); }, fin)); },
                                     fin));
        };
    }
    inline SourceT<Source> of_sources(std::vector<Source> v)
    {
        return [=](ObsPT<Source> d) {
            for (auto& s : v)
                d->next(s);
            d->done();
        };
    }
    inline Source concat(SourceT<Source> s)
    {
        struct St
        {
            std::deque<Source> q;
            bool               busy = false, outer_done = false, pumping = false;
        };
        return [=](ObsP d) {
            auto st   = std::make_shared<St>();
            auto pump = std::make_shared<std::function<void()>>();
            std::weak_ptr<std::function<void()>> wp = pump;
            *pump = [=] {
                if (st->pumping)
                    return;
                st->pumping = true;
                while (!st->busy && !st->q.empty() && d->live())
                {
                    auto in = st->q.front();
                    st->q.pop_front();
                    st->busy = true;
                    guarded<int>(d, [&] { subscribe<int>(in, up<int>(
                                           d, [=](int v) { d->next(v); }, [=, p = wp.lock()] { st->busy = false; (*p)(); })); });
                }
                st->pumping = false;
                if (!st->busy && st->q.empty() && st->outer_done)
                    d->done();
            };
            subscribe<Source>(s, up<Source, int>(
                                     d, [=](const Source& in) { st->q.push_back(in); (*pump)(); }, [=] { st->outer_done = true; (*pump)(); }));
        };
    }
    inline Source switch_on_next(SourceT<Source> s)
    {
        struct St
        {
            SubP cur;
            bool busy = false, outer_done = false;
            int  gen  = 0;
        };
        return [=](ObsP d) {
            auto st = std::make_shared<St>();
            subscribe<Source>(s, up<Source, int>(
                                     d, [=](const Source& in) {
                                         if (st->cur)
                                             st->cur->close();
                                         const int g = ++st->gen;
                                         st->busy    = true;
                                         auto o      = up<int>(
                                             d, [=](int v) { d->next(v); }, [=] {
                                                 if (g == st->gen)
                                                     st->busy = false;
                                                 if (!st->busy && st->outer_done)
                                                     d->done(); });
                                         st->cur = o->sub;
                                         subscribe<int>(in, o); },
                                     [=] { st->outer_done = true; if (!st->busy) d->done(); }));
        };
    }

    // ---------- combining ----------
    using Comb = std::function<int(const Vec&)>;
    inline Source combine_latest(std::vector<Source> ss, Comb f, std::vector<int> order)
    {
        return [=](ObsP d) {
            auto vals = std::make_shared<std::vector<std::optional<int>>>(ss.size());
            auto left = std::make_shared<size_t>(ss.size());
            for (int i : order)
                subscribe<int>(ss[static_cast<size_t>(i)], up<int>(
                                                               d, [=](int v) {
                                                                   (*vals)[static_cast<size_t>(i)] = v;
                                                                   Vec t;
                                                                   for (auto& x : *vals)
                                                                   {
                                                                       if (!x)
                                                                           return;
                                                                       t.push_back(*x);
                                                                   }
                                                                   d->next(f(t)); },
                                                               [=] { if (--*left == 0) d->done(); }));
        };
    }
    inline Source zip(std::vector<Source> ss, Comb f, std::vector<int> order)
    {
        return [=](ObsP d) {
            auto qs   = std::make_shared<std::vector<std::deque<int>>>(ss.size());
            auto left = std::make_shared<size_t>(ss.size());
            for (int i : order)
                subscribe<int>(ss[static_cast<size_t>(i)], up<int>(
                                                               d, [=](int v) {
                                                                   (*qs)[static_cast<size_t>(i)].push_back(v);
                                                                   Vec t;
                                                                   for (auto& q : *qs)
                                                                   {
                                                                       if (q.empty())
                                                                           return;
                                                                       t.push_back(q.front());
                                                                   }
                                                                   for (auto& q : *qs)
                                                                       q.pop_front();
                                                                   d->next(f(t)); },
                                                               [=] { if (--*left == 0) d->done(); }));
        };
    }
    inline Source with_latest_from(std::vector<Source> ss, Comb f)
    {
        return [=](ObsP d) {
            auto vals = std::make_shared<std::vector<std::optional<int>>>(ss.size());
            for (size_t i = 1; i < ss.size(); ++i)
                subscribe<int>(ss[i], up<int>(
                                          d, [=](int v) { (*vals)[i] = v; }, [] {}));
            subscribe<int>(ss[0], up<int>(d, [=](int v) {
                               (*vals)[0] = v;
                               Vec t;
                               for (auto& x : *vals)
                               {
                                   if (!x)
                                       return;
                                   t.push_back(*x);
                               }
                               d->next(f(t)); }));
        };
    }
    inline Source take_until(Source s, Source stop)
    {
        return [=](ObsP d) {
            subscribe<int>(stop, up<int>(d, [=](int) { d->done(); }));
            subscribe<int>(s, up<int>(d, [=](int v) { d->next(v); }));
        };
    }

    // ---------- resubscribing ----------
    // Runs attempts one after another without recursion. `again` decides what an ended attempt leads to.
    inline Source retry(Source s, std::optional<size_t> count)
    {
        struct St
        {
            std::optional<size_t> left;
            bool                  looping = false, again = false;
        };
        return [=](ObsP d) {
            auto st  = std::make_shared<St>();
            st->left = count;
            auto go  = std::make_shared<std::function<void()>>();
            std::weak_ptr<std::function<void()>> wg = go;
            *go = [=] {
                st->again = true;
                if (st->looping)
                    return;
                st->looping = true;
                while (st->again && d->live())
                {
                    st->again = false;
                    auto g    = wg.lock();
                    guarded<int>(d, [&] { subscribe<int>(s, up<int>(
                                          d, [=](int v) { d->next(v); }, {}, [=](int x) {
                                              if (st->left && *st->left == 0)
                                                  return d->error(x);
                                              if (st->left)
                                                  --*st->left;
                                              (*g)(); })); });
                }
                st->looping = false;
            };
            (*go)();
        };
    }
    inline Source retry_when(Source s, std::function<Source(int)> notifier)
    {
        struct St
        {
            bool looping = false, again = false;
        };
        return [=](ObsP d) {
            auto st = std::make_shared<St>();
            auto go = std::make_shared<std::function<void()>>();
            std::weak_ptr<std::function<void()>> wg = go;
            *go = [=] {
                st->again = true;
                if (st->looping)
                    return;
                st->looping = true;
                while (st->again && d->live())
                {
                    st->again = false;
                    auto g    = wg.lock();
                    guarded<int>(d, [&] { subscribe<int>(s, up<int>(
                                          d, [=](int v) { d->next(v); }, {}, [=](int x) {
                                              Source n;
                                              try
                                              {
                                                  n = notifier(x);
                                              }
                                              catch (const MErr& e2)
                                              {
                                                  return d->error(e2.code);
                                              }
                                              auto fired = std::make_shared<bool>(false);
                                              auto o     = up<int>(d, [](int) {});
                                              std::weak_ptr<Obs> wo = o;
                                              o->n = [=](int) {
                                                  if (*fired)
                                                      return;
                                                  *fired = true;
                                                  if (auto oo = wo.lock())
                                                      oo->sub->close();
                                                  (*g)();
                                              };
                                              guarded<int>(d, [&] { subscribe<int>(n, o); }); })); });
                }
                st->looping = false;
            };
            (*go)();
        };
    }
    inline Source repeat(Source s, std::optional<size_t> count)
    {
        struct St
        {
            std::optional<size_t> left;
            bool                  looping = false, again = false;
        };
        return [=](ObsP d) {
            auto st  = std::make_shared<St>();
            st->left = count;
            auto go  = std::make_shared<std::function<void()>>();
            std::weak_ptr<std::function<void()>> wg = go;
            *go = [=] {
                st->again = true;
                if (st->looping)
                    return;
                st->looping = true;
                while (st->again && d->live())
                {
                    st->again = false;
                    if (st->left && *st->left == 0)
                    {
                        d->done();
                        break;
                    }
                    if (st->left)
                        --*st->left;
                    auto g = wg.lock();
                    guarded<int>(d, [&] { subscribe<int>(s, up<int>(
                                          d, [=](int v) { d->next(v); }, [=] { (*g)(); })); });
                }
                st->looping = false;
            };
            (*go)();
        };
    }
    inline Source on_error_resume_next(Source s, std::function<Source(int)> sel)
    {
        return [=](ObsP d) {
            subscribe<int>(s, up<int>(
                                  d, [=](int v) { d->next(v); }, {}, [=](int x) {
                                      Source n;
                                      try
                                      {
                                          n = sel(x);
                                      }
                                      catch (const MErr& e2)
                                      {
                                          return d->error(e2.code);
                                      }
                                      guarded<int>(d, [&] { subscribe<int>(n, up<int>(d, [=](int v) { d->next(v); })); }); }));
        };
    }

    // ---------- hot sub-streams ----------
    struct Subject
    {
        std::vector<ObsP> obs;
        int               term = 0; // 0 none, 1 complete, else error
        size_t            keep = 0; // values retained for later subscribers
        std::deque<int>   kept;
        bool              closing = false; // delivering the terminal
        void              subscribe(const ObsP& o)
        {
            if (term == 1)
                o->done();
            else if (term)
                o->error(term);
            else
            {
                std::erase_if(obs, [](const ObsP& x) { return !x->live(); });
                obs.push_back(o);
            }
        }
        void next(int v)
        {
            if (term)
                return;
            if (keep)
            {
                kept.push_back(v);
                if (kept.size() > keep)
                    kept.pop_front();
            }
            auto c = obs;
            for (auto& o : c)
                o->next(v);
        }
        void end(int t)
        {
            if (term)
                return;
            term   = t;
            auto c = std::move(obs);
            obs.clear();
            closing = true;
            for (auto& o : c)
                t == 1 ? o->done() : o->error(t);
            closing = false;
        }
    };
    // Shares one upstream subscription between the outer subscriber and sub-stream subscribers.
    struct Share
    {
        SubP src = Sub::make();
        int  refs = 0;
        void hold(const SubP& s)
        {
            ++refs;
            s->add([this_ = shared] { if (auto t = this_.lock()) if (--t->refs == 0) t->src->close(); });
        }
        std::weak_ptr<Share> shared;
        static std::shared_ptr<Share> make()
        {
            auto p    = std::make_shared<Share>();
            p->shared = p;
            return p;
        }
    };
    struct Group
    {
        int    key;
        Source src;
    };
    inline Source sub_stream(std::shared_ptr<Subject> subj, std::shared_ptr<Share> sh)
    {
        return [=](ObsP o) {
            sh->hold(o->sub);
            subj->subscribe(o);
        };
    }
    inline SourceT<Source> window(Source s, size_t n)
    {
        if (n == 0)
            n = 1;
        return [=](ObsPT<Source> d) {
            auto sh  = Share::make();
            auto cur = std::make_shared<std::shared_ptr<Subject>>();
            auto k   = std::make_shared<size_t>(0);
            sh->hold(d->sub);
            auto o = mk<int>(
                sh->src, [=](int v) {
                    if (!*cur)
                    {
                        *cur = std::make_shared<Subject>();
                        *k   = 0;
                        d->next(sub_stream(*cur, sh));
                    }
                    (*cur)->next(v);
                    if (++*k == n)
                    {
                        auto c = *cur;
                        cur->reset();
                        c->end(1);
                    } },
                [=](int x) { if (*cur) (*cur)->end(x); d->error(x); }, [=] { if (*cur) (*cur)->end(1); d->done(); });
            subscribe<int>(s, o);
        };
    }
    inline SourceT<Group> group_by(Source s, std::function<int(int)> key, std::function<int(int)> val, bool desc = false)
    {
        return [=](ObsPT<Group> d) {
            auto sh = Share::make();
            auto mp = std::make_shared<std::map<int, std::shared_ptr<Subject>, std::function<bool(int, int)>>>([desc](int a, int b) { return desc ? a > b : a < b; });
            sh->hold(d->sub);
            auto o = mk<int>(
                sh->src, [=](int v) {
                    const int k  = key(v);
                    auto      it = mp->find(k);
                    if (it == mp->end())
                    {
                        if (!d->live())
                            return;
                        auto subj = std::make_shared<Subject>();
                        it        = mp->emplace(k, subj).first;
                        d->next(Group{k, sub_stream(subj, sh)});
                    }
                    it->second->next(val(v)); },
                [=](int x) { for (auto& [k, g] : *mp) g->end(x); d->error(x); }, [=] { for (auto& [k, g] : *mp) g->end(1); d->done(); });
            subscribe<int>(s, o);
        };
    }
    inline SourceT<Source> window_toggle(Source s, Source openings, std::function<Source(int)> closing)
    {
        return [=](ObsPT<Source> d) {
            auto sh   = Share::make();
            auto open = std::make_shared<std::list<std::shared_ptr<Subject>>>();
            sh->hold(d->sub);
            auto err = [=](int x) {
                auto c = *open;
                for (auto& w : c)
                    w->end(x);
                open->clear();
                d->error(x);
                sh->src->close();
            };
            subscribe<int>(openings, mk<int>(
                                         child(sh->src), [=](int v) {
                                             auto w = std::make_shared<Subject>();
                                             open->push_back(w);
                                             d->next(sub_stream(w, sh));
                                             auto close = [=] {
                                                 open->remove(w);
                                                 w->end(1);
                                             };
                                             auto o     = mk<int>(
                                                 child(sh->src), [](int) {}, err, close);
                                             std::weak_ptr<Obs> wo = o;
                                             o->n                  = [=](int) { if (auto oo = wo.lock()) oo->done(); };
                                             subscribe<int>(closing(v), o); },
                                         err, [] {}));
            auto o = mk<int>(
                child(sh->src), [=](int v) { auto c = *open; for (auto& w : c) w->next(v); }, err, [=] {
                    auto c = *open;
                    for (auto& w : c)
                        w->end(1);
                    open->clear();
                    d->done();
                    sh->src->close(); });
            subscribe<int>(s, o);
        };
    }
}
