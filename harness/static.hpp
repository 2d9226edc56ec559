// Statically composed chains: the operators of a chain are template arguments, their parameters come from the case.
// Every operator is a struct with  make(Env&, bool sync) -> SOp  (library side, model side, description).
#pragma once
#include "opsutil.hpp"
#include <rpp/observables/variant_observable.hpp>
#include <rpp/observers/lambda_observer.hpp>
#include <rpp/operators.hpp>
#include <rpp/schedulers/current_thread.hpp>
#include <rpp/schedulers/immediate.hpp>
#include <rpp/sources/create.hpp>
#include <rpp/sources/defer.hpp>
#include <rpp/sources/empty.hpp>
#include <rpp/sources/from.hpp>
#include <rpp/sources/just.hpp>
#include <rpp/subjects.hpp>

namespace hs
{
    using namespace h;
    namespace ops = rpp::operators;
    using Mod     = std::function<m::Source(m::Source)>;
    template<typename F>
    struct SOp
    {
        F           real;
        Mod         model;
        std::string d;
        int         sync = -1; // -1: as before
    };
    template<typename F>
    SOp(F, Mod, std::string, int) -> SOp<F>;
    inline std::string n(size_t x) { return std::to_string(x); }
    inline size_t      small(Env& e) { return static_cast<size_t>(e.g.size(4, 9)); }
    inline size_t      sel(int v, size_t k) { return static_cast<size_t>(((v % static_cast<int>(k)) + static_cast<int>(k)) % static_cast<int>(k)); }
#define R [=](auto&& o)
#define O std::forward<decltype(o)>(o)
#define MS [=](m::Source s) -> m::Source
#define OP(NAME) struct NAME { static auto make(Env& e, [[maybe_unused]] bool sync)
#define END };

    // callables: by const reference, by value (stealing), by rvalue when they can get one
    struct ByVal
    {
        Fn<F1> f;
        Tok    t{};
        V      operator()(V v) const
        {
            f.fl->real();
            V w{std::move(v)};
            w = V{f.f(w.get())};
            return w;
        }
    };
    struct Fwd // steals only what it is given
    {
        Fn<F1> f;
        Tok    t{};
        template<typename T>
        V operator()(T&& v) const
        {
            f.fl->real();
            const int x = v.get();
            if constexpr (!std::is_lvalue_reference_v<T>)
            {
                V w{std::move(v)};
                w = V{f.f(x)};
                return w;
            }
            else
                return V{f.f(x)};
        }
    };
    struct PredVal
    {
        Fn<Pr> f;
        Tok    t{};
        bool   operator()(V v) const
        {
            f.fl->real();
            V w{std::move(v)};
            return f.f(w.get());
        }
    };

    OP(Map) { auto f = gen_f1(e); return SOp{R { return O | ops::map(RF1{f}); }, MS { return m::map<int, int>(s, model_of(f)); }, " | map(" + f.d + ")", -1}; } END
    OP(MapVal) { auto f = gen_f1(e); return SOp{R { return O | ops::map(ByVal{f}); }, MS { return m::map<int, int>(s, model_of(f)); }, " | map(by value, " + f.d + ")", -1}; } END
    OP(MapFwd) { auto f = gen_f1(e); return SOp{R { return O | ops::map(Fwd{f}); }, MS { return m::map<int, int>(s, model_of(f)); }, " | map(forwarding, " + f.d + ")", -1}; } END
    OP(MapPtr) { auto f = gen_f1(e); return SOp{R { return O | ops::map([f, t = Tok{}](const V& v) { f.fl->real(); return std::make_unique<int>(f.f(v.get())); }) | ops::tap([](const std::unique_ptr<int>&) {}) | ops::map([t = Tok{}](std::unique_ptr<int>&& v) { auto w = std::move(v); return V{*w}; }); }, MS { return m::map<int, int>(s, model_of(f)); }, " | map(" + f.d + ", uptr) | tap | map", -1}; } END
    OP(Filter) { auto f = gen_pred(e); return SOp{R { return O | ops::filter(RPr{f}); }, MS { return m::filter(s, model_of(f)); }, " | filter(" + f.d + ")", -1}; } END
    OP(FilterVal) { auto f = gen_pred(e); return SOp{R { return O | ops::filter(PredVal{f}); }, MS { return m::filter(s, model_of(f)); }, " | filter(by value, " + f.d + ")", -1}; } END
    OP(Take) { const size_t k = small(e); return SOp{R { return O | ops::take(k); }, MS { return m::take(s, k); }, " | take(" + n(k) + ")", -1}; } END
    OP(Skip) { const size_t k = small(e); return SOp{R { return O | ops::skip(k); }, MS { return m::skip(s, k); }, " | skip(" + n(k) + ")", -1}; } END
    OP(TakeWhile) { auto f = gen_pred(e); return SOp{R { return O | ops::take_while(RPr{f}); }, MS { return m::take_while(s, model_of(f)); }, " | take_while(" + f.d + ")", -1}; } END
    OP(TakeWhileVal) { auto f = gen_pred(e); return SOp{R { return O | ops::take_while(PredVal{f}); }, MS { return m::take_while(s, model_of(f)); }, " | take_while(by value, " + f.d + ")", -1}; } END
    OP(TakeLast) { const size_t k = small(e); return SOp{R { return O | ops::take_last(k); }, MS { return m::take_last(s, k); }, " | take_last(" + n(k) + ")", -1}; } END
    OP(ElementAt) { const size_t k = small(e); return SOp{R { return O | ops::element_at(k); }, MS { return m::element_at(s, k); }, " | element_at(" + n(k) + ")", -1}; } END
    OP(First) { (void) e; return SOp{R { return O | ops::first(); }, MS { return m::first(s); }, " | first", -1}; } END
    OP(Last) { (void) e; return SOp{R { return O | ops::last(); }, MS { return m::last(s); }, " | last", -1}; } END
    OP(Distinct) { (void) e; return SOp{R { return O | ops::distinct(); }, MS { return m::distinct(s); }, " | distinct", -1}; } END
    OP(Duc) { (void) e; return SOp{R { return O | ops::distinct_until_changed(); }, MS { return m::distinct_until_changed(s, [](int a, int b) { return a == b; }); }, " | distinct_until_changed", -1}; } END
    OP(DucVal)
    {
        auto fl = e.fault();
        return SOp{R { return O | ops::distinct_until_changed([fl, t = Tok{}](V a, V b) { fl->real(); V x{std::move(a)}, y{std::move(b)}; return x.get() % 3 == y.get() % 3; }); },
                   MS { return m::distinct_until_changed(s, [fl](int a, int b) { fl->model(); return a % 3 == b % 3; }); }, " | distinct_until_changed(by value, %3" + fault_note(fl) + ")", -1};
    } END
    OP(ScanSeed)
    {
        auto f = gen_f2(e);
        const int x = e.val();
        return SOp{R { return O | ops::scan(V{x}, [f, t = Tok{}](V&& a, V b) { f.fl->real(); const int r = f.f(a.get(), b.get()); V o{std::move(a)}; o = V{r}; return o; }); },
                   MS { return m::scan(s, x, model_of(f)); }, " | scan(" + std::to_string(x) + "," + f.d + ")", 1};
    } END
    OP(Scan)
    {
        auto f = gen_f2(e);
        return SOp{R { return O | ops::scan([f, t = Tok{}](V a, V b) { f.fl->real(); V x{std::move(a)}, y{std::move(b)}; return V{f.f(x.get(), y.get())}; }); },
                   MS { return m::scan(s, std::nullopt, model_of(f)); }, " | scan(" + f.d + ")", -1};
    } END
    OP(ReduceSeed)
    {
        auto f = gen_f2(e);
        const int x = e.val();
        return SOp{R { return O | ops::reduce(V{x}, [f, t = Tok{}](V a, const V& b) { f.fl->real(); return V{f.f(a.get(), b.get())}; }); },
                   MS { return m::reduce(s, x, model_of(f)); }, " | reduce(" + std::to_string(x) + "," + f.d + ")", -1};
    } END
    OP(Reduce)
    {
        auto f = gen_f2(e);
        return SOp{R { return O | ops::reduce([f, t = Tok{}](V&& a, V b) { f.fl->real(); V x{std::move(a)}, y{std::move(b)}; return V{f.f(x.get(), y.get())}; }); },
                   MS { return m::reduce(s, std::nullopt, model_of(f)); }, " | reduce(" + f.d + ")", -1};
    } END
    struct DigVec
    {
        Tok t{};
        V   operator()(std::vector<V> v) const
        {
            m::Vec x;
            for (auto& i : v)
            {
                V w{std::move(i)};
                x.push_back(w.get());
            }
            return V{digest(x)};
        }
    };
    OP(Buffer) { const size_t k = small(e); return SOp{R { return O | ops::buffer(k) | ops::map(DigVec{}); }, MS { return m::map<m::Vec, int>(m::buffer(s, k), [](const m::Vec& v) { return digest(v); }); }, " | buffer(" + n(k) + ")", -1}; } END
    template<bool ByValue>
    struct TapT
    {
        static auto make(Env& e, bool)
        {
            auto fl = e.fault();
            auto c  = std::make_shared<Counter>();
            e.w.counters.push_back(c);
            using A = std::conditional_t<ByValue, V, const V&>;
            return SOp{R { return O | ops::tap([c, fl, t = Tok{}](A v) { fl->real(); const int x = v.get(); if constexpr (ByValue) { V w{std::move(v)}; w = V{-5}; } c->r = (c->r * 5 + x + 1) % 100003; },
                                               [c, t = Tok{}](const std::exception_ptr& x) { c->r = (c->r * 7 + error_code(x)) % 100003; }, [c, t = Tok{}] { c->r = (c->r * 11 + 4) % 100003; }); },
                       MS { return m::tap(s, [c, fl](int v) { fl->model(); c->m = (c->m * 5 + v + 1) % 100003; }, [c](int x) { c->m = (c->m * 7 + x) % 100003; }, [c] { c->m = (c->m * 11 + 4) % 100003; }); },
                       std::string{" | tap"} + (ByValue ? "(by value)" : "") + fault_note(fl), -1};
        }
    };
    using Tap    = TapT<false>;
    using TapVal = TapT<true>;
    OP(StartWithValues)
    {
        const int a = e.val(), b = e.val();
        return SOp{R { return O | ops::start_with(rpp::schedulers::immediate{}, V{a}, V{b}); }, MS { return m::concat(m::of_sources({m::cold({a, b}, 1), s})); }, " | start_with(" + list({a, b}) + ")", 1};
    } END

    // ---- inner observables ----
    // Static: wrapped in an operator, so that its type is not the dynamic one
    template<bool Static>
    struct Inner
    {
        P      p;
        size_t k;
        static Inner make(Env& e)
        {
            Inner i{std::move(make_inners(e, 1, 1)[0]), Static ? small(e) + 1 : 0};
            return i;
        }
        auto real() const
        {
            if constexpr (Static)
                return p.r | ops::take(k) | ops::tap([t = Tok{}](const V&) {});
            else
                return p.r;
        }
        m::Source model() const { return Static ? m::take(p.m, k) : p.m; }
        std::string d() const { return p.d + (Static ? " | take(" + n(k) + ") | tap" : ""); }
        bool sync() const { return p.sync; }
    };
    template<bool S>
    struct Inners
    {
        std::vector<Inner<S>> in;
        FaultP                fl;
        using Obs = decltype(std::declval<Inner<S>>().real());
        static Inners make(Env& e)
        {
            Inners r;
            for (int k = e.g.range(1, 2); k > 0; --k)
                r.in.push_back(Inner<S>::make(e));
            r.fl = e.fault();
            return r;
        }
        template<typename Arg, typename Code>
        auto pick(Code code) const
        {
            std::vector<Obs> o;
            for (auto& i : in)
                o.push_back(i.real());
            return [o, fl = fl, code, t = Tok{}](Arg v) { fl->real(); return o[sel(code(v), o.size())]; };
        }
        auto real() const
        {
            return pick<V>([](const V& v) { return v.get(); });
        }
        std::function<m::Source(const int&)> model() const
        {
            std::vector<m::Source> s;
            for (auto& i : in)
                s.push_back(i.model());
            return [s, fl = fl](const int& v) { fl->model(); return s[sel(v, s.size())]; };
        }
        std::string d() const
        {
            std::string r = "{";
            for (auto& i : in)
                r += (r.size() > 1 ? ", " : "") + i.d();
            return r + fault_note(fl) + "}";
        }
        bool sync() const
        {
            bool b = false;
            for (auto& i : in)
                b |= i.sync();
            return b;
        }
    };
#define FLAT(NAME, REAL, MODEL, D)                                                                                                       \
    template<bool S>                                                                                                                    \
    struct NAME                                                                                                                         \
    {                                                                                                                                   \
        static auto make(Env& e, bool sync)                                                                                            \
        {                                                                                                                               \
            auto in = Inners<S>::make(e);                                                                                               \
            return SOp{R { return REAL; }, MS { return MODEL(m::map<int, m::Source>(s, in.model())); }, D + in.d(), sync || in.sync()}; \
        }                                                                                                                               \
    };
    FLAT(FlatMap, O | ops::flat_map(in.real()), m::merge, " | flat_map")
    FLAT(MapMerge, O | ops::map(in.real()) | ops::merge(), m::merge, " | merge of ")
    FLAT(MapConcat, O | ops::map(in.real()) | ops::concat(), m::concat, " | concat of ")
    FLAT(MapSwitch, O | ops::map(in.real()) | ops::switch_on_next(), m::switch_on_next, " | switch_on_next of ")

    struct Dig
    {
        FaultP fl;
        Tok    t{};
        template<typename... Ts>
        V operator()(Ts&&... vs) const // takes what it is given as an rvalue
        {
            fl->real();
            const int d = digest(m::Vec{vs.get()...});
            (steal(std::forward<Ts>(vs)), ...);
            return V{d};
        }
        template<typename T>
        static void steal(T&& v)
        {
            if constexpr (!std::is_lvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>)
                V w{std::move(v)};
        }
    };
    struct DigVal
    {
        FaultP fl;
        Tok    t{};
        V operator()(V a, V b) const
        {
            fl->real();
            V x{std::move(a)}, y{std::move(b)};
            return V{digest(m::Vec{x.get(), y.get()})};
        }
    };
    struct DigTup
    {
        Tok t{};
        template<typename T>
        V operator()(T&& tp) const
        {
            auto taken = std::forward<T>(tp);
            if constexpr (requires { taken.template get<0>(); })
                return V{digest(m::Vec{taken.template get<0>().get(), taken.template get<1>().get()})};
            else
                return std::apply([](const auto&... vs) { return V{digest(m::Vec{vs.get()...})}; }, taken);
        }
    };
#define COMB(NAME, OPER, ORDER)                                                                                                                                        \
    template<bool S, int Form>                                                                                                                                        \
    struct NAME                                                                                                                                                       \
    {                                                                                                                                                                 \
        static auto make(Env& e, bool sync)                                                                                                                          \
        {                                                                                                                                                             \
            auto in = Inner<S>::make(e);                                                                                                                              \
            auto fl = Form == 2 ? std::make_shared<Fault>() : e.fault();                                                                                              \
            return SOp{R {                                                                                                                                            \
                           if constexpr (Form == 0)                                                                                                                   \
                               return O | ops::OPER(Dig{fl}, in.real());                                                                                              \
                           else if constexpr (Form == 1)                                                                                                              \
                               return O | ops::OPER(DigVal{fl}, in.real());                                                                                           \
                           else                                                                                                                                       \
                               return O | ops::OPER(in.real()) | ops::map(DigTup{});                                                                                  \
                       },                                                                                                                                             \
                       MS { return m::OPER(std::vector<m::Source>{s, in.model()}, comb_model(fl) ORDER); }, std::string{" | " #OPER "("} + in.d() + fault_note(fl) + ")", sync || in.sync()}; \
        }                                                                                                                                                             \
    };
#define COMMA ,
    COMB(CombineLatest, combine_latest, COMMA(std::vector<int>{1 COMMA 0}))
    COMB(Zip, zip, COMMA(std::vector<int>{1 COMMA 0}))
    COMB(WithLatest, with_latest_from, )

#define WITH(NAME, REAL, MODEL, D)                                                                     \
    template<bool S>                                                                                   \
    struct NAME                                                                                        \
    {                                                                                                  \
        static auto make(Env& e, bool sync)                                                           \
        {                                                                                              \
            auto in = Inner<S>::make(e);                                                               \
            return SOp{R { return REAL; }, MS { return MODEL; }, D + in.d() + ")", sync || in.sync()}; \
        }                                                                                              \
    };
    WITH(TakeUntil, O | ops::take_until(in.real()), m::take_until(s, in.model()), " | take_until(")
    WITH(MergeWith, O | ops::merge_with(in.real()), m::merge(m::of_sources({s, in.model()})), " | merge_with(")
    WITH(StartWith, O | ops::start_with(in.real()), m::concat(m::of_sources({in.model(), s})), " | start_with(")
    WITH(ConcatWith, rpp::source::concat(O, in.real()), m::concat(m::of_sources({s, in.model()})), " concat with (")

    // windows and groups
    struct SubR
    {
        int    limit;
        std::shared_ptr<Counter> c;
        Tok    t{};
        template<typename W>
        auto operator()(W&& w) const
        {
            const int idx = c->r++;
            return std::forward<W>(w) | ops::take(static_cast<size_t>(limit)) | ops::map([idx, t = Tok{}](V v) { V x{std::move(v)}; return V{idx * 1000 + x.get()}; });
        }
    };
    inline std::function<m::Source(const m::Source&)> sub_m(int limit, std::shared_ptr<Counter> c)
    {
        return [limit, c](const m::Source& w) {
            const int idx = c->m++;
            return m::map<int, int>(m::take(w, static_cast<size_t>(limit)), [idx](int v) { return idx * 1000 + v; });
        };
    }
    template<int How, typename Ob>
    auto flat_r(Ob&& o)
    {
        if constexpr (How == 0)
            return std::forward<Ob>(o) | ops::merge();
        else if constexpr (How == 1)
            return std::forward<Ob>(o) | ops::switch_on_next();
        else
            return std::forward<Ob>(o) | ops::concat();
    }
    template<int How>
    m::Source flat_m(m::SourceT<m::Source> s)
    {
        return How == 0 ? m::merge(s) : How == 1 ? m::switch_on_next(s) : m::concat(s);
    }
    template<int How>
    struct Window
    {
        static auto make(Env& e, bool)
        {
            const size_t k     = static_cast<size_t>(e.g.range(0, 4));
            const int    limit = e.g.range(1, 5);
            auto         c     = std::make_shared<Counter>();
            e.w.counters.push_back(c);
            return SOp{R { return flat_r<How>(O | ops::window(k) | ops::map(SubR{limit, c})); }, MS { return flat_m<How>(m::map<m::Source, m::Source>(m::window(s, k), sub_m(limit, c))); },
                       " | window(" + n(k) + ") each take(" + n(static_cast<size_t>(limit)) + ") flattened " + n(How), -1};
        }
    };
    template<bool S, int How>
    struct WindowToggle
    {
        static auto make(Env& e, bool sync)
        {
            auto      op    = Inner<S>::make(e);
            auto      cl    = Inners<S>::make(e);
            const int limit = e.g.range(1, 5);
            auto      c     = std::make_shared<Counter>();
            e.w.counters.push_back(c);
            return SOp{R { return flat_r<How>(O | ops::window_toggle(op.real(), cl.real()) | ops::map(SubR{limit, c})); },
                       MS { return flat_m<How>(m::map<m::Source, m::Source>(m::window_toggle(s, op.model(), cl.model()), sub_m(limit, c))); },
                       " | window_toggle(" + op.d() + ", " + cl.d() + ") each take(" + n(static_cast<size_t>(limit)) + ") flattened " + n(How), sync || op.sync() || cl.sync()};
        }
    };
    template<bool Val, bool Flat>
    struct GroupBy
    {
        static auto make(Env& e, bool)
        {
            const int k     = e.g.range(1, 4);
            const int limit = e.g.range(1, 6);
            auto      kf    = e.fault();
            auto      vf    = Val ? gen_f1(e) : Fn<F1>{[](int x) { return x; }, std::make_shared<Fault>(), ""};
            auto      key   = [k](int x) { return ((x % k) + k) % k; };
            auto      kr    = [key, kf, t = Tok{}](V v) { kf->real(); V w{std::move(v)}; return key(w.get()); };
            auto      each  = [limit, t = Tok{}](const auto& g) { const int idx = g.get_key(); return g | ops::take(static_cast<size_t>(limit)) | ops::map([idx, t = Tok{}](V v) { V x{std::move(v)}; return V{idx * 1000 + x.get()}; }); };
            return SOp{R {
                           auto fin = [&](auto&& g) {
                               if constexpr (Flat)
                                   return std::forward<decltype(g)>(g) | ops::flat_map(each);
                               else
                                   return std::forward<decltype(g)>(g) | ops::map(each) | ops::switch_on_next();
                           };
                           if constexpr (Val)
                               return fin(O | ops::group_by(kr, ByVal{vf}));
                           else
                               return fin(O | ops::group_by(kr));
                       },
                       MS {
                           auto mk = [key, kf](int x) { kf->model(); return key(x); };
                           auto mo = m::map<m::Group, m::Source>(m::group_by(s, mk, Val ? model_of(vf) : F1{[](int x) { return x; }}, false), [limit](const m::Group& g) {
                               const int idx = g.key;
                               return m::map<int, int>(m::take(g.src, static_cast<size_t>(limit)), [idx](int v) { return idx * 1000 + v; });
                           });
                           return flat_m<Flat ? 0 : 1>(mo);
                       },
                       " | group_by(%" + n(static_cast<size_t>(k)) + fault_note(kf) + (Val ? ", " + vf.d : "") + ") each take(" + n(static_cast<size_t>(limit)) + ") flattened " + (Flat ? "0" : "1"), -1};
        }
    };
    // resubscribing
    OP(Retry) { const size_t k = static_cast<size_t>(e.g.range(0, 3)); return SOp{R { return O | ops::retry(k); }, MS { return m::retry(s, k); }, " | retry(" + n(k) + ")", -1}; } END
    OP(Repeat) { const size_t k = static_cast<size_t>(e.g.range(0, 3)); return SOp{R { return O | ops::repeat(k); }, MS { return m::repeat(s, k); }, " | repeat(" + n(k) + ")", 1}; } END
    template<bool S>
    struct ResumeNext
    {
        static auto make(Env& e, bool sync)
        {
            auto in = Inners<S>::make(e);
            return SOp{R { return O | ops::on_error_resume_next(in.template pick<const std::exception_ptr&>([](const std::exception_ptr& x) { return error_code(x); })); },
                       MS { return m::on_error_resume_next(s, in.model()); }, " | on_error_resume_next" + in.d(), sync || in.sync()};
        }
    };
    struct RetryWhen
    {
        static auto make(Env& e, bool sync)
        {
            P    p  = make_probe_quiet(e);
            auto fl = e.fault();
            return SOp{R { return O | ops::retry_when([r = p.r | ops::tap([t = Tok{}](const V&) {}), fl](const std::exception_ptr&) { fl->real(); return r; }); },
                       MS { return m::retry_when(s, [mm = p.m, fl](int) { fl->model(); return mm; }); }, " | retry_when(" + p.d + fault_note(fl) + ")", sync};
        }
    };
    // counts subscriptions that were over before they got here: a static chain makes them, an erased one stops earlier
    struct MarkStillborn
    {
        std::shared_ptr<Counter> c;
        template<rpp::constraint::decayed_type T>
        struct operator_traits
        {
            using result_type = T;
        };
        template<rpp::details::observables::constraint::disposable_strategy Prev>
        using updated_disposable_strategy = Prev;
        template<rpp::constraint::decayed_type T, rpp::constraint::observer Ob>
        auto lift(Ob&& o) const
        {
            if (o.is_disposed())
                ++c->stillborn;
            return std::decay_t<Ob>{std::forward<Ob>(o)};
        }
    };
    OP(Finally)
    {
        auto c = std::make_shared<Counter>();
        e.w.finals.push_back(c);
        return SOp{R { return O | ops::finally([c, t = Tok{}]() noexcept { ++c->r; }) | MarkStillborn{c}; }, MS { return m::finally_(s, [c] { ++c->m; }); }, " | finally", -1};
    } END
    // composition and erasure that must not matter
    OP(AsDynamic) { (void) e; return SOp{R { return O.as_dynamic(); }, MS { return s; }, " .dynamic", -1}; } END
    OP(Variant)
    {
        const bool dyn = e.g.coin();
        return SOp{R {
                       using Ob = std::decay_t<decltype(o)>;
                       if constexpr (std::is_same_v<Ob, DynObs>)
                       {
                           using T = decltype(rpp::source::empty<V>());
                           using VO = rpp::variant_observable<V, T, Ob>;
                           (void) dyn;
                           return VO{O};
                       }
                       else
                       {
                           using VO = rpp::variant_observable<V, Ob, DynObs>;
                           if (dyn)
                               return VO{O.as_dynamic()};
                           return VO{O};
                       }
                   },
                   MS { return s; }, std::string{" .variant("} + (dyn ? "dynamic" : "static") + ")", -1};
    } END
    OP(Deferred) { (void) e; return SOp{R { return rpp::source::defer([c = O, t = Tok{}] { return c; }); }, MS { return s; }, " .deferred", -1}; } END
    OP(SubscribeOn) { (void) e; return SOp{R { return O | ops::subscribe_on(rpp::schedulers::immediate{}); }, MS { return s; }, " | subscribe_on(immediate)", -1}; } END
    OP(ObserveOn) { (void) e; return SOp{R { return O | ops::observe_on(rpp::schedulers::immediate{}); }, MS { return s; }, " | observe_on(immediate)", -1}; } END
    OP(Wrapped) { (void) e; return SOp{R { return rpp::source::create<V>([c = O, t = Tok{}](auto&& obs) { c.subscribe(std::forward<decltype(obs)>(obs)); }); }, MS { return s; }, " .wrapped in create", -1}; } END
    OP(ByDynObserver) { (void) e; return SOp{R { return rpp::source::create<V>([c = O, t = Tok{}](auto&& obs) { c.subscribe(std::forward<decltype(obs)>(obs).as_dynamic()); }); }, MS { return s; }, " .observed through a dynamic observer", -1}; } END

    // several operators given as one
    template<typename... Ops>
    struct Group;
    template<typename A>
    struct Group<A>
    {
        static auto make(Env& e, bool sync) { return A::make(e, sync); }
    };
    template<typename A, typename... Rest>
    struct Group<A, Rest...>
    {
        static auto make(Env& e, bool sync)
        {
            auto a = A::make(e, sync);
            auto b = Group<Rest...>::make(e, a.sync == -1 ? sync : a.sync == 1);
            const int sy = b.sync == -1 ? a.sync : b.sync;
            return SOp{[ra = a.real, rb = b.real](auto&& o) { return rb(ra(std::forward<decltype(o)>(o))); }, [ma = a.model, mb = b.model](m::Source s) -> m::Source { return mb(ma(s)); }, " | composed(" + a.d + b.d + " )", sy};
        }
    };

    // ---- sources ----
    template<typename Ob>
    struct Src
    {
        Ob          r;
        m::Source   m;
        std::string d;
        bool        sync;
    };
    template<typename Ob>
    Src(Ob, m::Source, std::string, bool) -> Src<Ob>;
    struct SrcDyn
    {
        static auto make(Env& e)
        {
            P p = make_source(e);
            return Src{p.r, p.m, p.d, p.sync};
        }
    };
    struct SrcStatic
    {
        static auto make(Env& e)
        {
            P p = make_source(e);
            return Src{rpp::source::create<V>([r = p.r, t = Tok{}](auto&& o) { r.subscribe(std::forward<decltype(o)>(o)); }), p.m, p.d, p.sync};
        }
    };
    inline m::Vec values(Env& e, int lo, int hi)
    {
        m::Vec v;
        for (int k = e.g.range(lo, hi); k > 0; --k)
            v.push_back(e.val());
        return v;
    }
    struct SrcSync // emits inside subscribe through the static observer: copies, constants, its own objects, temporaries
    {
        static auto make(Env& e)
        {
            auto      v    = values(e, 0, 5);
            const int term = e.g.chance(1, 3) ? e.g.range(2, 9) : 1;
            const int cat  = static_cast<int>(e.g.below(4));
            static const char* nm[] = {"temporaries", "constants", "its own objects", "each in turn"};
            return Src{rpp::source::create<V>([v, term, cat, t = Tok{}](auto&& o) {
                           int i = 0;
                           for (int x : v)
                           {
                               if (o.is_disposed())
                                   return;
                               const int c = cat == 3 ? i++ % 3 : cat;
                               if (c == 0)
                                   o.on_next(V{x});
                               else if (c == 1)
                               {
                                   const V k{x};
                                   o.on_next(k);
                                   if (k.get() != x)
                                       pbt::fail_soft("a constant object was changed");
                               }
                               else
                               {
                                   V k{x};
                                   o.on_next(k);
                                   if (k.moved() || k.get() != x)
                                       pbt::fail_soft("an object passed by reference was %s", k.moved() ? "moved from" : "changed");
                               }
                           }
                           if (term == 1)
                               o.on_completed();
                           else
                               o.on_error(make_error(term));
                       }),
                       m::cold(v, term), "create(" + list(v) + (term == 1 ? "" : ",#" + std::to_string(term)) + ", " + nm[cat] + ")", true};
        }
    };
    template<typename Mem>
    struct SrcIterT
    {
        static auto make(Env& e)
        {
            auto           v = values(e, 0, 5);
            std::vector<V> vv;
            for (int x : v)
                vv.emplace_back(x);
            return Src{rpp::source::from_iterable<Mem>(vv, rpp::schedulers::immediate{}), m::cold(v, 1), "from(" + list(v) + ")", true};
        }
    };
    using SrcIter       = SrcIterT<rpp::memory_model::use_stack>;
    using SrcIterShared = SrcIterT<rpp::memory_model::use_shared>;
    template<typename Mem>
    struct SrcJustT
    {
        static auto make(Env& e)
        {
            const int a = e.val(), b = e.val();
            return Src{rpp::source::just<Mem>(rpp::schedulers::immediate{}, V{a}, V{b}), m::cold({a, b}, 1), "just(" + list({a, b}) + ")", true};
        }
    };
    using SrcJust       = SrcJustT<rpp::memory_model::use_stack>;
    using SrcJustShared = SrcJustT<rpp::memory_model::use_shared>;

    const DynObs& never();
    // Form: how the subscriber is attached to the static chain (4: after erasure)
    template<int Form, typename Ob>
    P finish(Ob r, m::Source ms, std::string d, bool sync)
    {
        if constexpr (Form == 4)
            return {r.as_dynamic(), ms, d, sync};
        P p{never(), ms, d, sync};
        p.direct = [r](const SinkP& s, int how) {
            auto nx = [s, t = Tok{}](auto&& v) {
                const int x = v.get();
                if constexpr (!std::is_lvalue_reference_v<decltype(v)> && !std::is_const_v<std::remove_reference_t<decltype(v)>>)
                    if (s->steal)
                    {
                        V stolen{std::move(v)};
                        stolen = V{-7};
                    }
                s->real({K::next, x});
            };
            auto nv = [nx](V v) { nx(std::move(v)); };
            auto er = [s, t = Tok{}](const std::exception_ptr& err) { s->real({K::error, error_code(err)}); };
            auto co = [s, t = Tok{}] { s->real({K::done, 0}); };
            (void) how;
            if constexpr (Form == 3)
                s->d = r.subscribe_with_disposable(nv, er, co);
            else
            {
                s->d = rpp::composite_disposable_wrapper::make();
                if constexpr (Form == 0)
                    r.subscribe(s->d, nx, er, co);
                else if constexpr (Form == 1)
                    r.subscribe(s->d, rpp::make_lambda_observer<V>(nx, er, co));
                else
                    r.subscribe(rpp::make_lambda_observer<V>(s->d, nx, er, co).as_dynamic());
            }
        };
        p.direct_late = Form == 3;
        return p;
    }
    template<int Form, typename Ob>
    P go(Env&, Ob r, m::Source ms, std::string d, bool sync)
    {
        return finish<Form>(std::move(r), ms, d, sync);
    }
    template<int Form, typename A, typename... Rest, typename Ob>
    P go(Env& e, Ob r, m::Source ms, std::string d, bool sync)
    {
        auto a = A::make(e, sync);
        const bool sy = a.sync == -1 ? sync : a.sync == 1;
        if (e.w.probes.size() % 2) // the copying and the moving composition
        {
            const Ob& c = r;
            return go<Form, Rest...>(e, a.real(c), a.model(ms), d + a.d, sy);
        }
        return go<Form, Rest...>(e, a.real(std::move(r)), a.model(ms), d + a.d, sy);
    }
    template<int Form, typename Source, typename... Ops>
    P chain(Env& e)
    {
        auto s = Source::make(e);
        ++e.depth;
        P p = go<Form, Ops...>(e, std::move(s.r), s.m, s.d, s.sync);
        --e.depth;
        return p;
    }
    using ChainFn = P (*)(Env&);
    const std::vector<ChainFn>& chains();
#undef R
#undef O
#undef MS
#undef OP
#undef END
}
