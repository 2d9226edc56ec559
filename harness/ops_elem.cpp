#include "opsutil.hpp"
#include <rpp/operators/buffer.hpp>
#include <rpp/operators/distinct.hpp>
#include <rpp/operators/distinct_until_changed.hpp>
#include <rpp/operators/element_at.hpp>
#include <rpp/operators/filter.hpp>
#include <rpp/operators/first.hpp>
#include <rpp/operators/last.hpp>
#include <rpp/operators/map.hpp>
#include <rpp/operators/reduce.hpp>
#include <rpp/operators/scan.hpp>
#include <rpp/operators/skip.hpp>
#include <rpp/operators/start_with.hpp>
#include <rpp/operators/take.hpp>
#include <rpp/operators/take_last.hpp>
#include <rpp/operators/take_while.hpp>
#include <rpp/operators/tap.hpp>
#include <rpp/schedulers/immediate.hpp>

namespace h
{
    namespace ops = rpp::operators;

    static std::string n(size_t x) { return std::to_string(x); }
    static size_t      small_count(Env& e) { return static_cast<size_t>(e.g.size(4, 9)); }

    static P op_map(Env& e, P p)
    {
        auto f = gen_f1(e);
        DynObs r = e.g.coin() ? (p.r | ops::map(RF1{f})).as_dynamic() : (p.r | ops::map(RF1val{f})).as_dynamic();
        return {r, m::map<int, int>(p.m, model_of(f)), p.d + " | map(" + f.d + ")", p.sync};
    }
    static P op_map_twice(Env& e, P p)
    {
        // the mapped stream goes through another type and back
        auto f = gen_f1(e);
        auto g = gen_f1(e);
        DynObs r = (std::move(p.r) | ops::map([f, t = Tok{}](const V& v) { f.fl->real(); return std::make_unique<int>(f.f(v.get())); }) | ops::map([g, t = Tok{}](const std::unique_ptr<int>& v) { g.fl->real(); return V{g.f(*v)}; })).as_dynamic();
        return {r, m::map<int, int>(m::map<int, int>(p.m, model_of(f)), model_of(g)), p.d + " | map(" + f.d + ",uptr) | map(" + g.d + ")", p.sync};
    }
    static P op_filter(Env& e, P p)
    {
        auto f = gen_pred(e);
        return {(p.r | ops::filter(RPr{f})).as_dynamic(), m::filter(p.m, model_of(f)), p.d + " | filter(" + f.d + ")", p.sync};
    }
    static P op_take(Env& e, P p)
    {
        const size_t k = small_count(e);
        return {(p.r | ops::take(k)).as_dynamic(), m::take(p.m, k), p.d + " | take(" + n(k) + ")", p.sync};
    }
    static P op_skip(Env& e, P p)
    {
        const size_t k = small_count(e);
        return {(p.r | ops::skip(k)).as_dynamic(), m::skip(p.m, k), p.d + " | skip(" + n(k) + ")", p.sync};
    }
    static P op_take_while(Env& e, P p)
    {
        auto f = gen_pred(e);
        return {(p.r | ops::take_while(RPr{f})).as_dynamic(), m::take_while(p.m, model_of(f)), p.d + " | take_while(" + f.d + ")", p.sync};
    }
    static P op_take_last(Env& e, P p)
    {
        const size_t k = small_count(e);
        return {(p.r | ops::take_last(k)).as_dynamic(), m::take_last(p.m, k), p.d + " | take_last(" + n(k) + ")", p.sync};
    }
    static P op_element_at(Env& e, P p)
    {
        const size_t k = small_count(e);
        return {(p.r | ops::element_at(k)).as_dynamic(), m::element_at(p.m, k), p.d + " | element_at(" + n(k) + ")", p.sync};
    }
    static P op_first(Env&, P p) { return {(p.r | ops::first()).as_dynamic(), m::first(p.m), p.d + " | first", p.sync}; }
    static P op_last(Env&, P p) { return {(p.r | ops::last()).as_dynamic(), m::last(p.m), p.d + " | last", p.sync}; }
    static P op_distinct(Env&, P p) { return {(p.r | ops::distinct()).as_dynamic(), m::distinct(p.m), p.d + " | distinct", p.sync}; }
    static P op_duc(Env& e, P p)
    {
        if (e.g.coin())
            return {(p.r | ops::distinct_until_changed()).as_dynamic(), m::distinct_until_changed(p.m, [](int a, int b) { return a == b; }), p.d + " | distinct_until_changed", p.sync};
        auto      fl = e.fault();
        const int k  = e.g.range(1, 3);
        const bool close = e.g.coin(); // "equal" when same residue, or when the new one is not larger (not an equivalence)
        auto eq = [k, close](int a, int b) { return close ? b <= a : a % k == b % k; };
        return {(p.r | ops::distinct_until_changed([fl, eq, t = Tok{}](const V& a, const V& b) { fl->real(); return eq(a.get(), b.get()); })).as_dynamic(),
                m::distinct_until_changed(p.m, [fl, eq](int a, int b) { fl->model(); return eq(a, b); }), p.d + " | distinct_until_changed(" + (close ? "b<=a" : "%" + n(static_cast<size_t>(k))) + fault_note(fl) + ")", p.sync};
    }
    static P op_scan_seed(Env& e, P p)
    {
        auto      f = gen_f2(e);
        const int s = e.val();
        DynObs    r = e.g.coin()
                     ? (p.r | ops::scan(V{s}, [f, t = Tok{}](V a, const V& b) { f.fl->real(); return V{f.f(a.get(), b.get())}; })).as_dynamic()
                     : (p.r | ops::scan(V{s}, [f, t = Tok{}](V&& a, V b) { f.fl->real(); const int x = f.f(a.get(), b.get()); V o{std::move(a)}; o = V{x}; return o; })).as_dynamic();
        return {r, m::scan(p.m, s, model_of(f)), p.d + " | scan(" + std::to_string(s) + "," + f.d + ")", true};
    }
    static P op_scan(Env& e, P p)
    {
        auto f = gen_f2(e);
        return {(p.r | ops::scan([f, t = Tok{}](V a, const V& b) { f.fl->real(); return V{f.f(a.get(), b.get())}; })).as_dynamic(), m::scan(p.m, std::nullopt, model_of(f)), p.d + " | scan(" + f.d + ")", p.sync};
    }
    static P op_reduce_seed(Env& e, P p)
    {
        auto      f = gen_f2(e);
        const int s = e.val();
        return {(p.r | ops::reduce(V{s}, [f, t = Tok{}](V a, const V& b) { f.fl->real(); return V{f.f(a.get(), b.get())}; })).as_dynamic(), m::reduce(p.m, s, model_of(f)), p.d + " | reduce(" + std::to_string(s) + "," + f.d + ")", p.sync};
    }
    static P op_reduce(Env& e, P p)
    {
        auto f = gen_f2(e);
        return {(p.r | ops::reduce([f, t = Tok{}](V&& a, V b) { f.fl->real(); return V{f.f(a.get(), b.get())}; })).as_dynamic(), m::reduce(p.m, std::nullopt, model_of(f)), p.d + " | reduce(" + f.d + ")", p.sync};
    }
    static P op_buffer(Env& e, P p)
    {
        const size_t k = small_count(e);
        return {(p.r | ops::buffer(k) | ops::map([t = Tok{}](const std::vector<V>& v) { m::Vec x; for (auto& i : v) x.push_back(i.get()); return V{digest(x)}; })).as_dynamic(),
                m::map<m::Vec, int>(m::buffer(p.m, k), [](const m::Vec& v) { return digest(v); }), p.d + " | buffer(" + n(k) + ")", p.sync};
    }
    static P op_tap(Env& e, P p)
    {
        auto fl = e.fault();
        auto c  = std::make_shared<Counter>();
        e.w.counters.push_back(c);
        const int form = static_cast<int>(e.g.below(3));
        auto nr = [c, fl, t = Tok{}](const V& v) { fl->real(); c->r = (c->r * 5 + v.get() + 1) % 100003; };
        auto nm = [c, fl](int v) { fl->model(); c->m = (c->m * 5 + v + 1) % 100003; };
        auto er = [c, t = Tok{}](const std::exception_ptr& x) { c->r = (c->r * 7 + error_code(x)) % 100003; };
        auto em = [c](int x) { c->m = (c->m * 7 + x) % 100003; };
        auto cr = [c, t = Tok{}] { c->r = (c->r * 11 + 4) % 100003; };
        auto cm = [c] { c->m = (c->m * 11 + 4) % 100003; };
        DynObs r = form == 0 ? (p.r | ops::tap(decltype(nr){nr}, decltype(er){er}, decltype(cr){cr})).as_dynamic() : form == 1 ? (p.r | ops::tap(decltype(nr){nr}, decltype(cr){cr})).as_dynamic()
                                                                                     : (p.r | ops::tap(rpp::utils::empty_function_any_t{}, decltype(er){er})).as_dynamic();
        m::Source ms = form == 0 ? m::tap(p.m, nm, em, cm) : form == 1 ? m::tap(p.m, nm, [](int) {}, cm)
                                                                       : m::tap(p.m, [](int) {}, em, [] {});
        return {r, ms, p.d + " | tap" + n(static_cast<size_t>(form)) + fault_note(fl), p.sync};
    }
    static P op_start_with(Env& e, P p)
    {
        const int  a = e.val(), b = e.val();
        const int  form = static_cast<int>(e.g.below(3));
        const rpp::schedulers::immediate im{};
        DynObs     r = form == 0 ? (p.r | ops::start_with(im, V{a})).as_dynamic() : form == 1 ? (p.r | ops::start_with(im, V{a}, V{b})).as_dynamic()
                                                                                              : (p.r | ops::start_with<rpp::memory_model::use_shared>(im, V{a}, V{b})).as_dynamic();
        m::Vec     v = form == 0 ? m::Vec{a} : m::Vec{a, b};
        return {r, m::concat(m::of_sources({m::cold(v, 1), p.m})), p.d + " | start_with(" + list(v) + ")", true};
    }

    const std::vector<Op>& ops_elem()
    {
        static const std::vector<Op> v{
            {"map", op_map}, {"map2", op_map_twice}, {"filter", op_filter}, {"take", op_take}, {"skip", op_skip}, {"take_while", op_take_while}, {"take_last", op_take_last}, {"element_at", op_element_at}, {"first", op_first}, {"last", op_last}, {"distinct", op_distinct}, {"distinct_until_changed", op_duc}, {"scan_seed", op_scan_seed}, {"scan", op_scan}, {"reduce_seed", op_reduce_seed}, {"reduce", op_reduce}, {"buffer", op_buffer}, {"tap", op_tap}, {"start_with_values", op_start_with}};
        return v;
    }
}
