#include "opsutil.hpp"
#include <rpp/operators/on_error_resume_next.hpp>
#include <rpp/operators/repeat.hpp>
#include <rpp/operators/retry.hpp>
#include <rpp/operators/retry_when.hpp>

namespace h
{
    namespace ops = rpp::operators;

    static P op_retry(Env& e, P p)
    {
        if (!p.sync && e.g.chance(1, 3))
            return {(p.r | ops::retry()).as_dynamic(), m::retry(p.m, std::nullopt), p.d + " | retry()", p.sync};
        const size_t k = static_cast<size_t>(e.g.range(0, 3));
        return {(p.r | ops::retry(k)).as_dynamic(), m::retry(p.m, k), p.d + " | retry(" + std::to_string(k) + ")", p.sync};
    }
    static P op_repeat(Env& e, P p)
    {
        if (!p.sync && e.g.chance(1, 3))
            return {(p.r | ops::repeat()).as_dynamic(), m::repeat(p.m, std::nullopt), p.d + " | repeat()", p.sync};
        const size_t k = static_cast<size_t>(e.g.range(0, 3));
        return {(p.r | ops::repeat(k)).as_dynamic(), m::repeat(p.m, k), p.d + " | repeat(" + std::to_string(k) + ")", true};
    }
    static size_t sel(int v, size_t k) { return static_cast<size_t>(((v % static_cast<int>(k)) + static_cast<int>(k)) % static_cast<int>(k)); }
    struct Picked
    {
        std::vector<P> in;
        FaultP         fl;
        auto           real() const
        {
            std::vector<DynObs> o;
            for (auto& p : in)
                o.push_back(p.r);
            return [o, fl = fl, t = Tok{}](const std::exception_ptr& x) {
                fl->real();
                return o[sel(error_code(x), o.size())];
            };
        }
        std::function<m::Source(int)> model() const
        {
            std::vector<m::Source> s;
            for (auto& p : in)
                s.push_back(p.m);
            return [s, fl = fl](int x) {
                fl->model();
                return s[sel(x, s.size())];
            };
        }
    };
    static P op_oern(Env& e, P p)
    {
        Picked q{make_inners(e, e.g.range(1, 2), 2), e.fault()};
        bool   s = p.sync;
        for (auto& i : q.in)
            s |= i.sync;
        return {(p.r | ops::on_error_resume_next(q.real())).as_dynamic(), m::on_error_resume_next(p.m, q.model()), p.d + " | on_error_resume_next" + show_inners(q.in) + fault_note(q.fl), s};
    }
    static P op_retry_when(Env& e, P p)
    {
        // notifiers that fire synchronously while the source fails synchronously would never stop
        auto in = make_inners(e, e.g.range(1, 2), 1);
        bool s  = p.sync;
        bool is = false;
        for (auto& i : in)
            is |= i.sync;
        if (s && is)
        {
            in = {make_probe_quiet(e)};
        }
        Picked q{in, e.fault()};
        return {(p.r | ops::retry_when(q.real())).as_dynamic(), m::retry_when(p.m, q.model()), p.d + " | retry_when" + show_inners(q.in) + fault_note(q.fl), s || is};
    }
    const std::vector<Op>& ops_resub()
    {
        static const std::vector<Op> v{{"retry", op_retry}, {"repeat", op_repeat}, {"on_error_resume_next", op_oern}, {"retry_when", op_retry_when}};
        return v;
    }
}
