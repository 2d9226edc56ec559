#include "opsutil.hpp"
#include <rpp/operators/finally.hpp>
#include <rpp/operators/subscribe_on.hpp>
#include <rpp/operators/observe_on.hpp>
#include <rpp/operators/publish.hpp>
#include <rpp/operators/multicast.hpp>
#include <rpp/operators/ref_count.hpp>
#include <rpp/schedulers/immediate.hpp>
#include <rpp/sources/defer.hpp>

namespace h
{
    namespace ops = rpp::operators;
    static P op_finally(Env& e, P p)
    {
        auto c = std::make_shared<Counter>();
        e.w.finals.push_back(c);
        return {(p.r | ops::finally([c, t = Tok{}]() noexcept { ++c->r; })).as_dynamic(), m::finally_(p.m, [c] { ++c->m; }), p.d + " | finally", p.sync};
    }
    static P op_defer(Env& e, P p)
    {
        auto fl = e.fault();
        return {rpp::source::defer([r = p.r, fl, t = Tok{}] { fl->real(); return r; }).as_dynamic(), m::defer([mm = p.m, fl] { fl->model(); return mm; }), "defer(" + p.d + fault_note(fl) + ")", p.sync};
    }
    static P op_immediate(Env& e, P p)
    {
        const int k = static_cast<int>(e.g.below(2));
        if (k == 0)
            return {(p.r | ops::subscribe_on(rpp::schedulers::immediate{})).as_dynamic(), p.m, p.d + " | subscribe_on(immediate)", p.sync};
        return {(p.r | ops::observe_on(rpp::schedulers::immediate{})).as_dynamic(), p.m, p.d + " | observe_on(immediate)", p.sync};
    }
    const std::vector<Op>& ops_misc()
    {
        static const std::vector<Op> v{{"finally", op_finally}, {"defer", op_defer}, {"immediate", op_immediate}};
        return v;
    }
}
