// Pipelines built twice in lockstep: with the library (over instrumented values) and with the reference model (over ints).
#pragma once
#include "model.hpp"
#include "pbt.hpp"
#include "value.hpp"
#include <optional>
#include <string>
#include <vector>

#include <rpp/disposables.hpp>
#include <rpp/observables/dynamic_observable.hpp>
#include <rpp/observers/dynamic_observer.hpp>

namespace h
{
    using DynObs = rpp::dynamic_observable<V>;

    int error_code(const std::exception_ptr& e);
    std::exception_ptr make_error(int code, int flavour = 0); // code > 1

    enum class K
    {
        next,
        error,
        done
    };
    struct Ev
    {
        K    k;
        int  v;
        bool operator==(const Ev&) const = default;
    };
    std::string show(const std::vector<Ev>&);

    // A source under the control of the driver. Every subscription gets its own instance, in the library and in the model.
    // whose allocations are being made: 0 the harness, 1 the library and user callbacks, 2 the model (c_grow)
    inline int g_side = 0;
    struct Side
    {
        int before = g_side;
        explicit Side(int s) { g_side = s; }
        ~Side() { g_side = before; }
    };

    struct Inst
    {
        std::optional<rpp::dynamic_observer<V>> r;
        m::ObsP                                 m;
        bool                                    r_done = false, m_done = false;
        int                                     r_disposed = 0;
        bool                                    r_active() const { return r && !r_done && r_disposed == 0; }
        bool                                    m_active() const { return m && !m_done && !m->sub->closed; }
    };
    struct Attempt // what a subscription does synchronously before (maybe) handing over to the driver
    {
        m::Vec vals;
        int    terminal = 0; // 0: stays under driver control, 1: completes, else: error code
        int    rude_after = 0;   // library only: events still sent after the terminal
        int    poke_hot = -1, poke_value = 0; // before anything else, this subject emits the value
        bool   throws_ = false; // the subscription function throws after the values
    };
    struct Probe
    {
        int                                id;
        std::vector<std::shared_ptr<Inst>> r, m; // by subscription order
        std::vector<Attempt>               script; // per subscription index; the last entry repeats
        int                                parting = 0; // library only: what the source sends from inside its disposal callback (1 value, 2 completion, 3 error)
        bool                               set_upstream    = true;
        bool                               rude            = false; // library only: ignores disposal while emitting inside subscribe
        const Attempt&                     attempt(size_t i) const
        {
            static const Attempt none{};
            return script.empty() ? none : script[std::min(i, script.size() - 1)];
        }
    };
    using ProbeP = std::shared_ptr<Probe>;

    struct Counter
    {
        int r = 0, m = 0;
        int stillborn = 0; // library only: subscriptions that were over when they were made (static chains)
        bool agrees() const { return r >= m && r <= m + stillborn; }
    };

    // Called on entry of a user callback; throws at the chosen call.
    struct Fault
    {
        int  at = 0, code = 0; // at: 1-based call number, 0 = never
        int  r = 0, m = 0;
        void real()
        {
            if (++r == at)
                throw Err{code};
        }
        void model()
        {
            if (++m == at)
                throw m::MErr{code};
        }
    };
    using FaultP = std::shared_ptr<Fault>;

    struct Sink;
    using SinkP = std::shared_ptr<Sink>;
    struct P
    {
        DynObs      r;
        m::Source   m;
        std::string d;
        bool        sync = false; // may emit or end inside subscribe, however often it is subscribed
        // another way to subscribe the library side (without the erasure of r)
        std::function<void(const SinkP&, int)> direct{};
        bool                                   direct_late = false; // the disposable is known only after subscribe
    };

    struct Cfg
    {
        // op class weights
        int elem = 0, part = 0, flat = 0, comb = 0, resub = 0, misc = 0;
        int max_depth       = 3;
        int max_ops         = 5;
        int faults          = 0;    // chance out of 8 that a callback has a fault
        bool sync_sources   = true; // allow cold immediate sources
        bool scripts        = false; // probes may emit and terminate inside subscribe
        bool throwing_subscribe = false;
        bool trampolined    = false; // cold sources on the current_thread scheduler
        int  value_range    = 6;
        bool share_probes   = true;
        bool allow_unbounded = false;
        int  max_probes      = 6;
        int  subjects        = 0; // chance out of 8 that an input is one of at most two subjects
        bool no_early_end    = false; // leaves out the operators that end the stream on their own
        bool no_zip          = false;
        bool parting         = false; // sources may send something from inside their disposal callbacks
        bool poke_subscribe  = false; // scripted sources make a subject emit while they are being subscribed
        int  subject_kinds   = 1; // 1: publish only, 3: behavior and replay too
    };

    // One subject used as an input at several places of a pipeline.
    struct Hot
    {
        int                                       id;
        DynObs                                    r;
        std::function<rpp::dynamic_observer<V>()> obs;
        std::shared_ptr<m::Subject>               m;
        m::Source                                 msrc;
        bool                                      done = false;
        std::string                               d;
    };

    struct World
    {
        std::vector<std::shared_ptr<Hot>>     hots;
        std::vector<ProbeP>                   probes;
        std::vector<std::shared_ptr<Counter>> finals;
        std::vector<std::shared_ptr<Counter>> counters; // user visible side effects, must agree
        std::vector<FaultP>                   faults;
        std::vector<rpp::dynamic_observer<V>> kept;
        int                                   callbacks = 0;
        // sync emission guard: bounds endless synchronous loops
        bool                                  lenient = false; // out of budget: sources fall silent instead of failing the case
        long                                  budget_r = 20000, budget_m = 20000;
    };

    struct Env
    {
        pbt::Gen& g;
        World&    w;
        Cfg       cfg;
        int       depth = 0;
        FaultP    fault()
        {
            auto f = std::make_shared<Fault>();
            ++w.callbacks;
            if (cfg.faults && g.chance(static_cast<uint32_t>(cfg.faults), 8))
            {
                f->at   = g.coin() ? g.range(1, 2) : g.range(1, 4);
                f->code = g.range(10, 19);
            }
            w.faults.push_back(f);
            return f;
        }
        int val() { return g.range(0, cfg.value_range - 1); }
    };

    P    make_source(Env& e);                 // probe or cold source
    P    make_probe(Env& e);                  // always a probe
    P    make_probe_quiet(Env& e);            // a probe that does nothing inside subscribe
    P    make_pipeline(Env& e, int max_ops);  // source followed by operators
    P    apply_ops(Env& e, P p, int n);
    P    from_probe(const ProbeP& p);

    using OpFn = P (*)(Env&, P);
    struct Op
    {
        const char* name;
        OpFn        fn;
    };
    const std::vector<Op>& ops_elem();
    const std::vector<Op>& ops_part();
    const std::vector<Op>& ops_flat();
    const std::vector<Op>& ops_comb();
    const std::vector<Op>& ops_resub();
    const std::vector<Op>& ops_misc();

    // final subscriber
    struct Sink
    {
        std::vector<Ev>                    rlog, mlog;
        rpp::composite_disposable_wrapper  d = rpp::composite_disposable_wrapper::empty();
        m::SubP                            msub = m::Sub::make();
        int                                dispose_at_r = -1, dispose_at_m = -1; // dispose from inside the n-th notification (1-based)
        bool                               quiet      = false; // keeps no log
        bool                               steal      = false;                   // moves values out of what it gets
        int                                r_depth    = 0;
        bool                               overlapped = false;
        bool                               r_after_terminal = false;
        bool                               r_terminal = false;
        int                                escaped    = 0; // the subscription function's exception left subscribe
        std::function<void(const Ev&)>     on_r, on_m; // extra action
        void                               real(Ev ev);
        void                               model(Ev ev);
    };
    // subscribes both sides; how: 0..4 selects the subscribe overload
    int  subscribe_real(const P& p, const SinkP& s, int how); // returns the code of an escaped exception
    int  subscribe_model(const P& p, const SinkP& s);
    void subscribe_both(World& w, const P& p, const SinkP& s, int how);

    // drive one legal event into instance `idx` of both sides (index in each side's instance list); cat: 0 const object, 1 temporary, 2 own object
    void emit(Probe& p, size_t idx, Ev ev, int cat);
    void emit_real(Probe& p, size_t idx, Ev ev, int cat);
    void emit_model(Probe& p, size_t idx, Ev ev);
    void emit_hot(Hot& h, Ev ev, int cat = 1);
    std::string state_diff(const World& w); // empty when active subscriptions agree
    std::string sub_state(const Probe& p);
    void clear_world(World& w);

    inline std::string list(const m::Vec& v)
    {
        std::string s = "{";
        for (size_t i = 0; i < v.size(); ++i)
            s += (i ? "," : "") + std::to_string(v[i]);
        return s + "}";
    }
}
