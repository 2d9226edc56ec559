// C05..C09: differential checks of operator families against the reference model.
#include "diff.hpp"
#include <rpp/operators/take.hpp>
#include <rpp/operators/take_while.hpp>
#include <rpp/schedulers/current_thread.hpp>
#include <rpp/subjects/publish_subject.hpp>
#include <utility>
using namespace h;

// Listed finding: an operator that ends the stream on its own while its source lives on is still connected to that
// source during the subscriber's terminal callback; a value emitted from inside that callback is delivered after it.
static void terminal_reentry(pbt::Gen& g)
{
    rpp::subjects::publish_subject<V> subj;
    auto                              o   = subj.get_observable();
    auto                              obs = subj.get_observer().as_dynamic();
    bool                              over = false;
    auto                              n = [&](const V&) { if (over) pbt::fail_soft("on_next after the terminal notification"); };
    auto                              e = [&](const std::exception_ptr&) { if (over) pbt::fail_soft("on_error after the terminal notification"); };
    auto                              c = [&] {
        if (over)
            pbt::fail_soft("on_completed twice");
        if (std::exchange(over, true))
            return;
        obs.on_next(V{1});
    };
    switch (g.below(2))
    {
    case 0: (o | rpp::operators::take_while([](const V& v) { return v.get() > 0; })).subscribe(n, e, c); break;
    default: (o | rpp::operators::take(1)).subscribe(n, e, c); break;
    }
    obs.on_next(V{0});
}

static pbt::Spec make(const std::string& id)
{
    pbt::Spec s;
    s.property = id;
    s.rule     = "the pipeline was subscribed, at least three source events or notifications happened and at least one notification was delivered; distinct by the full sequence of generator choices";
    s.assumptions = {"sources obey the observable contract and emit on one thread", "cold sources use the immediate scheduler"};
    auto fam   = [&](const char* name, DiffOpt o, uint64_t q, uint64_t t) { s.families.push_back({name, [o](pbt::Gen& g) { run_diff(g, o); }, q, t}); };
    auto gram = [&](const char* name, GrammarOpt o, uint64_t q, uint64_t t) { s.families.push_back({name, [o](pbt::Gen& g) { run_grammar(g, o); }, q, t}); };
    if (id == "C05")
    {
        DiffOpt o;
        o.cfg.elem = 1;
        o.cfg.max_ops = 5;
        o.max_steps   = 16;
        o.second_sub  = 1;
        fam("chain", o, 60000, 1500000);
        o.cfg.max_ops = 1;
        fam("single", o, 40000, 800000);
        o.cfg.scripts = true;
        o.cfg.max_ops = 4;
        fam("scripted", o, 30000, 600000);
        DiffOpt n;
        n.cfg.elem = 1;
        n.cfg.max_ops = 3;
        n.cfg.sync_sources = false;
        n.nested = true;
        n.cfg.no_early_end = true; // see the terminal-reentry finding of C01
        fam("nested", n, 30000, 600000);
    }
    else if (id == "C06")
    {
        DiffOpt o;
        o.cfg.part  = 1;
        o.cfg.max_ops = 1;
        o.cfg.max_depth = 2;
        fam("single", o, 60000, 1500000);
        o.cfg.part = 3;
        o.cfg.elem = 2;
        o.cfg.max_ops = 3;
        o.cfg.scripts = true;
        fam("mixed", o, 40000, 1000000);
    }
    else if (id == "C07")
    {
        DiffOpt o;
        o.cfg.flat  = 1;
        o.cfg.max_ops = 1;
        o.cfg.max_depth = 2;
        o.cfg.scripts = true;
        fam("single", o, 60000, 1500000);
        o.cfg.flat = 3;
        o.cfg.elem = 1;
        o.cfg.max_ops = 3;
        o.cfg.max_depth = 3;
        fam("mixed", o, 40000, 1000000);
        DiffOpt p;
        p.cfg.flat = 1;
        p.cfg.max_ops = 1;
        p.cfg.max_depth = 1;
        p.cfg.scripts = true;
        p.cfg.subjects = 4;
        p.cfg.poke_subscribe = true;
        fam("poke", p, 40000, 1000000);
    }
    else if (id == "C08")
    {
        DiffOpt o;
        o.cfg.comb  = 1;
        o.cfg.max_ops = 1;
        o.cfg.max_depth = 2;
        o.cfg.scripts = true;
        fam("single", o, 60000, 1500000);
        o.cfg.comb = 3;
        o.cfg.elem = 1;
        o.cfg.max_ops = 3;
        o.cfg.max_depth = 3;
        fam("mixed", o, 40000, 1000000);
    }
    else if (id == "C09")
    {
        DiffOpt o;
        o.cfg.resub  = 1;
        o.cfg.max_ops = 2;
        o.cfg.max_depth = 2;
        o.cfg.scripts = true;
        o.cfg.throwing_subscribe = true;
        fam("single", o, 60000, 1500000);
        o.cfg.resub = 3;
        o.cfg.throwing_subscribe = false;
        o.cfg.elem = 2;
        o.cfg.comb = 1;
        o.cfg.flat = 1;
        o.cfg.max_ops = 4;
        o.cfg.max_depth = 3;
        fam("mixed", o, 40000, 1000000);
    }
    else if (id == "C01")
    {
        s.rule        = "at least two source events happened, at least one of them illegal (after the source's own terminal) or issued from inside a callback, and the subscriber was notified; distinct by the full sequence of generator choices";
        s.assumptions = {"one thread", "re-entrant events are issued from inside value callbacks and only through operators of a single source"};
        GrammarOpt o;
        o.cfg.elem = 3; o.cfg.part = 1; o.cfg.flat = 2; o.cfg.comb = 2; o.cfg.resub = 2; o.cfg.misc = 1;
        o.cfg.scripts = true; o.cfg.max_ops = 4;
        gram("rude", o, 80000, 2000000);
        GrammarOpt p;
        p.reentrant = true; p.misbehave = false;
        p.cfg.elem = 3; p.cfg.max_ops = 4;
        gram("reentrant", p, 40000, 1000000);
        p.misbehave = true;
        gram("reentrant-rude", p, 40000, 1000000);
        s.families.push_back({"terminal-reentry", terminal_reentry, 0, 0});
    }
    else if (id == "C02")
    {
        DiffOpt o;
        s.rule = "the subscription was disposed (from outside or inside a callback) after at least one notification or source event; distinct by the full sequence of generator choices";
        o.require_dispose = true;
        o.cfg.elem = 2; o.cfg.part = 2; o.cfg.flat = 2; o.cfg.comb = 2; o.cfg.resub = 2; o.cfg.misc = 1;
        o.cfg.scripts = true; o.cfg.max_ops = 4; o.dispose_ext = 5; o.dispose_in = 3; o.poke = 3; o.end_bias = 1;
        fam("chain", o, 60000, 1500000);
        o.cfg.max_ops = 1;
        fam("single", o, 60000, 1500000);
        o.cfg.max_ops = 3; o.second_sub = 3;
        fam("two-subscribers", o, 30000, 700000);
        // operators of several sources hold a lock while they deliver: only the others can be driven from inside a disposal
        o.second_sub = 0; o.cfg.parting = true; o.cfg.flat = o.cfg.comb = o.cfg.part = 0; o.dispose_in = 2;
        fam("parting", o, 40000, 1000000);
    }
    else if (id == "C03")
    {
        DiffOpt o;
        s.rule = "the pipeline ended (terminal notification or disposal) or was abandoned after at least three source events or notifications; distinct by the full sequence of generator choices";
        o.cfg.elem = 2; o.cfg.part = 3; o.cfg.flat = 3; o.cfg.comb = 3; o.cfg.resub = 2; o.cfg.misc = 3;
        o.cfg.scripts = true; o.cfg.max_ops = 4; o.end_bias = 6; o.second_sub = 1; o.max_steps = 24;
        fam("chain", o, 80000, 2000000);
        o.cfg.faults = 1;
        fam("faults", o, 30000, 700000);
        o.cfg.faults = 0; o.cfg.max_ops = 1;
        fam("single", o, 50000, 1000000);
    }
    else if (id == "C04")
    {
        DiffOpt o;
        s.rule = "a user callback threw in the middle of the history and the subscriber was notified at least once; distinct by the full sequence of generator choices";
        o.require_fault = true;
        o.cfg.elem = 3; o.cfg.part = 2; o.cfg.flat = 2; o.cfg.comb = 2; o.cfg.resub = 2; o.cfg.misc = 1;
        o.cfg.scripts = true; o.cfg.max_ops = 1; o.cfg.faults = 8; o.max_steps = 10;
        fam("single", o, 80000, 2000000);
        o.cfg.max_ops = 4; o.cfg.faults = 5;
        fam("chain", o, 60000, 1500000);
    }
    else if (id == "SUBJ")
    {
        DiffOpt o;
        o.cfg.elem = 1; o.cfg.part = 1; o.cfg.flat = 2; o.cfg.comb = 2; o.cfg.resub = 1;
        o.cfg.max_ops = 2; o.second_sub = 4; o.cfg.subjects = 6; o.cfg.max_depth = 2; o.cfg.subject_kinds = 3;
        fam("composed", o, 60000, 1500000);
    }
    else if (id == "ALL")
    {
        DiffOpt o;
        o.cfg.elem = 3; o.cfg.part = 1; o.cfg.flat = 2; o.cfg.comb = 2; o.cfg.resub = 2; o.cfg.misc = 1;
        o.cfg.scripts = true; o.cfg.max_ops = 5; o.second_sub = 1;
        fam("all", o, 60000, 1000000);
        o.cfg.faults = 2;
        fam("faults", o, 60000, 1000000);
    }
    return s;
}

int main(int argc, char** argv)
{
    std::string id = "C05";
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string{argv[i]} == "--property")
            id = argv[i + 1];
    return pbt::run_main(argc, argv, make(id));
}
