// C15, C16: statically composed chains (generated C++ types) against the reference model.
#include "diff.hpp"
#include "static.hpp"
using namespace h;

static pbt::Spec make(const std::string& id)
{
    pbt::Spec s;
    s.property    = id;
    s.assumptions = {"sources obey the observable contract and emit on one thread", "chains of up to 4 operators, drawn from the seed and compiled before the run"};
    auto root     = [](Env& e) { return hs::chains()[e.g.below(static_cast<uint32_t>(hs::chains().size()))](e); };
    auto fam      = [&](const char* name, DiffOpt o, uint64_t q, uint64_t t) { s.families.push_back({name, [o](pbt::Gen& g) { run_diff(g, o); }, q, t}); };
    DiffOpt o;
    o.root        = root;
    o.cfg.elem = 2; o.cfg.comb = 1; o.cfg.flat = 1; o.cfg.scripts = true;
    if (id == "C16")
    {
        s.rule = "a chain of generated static type was subscribed, at least three source events or notifications happened and at least one notification was delivered; distinct by the full sequence of generator choices (the chain is one of them)";
        o.second_sub = 1;
        fam("history", o, 80000, 3000000);
        DiffOpt d = o;
        d.require_dispose = true;
        d.dispose_ext = 5; d.dispose_in = 3; d.poke = 3; d.end_bias = 1; d.second_sub = 2;
        fam("disposal", d, 60000, 2000000);
        DiffOpt f = o;
        f.cfg.faults = 3;
        fam("faults", f, 40000, 1000000);
        DiffOpt h = o;
        h.cfg.subjects = 5;
        h.cfg.subject_kinds = 3;
        fam("subjects", h, 30000, 1000000);
    }
    else
    {
        s.rule = "at least three source events or notifications happened, of temporaries, constants and own objects, with callables and subscribers that move from what they get, and at least one notification was delivered; distinct by the full sequence of generator choices";
        o.second_sub = 4;
        o.cfg.value_range = 50;
        fam("static", o, 80000, 3000000);
        DiffOpt h = o;
        h.cfg.subjects = 6;
        h.cfg.subject_kinds = 3;
        h.max_steps = 24;
        fam("static-shared", h, 60000, 2000000);
        DiffOpt d;
        d.cfg.value_range = 50;
        d.cfg.elem = 2; d.cfg.part = 1; d.cfg.flat = 2; d.cfg.comb = 3; d.cfg.resub = 2; d.cfg.misc = 1;
        d.cfg.scripts = true; d.cfg.max_ops = 3; d.second_sub = 5; d.cfg.subjects = 5; d.cfg.subject_kinds = 3; d.max_steps = 24;
        fam("dynamic-shared", d, 60000, 2000000);
        d.cfg.subjects = 0;
        d.cfg.max_ops = 1;
        fam("dynamic-single", d, 40000, 1000000);
    }
    return s;
}

int main(int argc, char** argv)
{
    std::string id = "C16";
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string{argv[i]} == "--property")
            id = argv[i + 1];
    return pbt::run_main(argc, argv, make(id));
}
