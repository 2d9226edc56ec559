// Differential run: one random pipeline, one random history, library against reference model, compared after every step.
#pragma once
#include "world.hpp"

namespace h
{
    struct DiffOpt
    {
        Cfg  cfg;
        int  min_ops       = 1;
        int  max_steps     = 14;
        bool dispose       = true;  // histories may dispose the subscription, from outside or from inside a callback
        bool require_fault = false; // non-trivial only when a callback threw
        bool require_dispose = false;
        int  dispose_ext   = 1;     // chance out of 24 per step of disposing from outside
        int  dispose_in    = 1;     // chance out of 6 of disposing from inside a notification
        int  end_bias      = 3;     // weight of completions among 10 values (errors: a third of it)
        int  poke          = 1;     // chance out of 10 of an emission into a released subscription
        int  second_sub    = 0;     // chance out of 8 of a second subscription to the same pipeline
        bool nested        = false; // the subscriber makes the source emit from inside value callbacks
        // root pipeline factory; default: random source followed by random operators
        std::function<P(Env&)> root;
    };
    void run_diff(pbt::Gen& g, const DiffOpt& o);
    // Library only: sources that break the contract, subscribers that drive sources from inside their callbacks.
    struct GrammarOpt
    {
        Cfg  cfg;
        bool misbehave = true;
        bool reentrant = false;
        int  max_steps = 16;
    };
    void run_grammar(pbt::Gen& g, const GrammarOpt& o);
}
