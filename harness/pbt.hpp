// Property-based testing engine.
//  * A case is a vector of small integers ("choices") drawn from a deterministic stream seeded by VERIF_SEED,
//    the family name and the case number; replaying the vector replays the case.
//  * Cases run in worker processes; the current choices live in shared memory, so that a crash, sanitizer abort,
//    std::terminate, deadlock or endless loop is attributed to its case.
//  * A failing case is shrunk (choices deleted, zeroed, lowered), confirmed three times in fresh processes, and
//    written as a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace pbt
{
    struct Failure
    {
        std::string msg;
    };

    constexpr uint32_t kMaxChoices = 1u << 15;

    struct Shared // one per worker / replay child, lives in MAP_SHARED memory
    {
        volatile uint64_t started; // number of cases started, used to find the case that was running
        uint32_t          family;
        uint64_t          index;
        uint32_t          n;
        uint32_t          c[kMaxChoices];
        volatile int      failed; // 1 = case failed by oracle; message below
        char              msg[8192];
        char              desc[32768];
        uint32_t          desc_len;
        int               nontrivial;
        uint32_t          nlabels;
        char              labels[96][40];
        volatile int      finished;
    };

    class Gen
    {
    public:
        Gen(Shared* sh, uint64_t seed)
            : sh_{sh}
            , s_{seed}
        {
        }
        Gen(Shared* sh, std::vector<uint32_t> replay)
            : sh_{sh}
            , replay_{std::move(replay)}
            , replaying_{true}
        {
        }
        // uniform in [0, n); 0 is the simplest choice
        uint32_t below(uint32_t n)
        {
            if (n <= 1)
                return 0;
            uint32_t v;
            if (replaying_)
                v = pos_ < replay_.size() ? replay_[pos_] % n : 0;
            else
                v = static_cast<uint32_t>(next() % n);
            ++pos_;
            if (sh_->n < kMaxChoices)
                sh_->c[sh_->n++] = v;
            return v;
        }
        int  range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); } // inclusive
        bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
        bool coin() { return below(2) == 1; }
        // index chosen by weight
        size_t weighted(const std::vector<uint32_t>& w)
        {
            uint32_t total = 0;
            for (auto x : w)
                total += x;
            uint32_t r = below(total);
            for (size_t i = 0; i < w.size(); ++i)
            {
                if (r < w[i])
                    return i;
                r -= w[i];
            }
            return 0;
        }
        uint32_t raw32() { return below(0x7fffffffu); }
        // size biased towards small with an occasional long one
        int size(int small, int large)
        {
            return chance(1, 12) ? range(0, large) : range(0, small);
        }
        bool replaying() const { return replaying_; }

    private:
        uint64_t next()
        {
            uint64_t z = (s_ += 0x9e3779b97f4a7c15ull);
            z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        Shared*               sh_;
        uint64_t              s_{};
        std::vector<uint32_t> replay_{};
        bool                  replaying_{};
        size_t                pos_{};
    };

    // ---- current case ----
    extern Shared* g_sh;

    [[noreturn]] void fail_now(); // throws Failure built from g_sh->msg (normal mode) or exits the process (hard mode)
    extern bool g_hard_fail;      // true: failures terminate the process immediately (simulated-thread harnesses)

    [[gnu::format(printf, 1, 2)]] void note(const char* fmt, ...);
    [[noreturn, gnu::format(printf, 1, 2)]] void fail(const char* fmt, ...);
    [[gnu::format(printf, 1, 2)]] void fail_soft(const char* fmt, ...); // record only; the case fails when it ends
    void label(const char* name);
    void nontrivial(bool v = true);

    struct Family
    {
        const char*               name;
        std::function<void(Gen&)> fn;
        uint64_t                  quick;    // number of cases, quick tier
        uint64_t                  thorough; // number of cases, thorough tier
        bool                      fork_each = false;
    };

    struct Spec
    {
        std::string         property;
        std::string         rule;
        std::vector<Family> families;
        std::string         level = "exploration";
        std::vector<std::string> assumptions;
        double              case_cpu_limit_s = 10; // a case exceeding this CPU time does not terminate
        std::function<void()> process_init;        // run in every fresh process before its first case
    };

    int run_main(int argc, char** argv, const Spec& spec);
}
