#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>

namespace pbt
{
    Shared* g_sh        = nullptr;
    bool    g_hard_fail = false;

    static double wall()
    {
        // raw system call: clock_gettime may be replaced by the simulated clock
        timespec ts{};
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
    }
    static void real_sleep(double s)
    {
        timespec ts{static_cast<time_t>(s), static_cast<long>((s - static_cast<double>(static_cast<time_t>(s))) * 1e9)};
        syscall(SYS_nanosleep, &ts, nullptr);
    }

    static void vset(char* dst, size_t cap, const char* fmt, va_list ap) { vsnprintf(dst, cap, fmt, ap); }

    void note(const char* fmt, ...)
    {
        if (g_sh->desc_len + 256 >= sizeof(g_sh->desc))
            return;
        va_list ap;
        va_start(ap, fmt);
        int r = vsnprintf(g_sh->desc + g_sh->desc_len, 255, fmt, ap);
        va_end(ap);
        if (r > 0)
            g_sh->desc_len += static_cast<uint32_t>(std::min(r, 254));
    }
    void fail_now()
    {
        g_sh->failed = 1;
        if (g_hard_fail)
            _exit(77);
        throw Failure{g_sh->msg};
    }
    void fail(const char* fmt, ...)
    {
        if (!g_sh->failed)
        {
            va_list ap;
            va_start(ap, fmt);
            vset(g_sh->msg, sizeof(g_sh->msg), fmt, ap);
            va_end(ap);
        }
        fail_now();
    }
    void fail_soft(const char* fmt, ...)
    {
        if (!g_sh->failed)
        {
            va_list ap;
            va_start(ap, fmt);
            vset(g_sh->msg, sizeof(g_sh->msg), fmt, ap);
            va_end(ap);
            g_sh->failed = 1;
        }
    }
    void label(const char* name)
    {
        for (uint32_t i = 0; i < g_sh->nlabels; ++i)
            if (!strncmp(g_sh->labels[i], name, 39))
                return;
        if (g_sh->nlabels < 96)
        {
            strncpy(g_sh->labels[g_sh->nlabels], name, 39);
            g_sh->labels[g_sh->nlabels][39] = 0;
            ++g_sh->nlabels;
        }
    }
    void nontrivial(bool v)
    {
        if (v)
            g_sh->nontrivial = 1;
    }

    static uint64_t mix(uint64_t a, uint64_t b)
    {
        uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static uint64_t hstr(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (char c : s)
            h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
        return h;
    }

    struct CaseRef
    {
        uint32_t              family;
        std::vector<uint32_t> c;
    };
    enum class Outcome
    {
        pass,
        oracle,
        crash,
        hang
    };
    struct RunResult
    {
        Outcome               o = Outcome::pass;
        std::string           msg, desc;
        std::vector<uint32_t> c;
    };

    static void reset_shared(Shared* sh)
    {
        sh->n          = 0;
        sh->failed     = 0;
        sh->msg[0]     = 0;
        sh->desc_len   = 0;
        sh->desc[0]    = 0;
        sh->nontrivial = 0;
        sh->nlabels    = 0;
        sh->finished   = 0;
    }

    static const char* kHangMsg = "case did not finish within its CPU budget (endless loop)";
    static void        on_prof(int)
    {
        strncpy(g_sh->msg, kHangMsg, sizeof(g_sh->msg) - 1);
        g_sh->failed = 2;
        _exit(78);
    }
    static void arm(double s)
    {
        itimerval it{};
        it.it_value.tv_sec  = static_cast<time_t>(s);
        it.it_value.tv_usec = static_cast<suseconds_t>((s - static_cast<double>(it.it_value.tv_sec)) * 1e6);
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    // runs one case in this process; returns true when it passed
    static bool run_one(const Spec& spec, uint32_t fam, Gen& g)
    {
        try
        {
            spec.families[fam].fn(g);
        }
        catch (const Failure&)
        {
        }
        catch (const std::exception& e)
        {
            fail_soft("exception escaped to the caller: %s", e.what());
        }
        catch (...)
        {
            fail_soft("unknown exception escaped to the caller");
        }
        return !g_sh->failed;
    }

    static Shared* map_shared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            exit(3);
        }
        return static_cast<Shared*>(p);
    }

    static void init_process(const Spec& spec)
    {
        struct sigaction sa{};
        sa.sa_handler = on_prof;
        sigaction(SIGPROF, &sa, nullptr);
        if (spec.process_init)
            spec.process_init();
    }

    static std::string read_file(const std::string& p, size_t cap)
    {
        std::ifstream f{p};
        std::stringstream ss;
        ss << f.rdbuf();
        auto s = ss.str();
        return s.size() > cap ? s.substr(0, cap) : s;
    }

    static std::string g_tmp; // scratch directory

    static std::string sanitizer_summary(const std::string& log)
    {
        std::string out;
        std::istringstream in{log};
        std::string line;
        int frames = 0;
        while (std::getline(in, line))
        {
            if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("deadlock") != std::string::npos)
                out += line + "\n";
            else if (frames < 12 && line.find("    #") == 0)
            {
                ++frames;
                out += line.substr(0, 220) + "\n";
            }
            if (out.size() > 3500)
                break;
        }
        return out;
    }

    // run a list of cases in a fresh child process
    static RunResult run_child(const Spec& spec, const std::vector<CaseRef>& cases, Shared* sh, double wall_limit)
    {
        RunResult   r;
        std::string errf = g_tmp + "/child.err";
        reset_shared(sh);
        sh->started = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2);
            dup2(fd, 1);
            g_sh = sh;
            init_process(spec);
            for (auto& cs : cases)
            {
                reset_shared(sh);
                sh->started = sh->started + 1;
                arm(spec.case_cpu_limit_s);
                Gen g{sh, cs.c};
                if (!run_one(spec, cs.family, g))
                    _exit(77);
            }
            sh->finished = 1;
            _exit(0);
        }
        double t0 = wall();
        int    st = 0;
        double nap = 0.0005;
        for (;;)
        {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid)
                break;
            if (wall() - t0 > wall_limit)
            {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                r.o   = Outcome::hang;
                r.msg = "case blocked forever (deadlock or lost wake-up): no progress within the wall-clock limit";
                break;
            }
            real_sleep(nap);
            if (nap < 0.01)
                nap *= 1.5;
        }
        kill(-pid, SIGKILL); // stragglers of this case's process group
        r.desc.assign(sh->desc, sh->desc_len);
        r.c.assign(sh->c, sh->c + sh->n);
        if (r.o == Outcome::hang)
            return r;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->finished)
        {
            r.o = Outcome::pass;
            return r;
        }
        if (sh->failed == 1)
        {
            r.o   = Outcome::oracle;
            r.msg = sh->msg;
        }
        else if (sh->failed == 2)
        {
            r.o   = Outcome::hang;
            r.msg = sh->msg;
        }
        else
        {
            r.o = Outcome::crash;
            if (WIFSIGNALED(st))
                r.msg = std::string{"process killed by signal "} + std::to_string(WTERMSIG(st)) + "\n";
            else
                r.msg = "process aborted (exit code " + std::to_string(WEXITSTATUS(st)) + ")\n";
            r.msg += sanitizer_summary(read_file(errf, 400000));
        }
        return r;
    }

    // shrink a single-case failure
    static CaseRef shrink(const Spec& spec, CaseRef best, Outcome kind, Shared* sh, double budget_s, size_t& attempts)
    {
        const double t0       = wall();
        const double cpu_lim  = spec.case_cpu_limit_s;
        auto         still    = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>& used) {
            ++attempts;
            auto r = run_child(spec, {{best.family, c}}, sh, kind == Outcome::hang ? 3 : cpu_lim + 10);
            used   = r.c;
            return r.o == kind;
        };
        auto shorter = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
            if (a.size() != b.size())
                return a.size() < b.size();
            return a < b;
        };
        auto out = [&] { return wall() - t0 > budget_s; };
        bool progress = true;
        while (progress && !out())
        {
            progress = false;
            for (size_t k = std::max<size_t>(1, best.c.size() / 2); k >= 1 && !out(); k /= 2)
            {
                for (size_t i = best.c.size() >= k ? best.c.size() - k + 1 : 0; i-- > 0 && !out();)
                {
                    if (i + k > best.c.size())
                        continue;
                    auto c = best.c;
                    c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
                    std::vector<uint32_t> used;
                    if (still(c, used) && shorter(used, best.c))
                    {
                        best.c   = used;
                        progress = true;
                    }
                    else
                    {
                        c = best.c;
                        bool nz = false;
                        for (size_t j = i; j < i + k; ++j)
                        {
                            nz |= c[j] != 0;
                            c[j] = 0;
                        }
                        if (nz && still(c, used) && shorter(used, best.c))
                        {
                            best.c   = used;
                            progress = true;
                        }
                    }
                }
            }
            for (size_t i = 0; i < best.c.size() && !out(); ++i)
            {
                uint32_t lo = 0;
                while (i < best.c.size() && lo < best.c[i] && !out())
                {
                    auto c = best.c;
                    c[i]   = lo + (best.c[i] - lo) / 2;
                    std::vector<uint32_t> used;
                    if (still(c, used) && shorter(used, best.c))
                    {
                        best.c   = used;
                        progress = true;
                    }
                    else
                        lo = c[i] + 1;
                }
            }
        }
        return best;
    }

    static std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char ch : s)
        {
            if (ch == '"')
                o += "\\\"";
            else if (ch == '\\')
                o += "\\\\";
            else if (ch == '\n')
                o += "\\n";
            else if (ch < 0x20 || ch >= 0x7f)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            }
            else
                o += static_cast<char>(ch);
        }
        return o;
    }

    static void write_replay(const Spec& spec, const std::string& path, const std::vector<CaseRef>& cs, const RunResult& r)
    {
        std::ofstream f{path};
        f << "# replay of property " << spec.property << "\n";
        std::istringstream in{r.msg + "\n--- case ---\n" + r.desc};
        std::string        line;
        while (std::getline(in, line))
            f << "# " << line << "\n";
        for (auto& c : cs)
        {
            std::string name = spec.families[c.family].name;
            std::replace(name.begin(), name.end(), ' ', '_');
            f << "case " << name;
            for (auto x : c.c)
                f << ' ' << x;
            f << "\n";
        }
    }

    static std::vector<CaseRef> read_replay(const Spec& spec, const std::string& path)
    {
        std::vector<CaseRef> out;
        std::ifstream        f{path};
        std::string          line;
        while (std::getline(f, line))
        {
            if (line.rfind("case ", 0) != 0)
                continue;
            std::istringstream in{line.substr(5)};
            std::string        name;
            in >> name;
            CaseRef cr{~0u, {}};
            for (size_t i = 0; i < spec.families.size(); ++i)
            {
                std::string n = spec.families[i].name;
                std::replace(n.begin(), n.end(), ' ', '_');
                if (name == n)
                    cr.family = static_cast<uint32_t>(i);
            }
            if (cr.family == ~0u)
            {
                fprintf(stderr, "replay: unknown family %s\n", name.c_str());
                continue;
            }
            uint32_t v;
            while (in >> v)
                cr.c.push_back(v);
            out.push_back(cr);
        }
        return out;
    }

    struct WorkerOut
    {
        std::unordered_set<uint64_t>    distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string>        samples;
        uint64_t                        evals = 0, nontrivial = 0;
        std::map<std::string, uint64_t> per_family;
    };

    static void worker_loop(const Spec& spec, Shared* sh, int w, int W, uint64_t seed, bool thorough, double deadline, uint64_t skip_until, const std::string& outfile, double scale)
    {
        g_sh = sh;
        init_process(spec);
        WorkerOut o;
        uint64_t  ordinal = 0;
        auto      flush   = [&] {
            std::ofstream f{outfile, std::ios::trunc};
            f << "E " << o.evals << "\n";
            f << "N " << o.nontrivial << "\n";
            for (auto& [k, v] : o.per_family)
                f << "F " << v << ' ' << k << "\n";
            for (auto& [k, v] : o.labels)
                f << "L " << v << ' ' << k << "\n";
            for (auto h : o.distinct)
                f << "H " << h << "\n";
            for (auto& s : o.samples)
                f << "S " << jesc(s) << "\n";
        };
        size_t                total_done = 0;
        // families are interleaved so that a time cap cuts all of them alike
        std::vector<uint64_t> count(spec.families.size()), done(spec.families.size(), 0);
        uint64_t              total = 0;
        for (size_t f = 0; f < spec.families.size(); ++f)
        {
            count[f] = static_cast<uint64_t>(static_cast<double>(thorough ? spec.families[f].thorough : spec.families[f].quick) * scale);
            total += count[f];
        }
        for (uint64_t k = 0; k < total; ++k)
        {
            // pick the family that is furthest behind proportionally (deterministic)
            size_t best  = 0;
            double bestv = 2;
            for (size_t f = 0; f < spec.families.size(); ++f)
            {
                if (done[f] >= count[f])
                    continue;
                double v = static_cast<double>(done[f]) / static_cast<double>(count[f]);
                if (v < bestv)
                {
                    bestv = v;
                    best  = f;
                }
            }
            const uint64_t idx = done[best]++;
            if (static_cast<int>(k % static_cast<uint64_t>(W)) != w)
                continue;
            ++ordinal;
            if (ordinal <= skip_until)
                continue;
            if ((total_done++ & 15) == 0 && wall() > deadline)
                break;
            reset_shared(sh);
            sh->family  = static_cast<uint32_t>(best);
            sh->index   = idx;
            sh->started = ordinal;
            const uint64_t cs = mix(mix(seed, hstr(spec.families[best].name)), idx);
            bool           ok;
            if (spec.families[best].fork_each)
            {
                pid_t pid = fork();
                if (pid == 0)
                {
                    arm(spec.case_cpu_limit_s);
                    Gen  g{sh, cs};
                    bool pass    = run_one(spec, static_cast<uint32_t>(best), g);
                    sh->finished = 1;
                    _exit(pass ? 0 : 77);
                }
                int st = 0;
                while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
                {
                }
                ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->finished && !sh->failed;
            }
            else
            {
                arm(spec.case_cpu_limit_s);
                Gen g{sh, cs};
                ok = run_one(spec, static_cast<uint32_t>(best), g);
            }
            ++o.evals;
            ++o.per_family[spec.families[best].name];
            for (uint32_t i = 0; i < sh->nlabels; ++i)
                ++o.labels[sh->labels[i]];
            if (sh->nontrivial)
            {
                ++o.nontrivial;
                uint64_t h = hstr(spec.families[best].name);
                for (uint32_t i = 0; i < sh->n; ++i)
                    h = mix(h, sh->c[i]);
                o.distinct.insert(h);
                if (o.samples.size() < 3 && (idx % 7 == 3 || idx > 40) && sh->desc_len < 3000)
                    o.samples.push_back(std::string{spec.families[best].name} + ": " + std::string(sh->desc, sh->desc_len));
            }
            if (!ok)
            {
                flush();
                _exit(77);
            }
        }
        flush();
        sh->finished = 2;
        _exit(0);
    }

    int run_main(int argc, char** argv, const Spec& spec)
    {
        std::string replay, evidence, replay_dir = "replays";
        uint64_t    seed      = 1;
        bool        thorough  = false;
        int         W         = 8;
        double      max_s     = 0;
        double      scale     = 1;
        double      t0        = wall();
        double      start_off = 0;
        bool        keep_going = false;
        std::string known;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto        v = [&] { return std::string{argv[++i]}; };
            if (a == "--replay")
                replay = v();
            else if (a == "--evidence")
                evidence = v();
            else if (a == "--replay-dir")
                replay_dir = v();
            else if (a == "--seed")
                seed = std::stoull(v());
            else if (a == "--thorough")
                thorough = true;
            else if (a == "--workers")
                W = std::stoi(v());
            else if (a == "--max-seconds")
                max_s = std::stod(v());
            else if (a == "--scale")
                scale = std::stod(v());
            else if (a == "--elapsed")
                start_off = std::stod(v());
            else if (a == "--known")
                known = v();
            else if (a == "--keep-going")
                keep_going = true;
        }
        if (max_s == 0)
            max_s = thorough ? 600 : 150;
        char tmpl[] = "/tmp/pbtXXXXXX";
        if (!mkdtemp(tmpl))
        {
            perror("mkdtemp");
            return 3;
        }
        g_tmp = tmpl;
        struct Clean
        {
            ~Clean()
            {
                std::string c = "rm -r -- " + g_tmp;
                if (system(c.c_str())) {}
            }
        } clean;
        Shared* rsh = map_shared();
        if (!replay.empty())
        {
            auto cs = read_replay(spec, replay);
            auto r  = run_child(spec, cs, rsh, spec.case_cpu_limit_s + 20);
            printf("replay outcome: %s\n%s\n--- case ---\n%s\n", r.o == Outcome::pass ? "pass" : r.o == Outcome::oracle ? "oracle violation"
                                                                                    : r.o == Outcome::crash             ? "crash"
                                                                                                                        : "hang",
                   r.msg.c_str(),
                   r.desc.c_str());
            if (r.o != Outcome::pass)
            {
                printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), replay.c_str());
                return 1;
            }
            return 0;
        }
        // listed findings: replayed, reported, never searched for (their triggers are kept out of the generators)
        if (!known.empty())
        {
            std::ifstream f{known};
            std::string   line;
            while (std::getline(f, line))
            {
                const std::string pre = "finding: property=" + spec.property + " replay=";
                if (line.rfind(pre, 0) != 0)
                    continue;
                auto       sp   = line.find(' ', pre.size());
                const auto path = known.substr(0, known.rfind('/') + 1) + line.substr(pre.size(), sp - pre.size());
                auto       cs   = read_replay(spec, path);
                if (cs.empty())
                {
                    fprintf(stderr, "known finding without a replay: %s\n", path.c_str());
                    return 3;
                }
                auto r = run_child(spec, cs, rsh, spec.case_cpu_limit_s);
                if (r.o != Outcome::pass)
                    printf("KNOWN-FINDING: property=%s %s\n", spec.property.c_str(), line.substr(sp + 1).c_str());
                else
                    printf("listed finding no longer reproduces: %s\n", line.c_str());
            }
            fflush(stdout);
        }
        struct Wk
        {
            pid_t       pid = -1;
            Shared*     sh;
            uint64_t    last   = 0;
            double      last_t = 0;
            bool        done   = false;
            uint64_t    skip   = 0;
            int         gen    = 0;
            std::string err;
        };
        std::vector<Wk> ws(static_cast<size_t>(W));
        const double    deadline = t0 + max_s;
        std::vector<std::string> outs;
        auto            spawn    = [&](int i) {
            auto& k  = ws[static_cast<size_t>(i)];
            k.err    = g_tmp + "/w" + std::to_string(i) + ".err";
            auto out = g_tmp + "/w" + std::to_string(i) + "." + std::to_string(k.gen++) + ".out";
            outs.push_back(out);
            k.sh->started  = k.skip;
            k.sh->finished = 0;
            fflush(nullptr);
            k.pid = fork();
            if (k.pid == 0)
            {
                setpgid(0, 0);
                int fd = open(k.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2);
                dup2(fd, 1);
                worker_loop(spec, k.sh, i, W, seed, thorough, deadline, k.skip, out, scale);
            }
            k.last   = k.skip;
            k.last_t = wall();
        };
        for (int i = 0; i < W; ++i)
        {
            ws[static_cast<size_t>(i)].sh = map_shared();
            spawn(i);
        }
        auto kill_all = [&] {
            for (auto& k : ws)
                if (k.pid > 0 && !k.done)
                {
                    kill(-k.pid, SIGKILL);
                    int st;
                    waitpid(k.pid, &st, 0);
                    k.pid = -1;
                }
        };
        int      violations = 0, unconfirmed = 0;
        std::vector<std::string> unconfirmed_msgs;
        bool     stop = false;
        const double wall_case = spec.case_cpu_limit_s + 10;
        while (!stop)
        {
            bool alive = false;
            for (int i = 0; i < W && !stop; ++i)
            {
                auto& k = ws[static_cast<size_t>(i)];
                if (k.done)
                    continue;
                alive   = true;
                int  st = 0;
                bool bad = false, hung = false;
                if (waitpid(k.pid, &st, WNOHANG) == k.pid)
                {
                    kill(-k.pid, SIGKILL);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && k.sh->finished == 2)
                    {
                        k.done = true;
                        continue;
                    }
                    bad = true;
                }
                else
                {
                    uint64_t s = k.sh->started;
                    if (s != k.last)
                    {
                        k.last   = s;
                        k.last_t = wall();
                    }
                    else if (wall() - k.last_t > wall_case && s != k.skip)
                    {
                        kill(-k.pid, SIGKILL);
                        waitpid(k.pid, &st, 0);
                        bad = hung = true;
                    }
                }
                if (!bad)
                    continue;
                (void) hung;
                if (k.sh->n == 0 && k.sh->started == k.skip)
                {
                    fprintf(stderr, "worker died before its first case\n%s\n", read_file(k.err, 4000).c_str());
                    kill_all();
                    return 3;
                }
                // a failing case: confirm in a fresh process
                CaseRef cr{k.sh->family, std::vector<uint32_t>(k.sh->c, k.sh->c + k.sh->n)};
                RunResult first;
                first.msg = k.sh->failed ? std::string{k.sh->msg} : "worker died\n" + sanitizer_summary(read_file(k.err, 400000));
                auto r    = run_child(spec, {cr}, rsh, wall_case + 10);
                if (r.o != Outcome::pass)
                {
                    if (!keep_going)
                        kill_all();
                    size_t attempts = 0;
                    auto   small    = shrink(spec, cr, r.o, rsh, thorough ? 90 : 40, attempts);
                    int    conf     = 0;
                    RunResult fin;
                    for (int t = 0; t < 3; ++t)
                    {
                        auto x = run_child(spec, {small}, rsh, r.o == Outcome::hang ? 8 : wall_case + 10);
                        if (x.o != Outcome::pass)
                        {
                            ++conf;
                            fin = x;
                        }
                    }
                    if (conf < 3)
                    {
                        small = cr;
                        conf  = 0;
                        for (int t = 0; t < 3; ++t)
                        {
                            auto x = run_child(spec, {small}, rsh, wall_case + 10);
                            if (x.o != Outcome::pass)
                            {
                                ++conf;
                                fin = x;
                            }
                        }
                    }
                    if (conf == 3)
                    {
                        ++violations;
                        mkdir(replay_dir.c_str(), 0755);
                        std::string path = replay_dir + "/" + spec.property + "-seed" + std::to_string(seed) + (violations > 1 ? "-" + std::to_string(violations) : "") + ".replay";
                        write_replay(spec, path, {small}, fin);
                        printf("%s\n--- case (shrunk with %zu attempts to %zu choices) ---\n%s\n", fin.msg.c_str(), attempts, small.c.size(), fin.desc.c_str());
                        printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), path.c_str());
                        fflush(stdout);
                        if (!keep_going)
                        {
                            stop = true;
                            break;
                        }
                    }
                    else
                    {
                        ++unconfirmed;
                        unconfirmed_msgs.push_back(r.msg);
                    }
                }
                else
                {
                    ++unconfirmed;
                    unconfirmed_msgs.push_back(first.msg);
                    fprintf(stderr, "unconfirmed failure (did not reproduce alone): %s\n", first.msg.c_str());
                }
                if (unconfirmed > 20)
                {
                    kill_all();
                    fprintf(stderr, "too many unconfirmed failures\n");
                    return 3;
                }
                k.skip = k.sh->started;
                spawn(i);
            }
            if (!alive)
                break;
            real_sleep(0.01);
        }
        if (stop)
            kill_all();
        // collect
        uint64_t                        evals = 0;
        std::unordered_set<uint64_t>    distinct;
        std::map<std::string, uint64_t> labels, fams;
        std::vector<std::string>        samples;
        for (auto& o : outs)
        {
            std::ifstream f{o};
            std::string   line;
            while (std::getline(f, line))
            {
                if (line.size() < 3)
                    continue;
                std::string rest = line.substr(2);
                switch (line[0])
                {
                case 'E': evals += std::stoull(rest); break;
                case 'H': distinct.insert(std::stoull(rest)); break;
                case 'L':
                case 'F': {
                    auto sp = rest.find(' ');
                    (line[0] == 'L' ? labels : fams)[rest.substr(sp + 1)] += std::stoull(rest.substr(0, sp));
                    break;
                }
                case 'S':
                    if (samples.size() < 6)
                        samples.push_back(rest);
                    break;
                default: break;
                }
            }
        }
        const double el = wall() - t0 + start_off;
        if (!evidence.empty())
        {
            std::ofstream f{evidence};
            f << "{\n \"property\": \"" << spec.property << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
              << ",\n \"level\": \"" << spec.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size()
              << ",\n  \"rule\": \"" << jesc(spec.rule) << "\",\n  \"samples\": [";
            for (size_t i = 0; i < samples.size(); ++i)
                f << (i ? ",\n   " : "\n   ") << '"' << samples[i] << '"';
            f << "],\n  \"cases_per_family\": {";
            bool c = false;
            for (auto& [k, v] : fams)
            {
                f << (c ? ", " : "") << '"' << jesc(k) << "\": " << v;
                c = true;
            }
            f << "},\n  \"classes\": {";
            c = false;
            for (auto& [k, v] : labels)
            {
                f << (c ? ", " : "") << '"' << jesc(k) << "\": " << v;
                c = true;
            }
            f << "},\n  \"unconfirmed_failures\": " << unconfirmed << "\n },\n \"assumptions\": [";
            for (size_t i = 0; i < spec.assumptions.size(); ++i)
                f << (i ? ", " : "") << '"' << jesc(spec.assumptions[i]) << '"';
            f << "],\n \"wall_s\": " << el << ",\n \"violations\": " << violations << "\n}\n";
        }
        printf("%s: %llu cases, %zu distinct non-trivial, %d violation(s), %d unconfirmed, %.1fs\n", spec.property.c_str(), static_cast<unsigned long long>(evals), distinct.size(), violations, unconfirmed, el);
        return violations ? 1 : 0;
    }
}
