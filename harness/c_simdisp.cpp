// C21: threads share composite / callback / reference counted disposables under simulated schedules.
#include "simrt.hpp"
#include <rpp/disposables.hpp>
#include <algorithm>
#include <climits>
#include <memory>
#include <thread>
#include <vector>

namespace
{
    using rpp::disposable_wrapper;
    using rpp::composite_disposable_wrapper;

    enum { kLog = 1 };
    enum What { Add, AddWeak, Remove, Clear, Dispose, IsDisposed, AddRef, DisposeRef, Drop, kWhats };
    const char* what_name[] = {"add", "add weak", "remove", "clear", "dispose", "is_disposed", "add_ref", "dispose ref", "drop"};

    struct Op
    {
        int what = 0, node = 0, child = 0;
    };
    // what really happened
    struct Done
    {
        Op   op;
        long b, e;
        int  result;
    };
    constexpr int kMaxNodes = 12, kMaxDone = 400;
    Done          g_done[kMaxDone];
    int           g_ndone;

    // nodes 0..containers-1 are containers, then leaves; references taken during the run get their own slots
    struct Plan
    {
        int                          containers = 1, leaves = 2, capacity[4]{};
        std::vector<std::vector<Op>> threads;
        std::vector<Op>              before;
        std::vector<std::vector<Op>> script; // per leaf: what it does when disposed
        std::vector<int>             dropped; // per node: 1 if its owner drops it during the run
    };
    // containers: -1 dynamic, 0..3 static of that capacity + 1, 9 reference counted
    struct World
    {
        const Plan*                               plan;
        std::vector<composite_disposable_wrapper> cont;
        rpp::disposable_wrapper_impl<rpp::refcount_disposable> ref = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::empty();
        std::vector<disposable_wrapper>           leaf, leaf_weak;
        composite_disposable_wrapper              refs[16];
        World() : refs{composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(),
                       composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(),
                       composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(),
                       composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty(), composite_disposable_wrapper::empty()} {}
    };
    World* W;

    int  begin_op(const Op& o)
    {
        sim::Quiet q;
        if (g_ndone == kMaxDone)
            return kMaxDone - 1;
        g_done[g_ndone] = {o, sim::steps(), -1, 0};
        return g_ndone++;
    }
    void end_op(int i, int result)
    {
        sim::Quiet q;
        g_done[i].e      = sim::steps();
        g_done[i].result = result;
    }

    disposable_wrapper child_of(int n, bool weak)
    {
        if (n < W->plan->containers)
            return weak ? disposable_wrapper{W->cont[n].as_weak()} : disposable_wrapper{W->cont[n]};
        const int l = n - W->plan->containers;
        return weak || W->plan->dropped[n] ? W->leaf_weak[l] : W->leaf[l];
    }

    void exec(const Op& o)
    {
        const int i = begin_op(o);
        sim::point();
        int       r = 0;
        switch (o.what)
        {
            case Add: W->cont[o.node].add(child_of(o.child, false)); break;
            case AddWeak: W->cont[o.node].add(child_of(o.child, true)); break;
            case Remove: W->cont[o.node].remove(child_of(o.child, false)); break;
            case Clear: W->cont[o.node].clear(); break;
            case Dispose: o.node < W->plan->containers ? W->cont[o.node].dispose() : child_of(o.node, false).dispose(); break;
            case IsDisposed: r = o.node < W->plan->containers ? W->cont[o.node].is_disposed() : child_of(o.node, false).is_disposed(); break;
            case AddRef:
            {
                auto x = W->ref.lock()->add_ref(o.child % 2 ? rpp::refcount_disposable::Mode::StrongRefRefSource : rpp::refcount_disposable::Mode::WeakRefStrongSource);
                r      = x.lock() != nullptr;
                W->refs[o.child] = std::move(x); // slot used by this thread only
                break;
            }
            case DisposeRef: W->refs[o.child].dispose(); break;
            case Drop: W->leaf[o.node - W->plan->containers] = disposable_wrapper::empty(); break;
        }
        end_op(i, r);
    }

    struct Leaf
    {
        int  n;
        std::shared_ptr<int> payload = std::make_shared<int>(7);
        void operator()() const noexcept
        {
            if (*payload != 7)
                pbt::fail("the callback's state is damaged");
            if (sim::add(n) > 1)
                pbt::fail("leaf %d: its disposal action ran twice", n);
            sim::point();
            sim::add(100 + n);
            if (!sim::get(500))
                for (const auto& o : W->plan->script[n])
                    exec(o);
            sim::add(100 + n, -1);
        }
    };

    composite_disposable_wrapper make(int cap)
    {
        using namespace rpp::details::disposables;
        switch (cap)
        {
            case 0: return composite_disposable_wrapper::make<rpp::composite_disposable_impl<static_disposables_container<1>>>();
            case 1: return composite_disposable_wrapper::make<rpp::composite_disposable_impl<static_disposables_container<2>>>();
            case 2: return composite_disposable_wrapper::make<rpp::composite_disposable_impl<static_disposables_container<3>>>();
            default: return composite_disposable_wrapper::make();
        }
    }

    struct Opt
    {
        bool refs = false, nested = false, scripts = false, tree = false;
    };

    void run_case(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        p.containers = o.tree ? g.range(2, 4) : 1;
        p.leaves     = g.range(1, 4);
        for (int i = 0; i < p.containers; ++i)
            p.capacity[i] = i == 0 && o.refs ? 9 : -1;
        const int nodes = p.containers + p.leaves;
        p.dropped.assign(nodes, 0);
        for (int i = p.containers; i < nodes; ++i)
            p.dropped[i] = g.chance(1, 6);
        int        nthreads = g.range(2, 4);
        std::vector<std::pair<int, int>> added; // (container, child) for capacity
        auto op = [&](bool script) {
            Op x;
            x.what = static_cast<int>(g.weighted({5, 2, 3, 2, 2, 1}));
            x.node = static_cast<int>(g.below(static_cast<uint32_t>(p.containers)));
            if (x.what <= Remove)
            {
                // a container may only be put below a later one: no cycles
                const int lo = x.node + 1;
                x.child      = o.tree && g.chance(1, 3) && lo < p.containers ? g.range(lo, p.containers - 1) : p.containers + static_cast<int>(g.below(static_cast<uint32_t>(p.leaves)));
                if (x.what != Remove)
                    added.push_back({x.node, x.child});
            }
            if ((x.what == Dispose || x.what == IsDisposed) && g.chance(1, 3))
                x.node = p.containers + static_cast<int>(g.below(static_cast<uint32_t>(p.leaves)));
            (void)script;
            return x;
        };
        const int nb = g.range(0, 3);
        for (int i = 0; i < nb; ++i)
        {
            Op x = op(false);
            if (x.what == Clear || x.what == Dispose)
                x.what = IsDisposed;
            p.before.push_back(x);
        }
        p.script.resize(p.leaves);
        if (o.scripts)
            for (auto& s : p.script)
            {
                const int n = g.range(0, 2);
                for (int i = 0; i < n; ++i)
                    s.push_back(op(true));
            }
        int refslot = 0;
        p.threads.resize(nthreads);
        for (auto& t : p.threads)
        {
            const int        n = g.range(1, 4);
            std::vector<int> mine;
            for (int i = 0; i < n; ++i)
            {
                if (o.refs && g.chance(2, 3))
                {
                    if (!mine.empty() && g.coin())
                    {
                        t.push_back({DisposeRef, 0, mine[g.below(static_cast<uint32_t>(mine.size()))]});
                    }
                    else if (refslot < 16)
                    {
                        mine.push_back(refslot);
                        t.push_back({AddRef, 0, refslot++});
                    }
                    continue;
                }
                t.push_back(op(false));
                if (o.refs && t.back().what == Dispose && t.back().node == 0 && g.coin())
                    t.back().what = IsDisposed;
            }
        }
        for (int i = p.containers; i < nodes; ++i)
            if (p.dropped[i])
            {
                auto& t = p.threads[g.below(static_cast<uint32_t>(nthreads))];
                t.insert(t.begin() + g.below(static_cast<uint32_t>(t.size() + 1)), {Drop, i, 0});
            }
        // static capacities large enough for everything that could be in at once
        if (!o.refs)
            for (int i = 0; i < p.containers; ++i)
            {
                const auto n = static_cast<int>(std::count_if(added.begin(), added.end(), [&](auto& a) { return a.first == i; }));
                if (n && n <= 3 && g.coin())
                    p.capacity[i] = 2;
                else if (n == 1 && g.coin())
                    p.capacity[i] = 0;
            }
        auto show = [&](const Op& x) {
            static char b[4][80];
            static int  k = 0;
            char*       r = b[k++ & 3];
            if (x.what <= Remove)
                snprintf(r, 80, "%d.%s(%d)", x.node, what_name[x.what], x.child);
            else if (x.what == AddRef || x.what == DisposeRef)
                snprintf(r, 80, "%s #%d", what_name[x.what], x.child);
            else
                snprintf(r, 80, "%d.%s", x.node, what_name[x.what]);
            return r;
        };
        for (int i = 0; i < p.containers; ++i)
            pbt::note("%d: %s\n", i, p.capacity[i] == 9 ? "refcount" : p.capacity[i] == 2 ? "static(3)" : p.capacity[i] == 0 ? "static(1)" : "composite");
        for (int i = 0; i < p.leaves; ++i)
        {
            pbt::note("%d: callback%s", p.containers + i, p.dropped[p.containers + i] ? " (held weakly)" : "");
            for (auto& x : p.script[i])
                pbt::note(" when disposed: %s;", show(x));
            pbt::note("\n");
        }
        pbt::note("before:");
        for (auto& x : p.before)
            pbt::note(" %s;", show(x));
        pbt::note("\n");
        for (auto& t : p.threads)
        {
            pbt::note("thread:");
            for (auto& x : t)
                pbt::note(" %s;", show(x));
            pbt::note("\n");
        }

        sim::begin(g, sim::draw(g));
        const long news = sim::live_news();
        long       run_b, run_e;
        {
            World w;
            w.plan = &p;
            W      = &w;
            for (int i = 0; i < p.containers; ++i)
            {
                if (p.capacity[i] == 9)
                {
                    w.ref = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
                    w.cont.push_back(w.ref);
                }
                else
                    w.cont.push_back(make(p.capacity[i]));
            }
            for (int i = 0; i < p.leaves; ++i)
            {
                w.leaf.push_back(rpp::make_callback_disposable(Leaf{i}));
                w.leaf_weak.push_back(w.leaf.back().as_weak());
            }
            for (auto& x : p.before)
                exec(x);
            run_b = sim::steps();
            {
                std::vector<std::thread> ts;
                ts.reserve(p.threads.size());
                for (auto& t : p.threads)
                    ts.emplace_back([&t] {
                        for (auto& x : t)
                            exec(x);
                    });
                for (auto& t : ts)
                    t.join();
            }
            run_e = sim::steps();
            sim::set(500, 1); // no more scripts

            // ---- what must and what may have happened ----
            auto disposed = [&](int n) { return n < p.containers ? w.cont[n].is_disposed() : child_of(n, true).is_disposed(); };
            int  fin[kMaxNodes];
            for (int n = 0; n < nodes; ++n)
                fin[n] = disposed(n);
            {
                sim::Quiet q;
                for (int i = 0; i < g_ndone; ++i)
                    if (g_done[i].e < 0)
                        pbt::fail("an operation did not return");
                int overlapping = 0;
                for (int n = 0; n < nodes; ++n)
                {
                    bool must = false, may = p.dropped[n] != 0;
                    long ref_all = -1;
                    for (int i = 0; i < g_ndone; ++i)
                    {
                        const Done& d = g_done[i];
                        if (d.op.what == Dispose && d.op.node == n)
                        {
                            may = true;
                            must |= !p.dropped[n];
                        }
                    }
                    if (p.capacity[n < p.containers ? n : 0] == 9 && n == 0)
                    {
                        // the reference counted one: gone when references were handed out and all are gone
                        int given = 0, live = 0;
                        for (int i = 0; i < g_ndone; ++i)
                            if (g_done[i].op.what == AddRef && g_done[i].result)
                            {
                                ++given;
                                bool gone = false;
                                for (int k = 0; k < g_ndone; ++k)
                                    gone |= g_done[k].op.what == DisposeRef && g_done[k].op.child == g_done[i].op.child;
                                live += !gone;
                            }
                        if (given && !live)
                            must = may = true;
                        for (int i = 0; i < g_ndone; ++i) // clearing disposes the references
                            may |= given && g_done[i].op.what == Clear && g_done[i].op.node == 0;
                        (void)ref_all;
                    }
                    for (int a = 0; a < g_ndone; ++a)
                    {
                        const Done& A = g_done[a];
                        if (A.op.what > AddWeak || A.op.child != n)
                            continue;
                        const int x          = A.op.node;
                        bool      removal    = false; // a removal may have come after this addition
                        long      removed_at = LONG_MAX; // end of a removal that certainly came after every addition
                        for (int i = 0; i < g_ndone; ++i)
                        {
                            const Done& R = g_done[i];
                            if (R.op.what != Remove || R.op.node != x || R.op.child != n)
                                continue;
                            removal |= R.e > A.b;
                            bool after_all = true;
                            for (int k = 0; k < g_ndone; ++k)
                                if (g_done[k].op.what <= AddWeak && g_done[k].op.node == x && g_done[k].op.child == n && g_done[k].e >= R.b)
                                    after_all = false;
                            if (after_all && R.e < removed_at)
                                removed_at = R.e;
                        }
                        // disposal or clearing of the container
                        long first_end = LONG_MAX, last_end = -1;
                        for (int i = 0; i < g_ndone; ++i)
                        {
                            const Done& C = g_done[i];
                            if (C.op.what == Clear && C.op.node == x)
                            {
                                if (C.b > A.e && !removal && !p.dropped[n])
                                    must = true;
                                if (C.e > A.b && C.b <= removed_at)
                                    may = true;
                            }
                            (void)first_end;
                            (void)last_end;
                        }
                        if (fin[x])
                        {
                            if (!removal && !p.dropped[n])
                                must = true;
                            may |= removed_at == LONG_MAX;
                            // with a removal that certainly came last, only a disposal that began before it ended can have got the child
                            if (removed_at != LONG_MAX)
                            {
                                if (x == 0 && o.refs)
                                    may = true; // disposed through a reference: keep it simple
                                for (int i = 0; i < g_ndone; ++i)
                                    if (g_done[i].op.what == Dispose && g_done[i].op.node == x && g_done[i].b <= removed_at)
                                        may = true;
                                for (int i = 0; i < g_ndone; ++i) // or through its own parent
                                    if (g_done[i].op.what <= AddWeak && g_done[i].op.child == x)
                                        may = true;
                            }
                        }
                    }
                    if (must && !fin[n])
                        pbt::fail("node %d should have been disposed and was missed", n);
                    if (!may && fin[n])
                        pbt::fail("node %d was disposed although nothing asked for it", n);
                    if (n >= p.containers)
                    {
                        const int l = n - p.containers;
                        if (!p.dropped[n] && sim::get(l) != fin[n])
                            pbt::fail("leaf %d: is_disposed is %d but its action ran %d times", n, fin[n], sim::get(l));
                        if (sim::get(100 + l))
                            pbt::fail("leaf %d: its action has not finished", n);
                    }
                }
                // answers
                for (int i = 0; i < g_ndone; ++i)
                {
                    const Done& q1 = g_done[i];
                    if (q1.op.what != IsDisposed)
                        continue;
                    if (q1.result && !fin[q1.op.node])
                        pbt::fail("node %d said it is disposed and later that it isn't", q1.op.node);
                    for (int k = 0; k < g_ndone; ++k)
                        if (g_done[k].e < q1.b && !q1.result && ((g_done[k].op.what == Dispose && g_done[k].op.node == q1.op.node) || (g_done[k].op.what == IsDisposed && g_done[k].op.node == q1.op.node && g_done[k].result)))
                            pbt::fail("node %d said it is not disposed after its disposal", q1.op.node);
                }
                for (int i = 0; i < g_ndone; ++i)
                    for (int k = 0; k < i; ++k)
                        overlapping += g_done[i].b < g_done[k].e && g_done[k].b < g_done[i].e && g_done[k].op.node == g_done[i].op.node;
                pbt::nontrivial(overlapping > 0);
                if (overlapping > 2)
                    pbt::label(">2 overlapping operations on a node");
                for (int n = 0; n < nodes; ++n)
                    if (fin[n])
                        pbt::label("a node got disposed");
                if (!o.refs)
                    ;
                else
                    pbt::label(fin[0] ? "source released" : "source kept");
            }
        }
        (void)run_b;
        (void)run_e;
        sim::finish();
        for (int l = 0; l < p.leaves; ++l)
            if (sim::get(l) != 1)
                pbt::fail("leaf %d: after everything was dropped its action has run %d times", p.containers + l, sim::get(l));
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C21";
    s.rule             = "two operations on the same disposable overlapped; distinct by the full sequence of generator choices (program and schedule)";
    s.assumptions      = {"sequentially consistent interleavings, with data races checked against the declared memory orders", "no cycles of containers"};
    s.case_cpu_limit_s = 5;
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t, true}); };
    fam("one container", {}, 30000, 1500000);
    Opt tree;
    tree.tree = true;
    fam("tree", tree, 30000, 1500000);
    Opt scr;
    scr.tree = scr.scripts = true;
    fam("re-entrant", scr, 30000, 1500000);
    Opt refs;
    refs.refs = true;
    fam("references", refs, 40000, 2000000);
    return pbt::run_main(argc, argv, s);
}
