// C14: histories over disposables (composite of every capacity, callback, reference counted; strong, weak and empty handles),
// including operations issued from inside disposal callbacks, against a naive reference implementation.
#include "pbt.hpp"
#include "value.hpp"
#include <rpp/disposables.hpp>
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include <vector>

namespace
{
    using namespace h;

    enum Kind { kCallback, kComposite, kDyn2, kStatic0, kStatic1, kStatic2, kStatic4, kRef };
    const char* kind_name[] = {"callback", "composite", "dynamic(2)", "static(0)", "static(1)", "static(2)", "static(4)", "refcount"};
    int         capacity(int k) { return k == kStatic0 ? 0 : k == kStatic1 ? 1 : k == kStatic2 ? 2 : k == kStatic4 ? 4 : -1; }

    struct Op
    {
        enum K { Make, Copy, Weak, Drop, Add, AddMove, AddFn, Remove, Clear, Dispose, Ref, Nop } k = Nop;
        int             a = 0, b = 0, c = 0; // slots
        int             kind = 0;
        bool            strong_ref = false;
        std::vector<Op> script{}; // what the made node does when disposed
    };
    std::string show(const Op& o)
    {
        char b[160];
        switch (o.k)
        {
            case Op::Make: snprintf(b, sizeof b, "s%d = make %s", o.a, kind_name[o.kind]); break;
            case Op::Copy: snprintf(b, sizeof b, "s%d = s%d", o.a, o.b); break;
            case Op::Weak: snprintf(b, sizeof b, "s%d = s%d.as_weak()", o.a, o.b); break;
            case Op::Drop: snprintf(b, sizeof b, "s%d = empty", o.a); break;
            case Op::Add: snprintf(b, sizeof b, "s%d.add(s%d)", o.a, o.b); break;
            case Op::AddMove: snprintf(b, sizeof b, "s%d.add(move(s%d))", o.a, o.b); break;
            case Op::AddFn: snprintf(b, sizeof b, "s%d = s%d.add(fn)", o.c, o.a); break;
            case Op::Remove: snprintf(b, sizeof b, "s%d.remove(s%d)", o.a, o.b); break;
            case Op::Clear: snprintf(b, sizeof b, "s%d.clear()", o.a); break;
            case Op::Dispose: snprintf(b, sizeof b, "s%d.dispose()", o.a); break;
            case Op::Ref: snprintf(b, sizeof b, "s%d = s%d.add_ref(%s)", o.c, o.a, o.strong_ref ? "StrongRefRefSource" : "WeakRefStrongSource"); break;
            default: snprintf(b, sizeof b, "-");
        }
        std::string s = b;
        if (!o.script.empty())
        {
            s += " [when disposed: ";
            for (auto& x : o.script)
                s += show(x) + "; ";
            s += "]";
        }
        return s;
    }

    constexpr int kSlots = 6;

    struct Stat
    {
        int disposed = 0; // times the node's disposal action ran
        int alive    = 0;
        bool operator==(const Stat&) const = default;
    };

    // ------------------------------------------------------------------------------------------- reference
    struct MWorld;
    struct MNode;
    using Strong = std::shared_ptr<MNode>;
    struct MHandle
    {
        Strong               s{};
        std::weak_ptr<MNode> w{};
        bool                 is_weak = false;
        Strong               lock() const { return is_weak ? w.lock() : s; }
        static MHandle       strong(Strong p) { return {std::move(p), {}, false}; }
        MHandle              weak() const { return is_weak ? *this : MHandle{{}, s, true}; }
    };
    struct Overflow
    {
    };
    struct MNode
    {
        MWorld*              w;
        int                  id, kind; // kind -1: reference
        const std::vector<Op>* script;
        bool                 disposed = false;
        std::vector<MHandle> kids{};
        long                 refs = 0;
        MHandle              source{};      // of a reference
        std::weak_ptr<MNode> self{};
        void                 dispose(bool destroying);
        void                 add(MHandle h)
        {
            auto k = h.lock();
            if (!k || k->disposed || k.get() == this)
                return;
            if (disposed)
                return k->dispose(false);
            if (capacity(kind) >= 0 && static_cast<int>(kids.size()) >= capacity(kind))
                throw Overflow{};
            k.reset();
            kids.push_back(std::move(h));
        }
        void remove(const MHandle& h)
        {
            auto                 k = h.lock();
            std::vector<MHandle> out;
            if (!disposed)
                for (size_t i = 0; i < kids.size();)
                    if (kids[i].lock() == k)
                    {
                        out.push_back(kids[i]);
                        kids.erase(kids.begin() + static_cast<long>(i));
                    }
                    else
                        ++i;
        }
        void clear()
        {
            auto k = std::move(kids);
            kids.clear();
            for (auto& x : k)
                if (auto l = x.lock())
                    l->dispose(false);
        }
        void release()
        {
            if (refs < 0)
                return;
            if (--refs == 0)
            {
                refs = -1;
                dispose(false);
            }
        }
    };
    struct MWorld
    {
        std::vector<MHandle>      slots = std::vector<MHandle>(kSlots);
        std::vector<Stat>         st;
        std::vector<int>          kinds;
        int                       depth = 0, reentrant = 0, over = 0, budget = 400;
        std::vector<std::string>  outcome;
        Strong                    make(int kind, const std::vector<Op>* script)
        {
            const int id = static_cast<int>(st.size());
            st.emplace_back();
            st.back().alive = 1;
            kinds.push_back(kind);
            auto p  = Strong(new MNode{this, id, kind, script}, [](MNode* n) {
                n->dispose(true);
                auto kids = std::move(n->kids);
                n->kids.clear();
                kids.clear();
                --n->w->st[static_cast<size_t>(n->id)].alive;
                delete n;
            });
            p->self = p;
            return p;
        }
        void set(int i, MHandle h)
        {
            std::swap(slots[static_cast<size_t>(i)], h); // the old handle is dropped on return
        }
        void run(const Op& o)
        {
            if (--budget < 0)
                return;
            auto& a = slots[static_cast<size_t>(o.a)];
            switch (o.k)
            {
                case Op::Make: set(o.a, MHandle::strong(make(o.kind, &o.script))); break;
                case Op::Copy: set(o.a, MHandle{slots[static_cast<size_t>(o.b)]}); break;
                case Op::Weak: set(o.a, slots[static_cast<size_t>(o.b)].weak()); break;
                case Op::Drop: set(o.a, {}); break;
                case Op::Add:
                case Op::AddMove:
                {
                    auto    p = a.lock();
                    MHandle c = slots[static_cast<size_t>(o.b)];
                    if (p && (p->kind == kCallback))
                        break;
                    if (o.k == Op::AddMove)
                        set(o.b, {});
                    if (p)
                        try
                        {
                            p->add(std::move(c));
                        }
                        catch (Overflow&)
                        {
                            ++over;
                        }
                    else if (auto k = c.lock())
                        k->dispose(false);
                    break;
                }
                case Op::AddFn:
                {
                    auto p = a.lock();
                    if (!p || p->kind == kCallback)
                        break;
                    auto c = MHandle::strong(make(kCallback, &o.script));
                    try
                    {
                        p->add(c);
                        set(o.c, c);
                    }
                    catch (Overflow&)
                    {
                        ++over;
                    }
                    break;
                }
                case Op::Remove:
                {
                    auto p = a.lock();
                    if (!p || p->kind == kCallback)
                        break;
                    auto c = slots[static_cast<size_t>(o.b)];
                    p->remove(c);
                    break;
                }
                case Op::Clear:
                {
                    auto p = a.lock();
                    if (!p || p->kind == kCallback)
                        break;
                    if (!p->disposed)
                        p->clear();
                    break;
                }
                case Op::Dispose:
                    if (auto p = a.lock())
                        p->dispose(false);
                    break;
                case Op::Ref:
                {
                    auto p = a.lock();
                    if (!p || p->kind != kRef)
                        break;
                    if (p->refs < 0)
                    {
                        set(o.c, {});
                        break;
                    }
                    ++p->refs;
                    auto r    = make(-1, nullptr);
                    r->source = o.strong_ref ? MHandle::strong(p).weak() : MHandle::strong(p);
                    p->add(o.strong_ref ? MHandle::strong(r) : MHandle::strong(r).weak());
                    set(o.c, MHandle::strong(r));
                    break;
                }
                default: break;
            }
        }
    };
    void MNode::dispose(bool destroying)
    {
        if (disposed)
            return;
        disposed = true;
        refs     = -1;
        ++w->st[static_cast<size_t>(id)].disposed;
        if (kind == -1)
        {
            auto src = source;
            if (auto p = src.lock())
            {
                if (!destroying)
                    p->remove(MHandle::strong(self.lock()));
                p->release();
            }
            source = {};
        }
        if (script)
        {
            ++w->depth;
            if (w->depth <= 8)
                for (auto& o : *script)
                {
                    ++w->reentrant;
                    w->run(o);
                }
            --w->depth;
        }
        for (auto& x : kids)
            if (auto l = x.lock())
                l->dispose(false);
        auto k = std::move(kids);
        kids.clear();
    }

    // ------------------------------------------------------------------------------------------- the library
    struct RWorld;
    RWorld* R = nullptr;
    struct Life
    {
        int  id;
        explicit Life(int i);
        Life(const Life&);
        Life(Life&& o) noexcept;
        ~Life();
    };
    struct RHandle
    {
        rpp::disposable_wrapper                                d = rpp::disposable_wrapper::empty();
        rpp::composite_disposable_wrapper                      c = rpp::composite_disposable_wrapper::empty();
        rpp::disposable_wrapper_impl<rpp::refcount_disposable> r = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::empty();
        int                                                    kind = -2; // what it was made from
    };
    void disposed_hook(int id, const std::vector<Op>* script) noexcept;

    template<typename Container>
    struct Node final : rpp::composite_disposable_impl<Container>
    {
        Life                   life;
        const std::vector<Op>* script;
        Node(int id, const std::vector<Op>* s)
            : life{id}
            , script{s}
        {
        }
        void composite_dispose_impl(rpp::interface_disposable::Mode) noexcept override { disposed_hook(life.id, script); }
    };
    namespace cont = rpp::details::disposables;

    struct RWorld
    {
        std::vector<RHandle> slots = std::vector<RHandle>(kSlots);
        std::vector<Stat>    st;
        std::vector<int>     kinds;
        int                  depth = 0, budget = 400, over = 0;

        int new_id(int kind)
        {
            st.emplace_back();
            kinds.push_back(kind);
            return static_cast<int>(st.size()) - 1;
        }
        template<typename C>
        RHandle composite(int id, const std::vector<Op>* s, int kind)
        {
            RHandle h;
            h.c    = rpp::composite_disposable_wrapper::make<Node<C>>(id, s);
            h.d    = h.c;
            h.kind = kind;
            return h;
        }
        RHandle make(int kind, const std::vector<Op>* s)
        {
            const int id = new_id(kind);
            RHandle   h;
            h.kind = kind;
            switch (kind)
            {
                case kCallback: h.d = rpp::make_callback_disposable([l = Life{id}, s]() noexcept { disposed_hook(l.id, s); }); return h;
                case kComposite: return composite<cont::dynamic_disposables_container<0>>(id, s, kind);
                case kDyn2: return composite<cont::dynamic_disposables_container<2>>(id, s, kind);
                case kStatic0: return composite<cont::none_disposables_container>(id, s, kind);
                case kStatic1: return composite<cont::static_disposables_container<1>>(id, s, kind);
                case kStatic2: return composite<cont::static_disposables_container<2>>(id, s, kind);
                case kStatic4: return composite<cont::static_disposables_container<4>>(id, s, kind);
                default:
                    h.r = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
                    h.c = h.r;
                    h.d = h.r;
                    return h;
            }
        }
        void set(int i, RHandle h) { std::swap(slots[static_cast<size_t>(i)], h); }
        void run(const Op& o)
        {
            if (--budget < 0)
                return;
            auto& a = slots[static_cast<size_t>(o.a)];
            switch (o.k)
            {
                case Op::Make: set(o.a, make(o.kind, &o.script)); break;
                case Op::Copy: set(o.a, RHandle{slots[static_cast<size_t>(o.b)]}); break;
                case Op::Weak:
                {
                    RHandle h;
                    {
                        auto& b = slots[static_cast<size_t>(o.b)];
                        h.d     = b.d.as_weak();
                        h.c     = b.c.as_weak();
                        h.r     = b.r.as_weak();
                        h.kind  = b.kind;
                    }
                    set(o.a, h);
                    break;
                }
                case Op::Drop: set(o.a, {}); break;
                case Op::Add:
                case Op::AddMove:
                {
                    const auto p = a.d.lock();
                    if (p && a.kind == kCallback)
                        break;
                    auto parent = a.c;
                    auto c      = slots[static_cast<size_t>(o.b)].d;
                    if (o.k == Op::AddMove)
                        set(o.b, {});
                    try
                    {
                        if (p && o.kind % 2)
                            parent.lock()->add(std::move(c));
                        else
                            parent.add(std::move(c));
                    }
                    catch (const rpp::utils::more_disposables_than_expected&)
                    {
                        ++over;
                    }
                    break;
                }
                case Op::AddFn:
                {
                    const auto p = a.c.lock();
                    if (!p)
                        break;
                    const int id = new_id(kCallback);
                    try
                    {
                        RHandle h;
                        h.kind = kCallback;
                        auto s = &o.script;
                        h.d    = p->add([l = Life{id}, s]() noexcept { disposed_hook(l.id, s); });
                        set(o.c, h);
                    }
                    catch (const rpp::utils::more_disposables_than_expected&)
                    {
                        ++over;
                    }
                    break;
                }
                case Op::Remove:
                {
                    auto parent = a.c;
                    auto c      = slots[static_cast<size_t>(o.b)].d;
                    parent.remove(c);
                    break;
                }
                case Op::Clear:
                {
                    auto parent = a.c;
                    parent.clear();
                    break;
                }
                case Op::Dispose:
                {
                    auto x = a.d;
                    x.dispose();
                    break;
                }
                case Op::Ref:
                {
                    const auto p = a.r.lock();
                    if (!p)
                        break;
                    RHandle h;
                    h.c = p->add_ref(o.strong_ref ? rpp::refcount_disposable::Mode::StrongRefRefSource : rpp::refcount_disposable::Mode::WeakRefStrongSource);
                    h.d = h.c;
                    if (h.c.lock())
                    {
                        new_id(-1);
                        h.kind = -1;
                    }
                    set(o.c, h);
                    break;
                }
                default: break;
            }
        }
    };
    Life::Life(int i)
        : id{i}
    {
        ++R->st[static_cast<size_t>(id)].alive;
    }
    Life::Life(const Life& o)
        : id{o.id}
    {
        ++R->st[static_cast<size_t>(id)].alive;
    }
    Life::Life(Life&& o) noexcept
        : id{o.id}
    {
        ++R->st[static_cast<size_t>(id)].alive;
    }
    Life::~Life()
    {
        if (R)
            --R->st[static_cast<size_t>(id)].alive;
    }
    void disposed_hook(int id, const std::vector<Op>* script) noexcept
    {
        ++R->st[static_cast<size_t>(id)].disposed;
        if (R->st[static_cast<size_t>(id)].disposed > 1)
            pbt::fail_soft("node %d: its disposal action ran twice", id);
        ++R->depth;
        if (R->depth <= 8)
            for (auto& o : *script)
                R->run(o);
        --R->depth;
    }

    struct Opt
    {
        bool reentrant = true, refs = true;
        int  ops = 25;
        bool focus = false; // most operations are on one container (slot 0), of a generated kind
    };

    Op gen_op(pbt::Gen& g, const Opt& o, int depth)
    {
        Op p;
        auto slot = [&] { return static_cast<int>(g.below(kSlots)); };
        p.a = slot();
        p.b = slot();
        p.c = slot();
        p.k = static_cast<Op::K>(g.weighted({depth ? 2u : 6u, 1, 2, 2, 5, 2, 2, o.focus ? 6u : 3u, o.focus ? 1u : 2u, o.focus ? 1u : 3u, o.refs ? 3u : 0u}));
        if (o.focus)
        {
            const bool child = p.k == Op::Make || p.k == Op::Copy || p.k == Op::Weak || p.k == Op::Drop || (p.k == Op::Dispose && g.chance(3, 4));
            p.a              = child ? g.range(1, kSlots - 1) : g.chance(1, 12) ? p.a : 0;
            p.b              = g.range(1, kSlots - 1);
            p.c              = g.range(1, kSlots - 1);
        }
        if (p.k == Op::Make || p.k == Op::AddFn)
        {
            p.kind = static_cast<int>(g.weighted({o.focus ? 30u : 6u, 5, 1, 1, 1, 2, 1, o.refs ? 4u : 0u}));
            if (o.reentrant && depth < 2 && g.chance(1, 2))
                for (int n = g.range(1, 2); n > 0; --n)
                    p.script.push_back(gen_op(g, o, depth + 1));
            if (p.k == Op::Make && p.kind == kRef)
                p.script.clear();
        }
        else
            p.kind = static_cast<int>(g.below(2));
        p.strong_ref = g.coin();
        return p;
    }

    void run_case(pbt::Gen& g, const Opt& o)
    {
        auto m  = std::make_unique<MWorld>();
        auto r  = std::make_unique<RWorld>();
        R       = r.get();
        struct Reset
        {
            ~Reset() { R = nullptr; }
        } reset;
        std::vector<std::unique_ptr<Op>> prog; // scripts are referred to by address
        const int                        n = g.range(3, o.ops);
        int                              applied = 0;
        auto                             compare = [&](const char* when) {
            if (pbt::g_sh->failed)
                pbt::fail("%s", pbt::g_sh->msg);
            if (r->st.size() != m->st.size())
                pbt::fail("%s: %zu disposables were made instead of %zu", when, r->st.size(), m->st.size());
            for (size_t i = 0; i < m->st.size(); ++i)
            {
                if (m->kinds[i] != r->kinds[i])
                    pbt::fail("%s: node %zu is of another kind", when, i);
                if (m->kinds[i] == kRef || m->kinds[i] == -1)
                    continue;
                if (r->st[i].disposed != m->st[i].disposed)
                    pbt::fail("%s: disposal action of node %zu (%s) ran %d times, expected %d", when, i, m->kinds[i] < 0 ? "reference" : kind_name[m->kinds[i]], r->st[i].disposed, m->st[i].disposed);
                if (r->st[i].alive != m->st[i].alive)
                    pbt::fail("%s: node %zu (%s) is %s, expected to be %s", when, i, kind_name[m->kinds[i]], r->st[i].alive ? "alive" : "gone", m->st[i].alive ? "alive" : "gone");
            }
            if (r->over != m->over)
                pbt::fail("%s: %d additions were refused, expected %d", when, r->over, m->over);
            for (int i = 0; i < kSlots; ++i)
            {
                auto&      rs = r->slots[static_cast<size_t>(i)];
                auto       ml = m->slots[static_cast<size_t>(i)].lock();
                const bool md = !ml || ml->disposed;
                if (rs.d.is_disposed() != md || rs.c.is_disposed() != (md || ml->kind == kCallback))
                    pbt::fail("%s: s%d.is_disposed() is %d, expected %d", when, i, static_cast<int>(rs.d.is_disposed()), static_cast<int>(md));
                if (!rs.d.lock() != !ml)
                    pbt::fail("%s: s%d %s, expected the opposite", when, i, rs.d.lock() ? "still refers to a disposable" : "refers to nothing");
                for (int j = 0; j < i; ++j)
                    if ((rs.d == r->slots[static_cast<size_t>(j)].d) != (ml == m->slots[static_cast<size_t>(j)].lock()))
                        pbt::fail("%s: comparison of s%d and s%d is wrong", when, i, j);
            }
        };
        for (int i = 0; i < n; ++i)
        {
            prog.push_back(std::make_unique<Op>(gen_op(g, o, 0)));
            auto& p = *prog.back();
            if (o.focus && i == 0)
            {
                p.k    = Op::Make;
                p.a    = 0;
                p.kind = static_cast<int>(g.weighted({0, 2, 2, 0, 1, 3, 4}));
            }
            pbt::note("%s\n", show(p).c_str());
            m->run(p);
            r->run(p);
            compare(show(p).c_str());
            ++applied;
        }
        int disposed = 0, alive = 0;
        for (auto& s : m->st)
            disposed += s.disposed;
        // everything is dropped; what is still alive then is held by a cycle of strong handles in both worlds
        pbt::note("all handles are dropped\n");
        for (int i = 0; i < kSlots; ++i)
        {
            m->set(i, {});
            r->set(i, {});
        }
        compare("all handles dropped");
        for (auto& s : m->st)
            alive += s.alive;
        pbt::nontrivial(m->st.size() >= 3 && disposed >= 1);
        if (m->reentrant) pbt::label("operation inside a disposal");
        if (m->over) pbt::label("addition over the capacity");
        if (alive) pbt::label("cycle of strong handles");
        bool ref = false;
        for (int k : m->kinds)
            ref |= k == -1;
        if (ref) pbt::label("counted reference");
        if (alive)
        { // leave the cycles behind without running anything
            m.release();
        }
        if (alive)
            r.release();
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C14";
    s.rule             = "at least three disposables were made and at least one was disposed; distinct by the full sequence of generator choices";
    s.assumptions      = {"one thread"};
    s.case_cpu_limit_s = 2;
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t}); };
    fam("plain", {false, false, 30}, 70000, 4000000);
    fam("plain-refs", {false, true, 30}, 70000, 4000000);
    fam("reentrant", {true, false, 20}, 100000, 6000000);
    fam("reentrant-refs", {true, true, 20}, 100000, 6000000);
    fam("one container", {false, false, 30, true}, 60000, 3000000);
    fam("one container, reentrant", {true, false, 20, true}, 60000, 3000000);
    return pbt::run_main(argc, argv, s);
}
