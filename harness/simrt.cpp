#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.hpp"
#include <cerrno>
#include <climits>
#include <csignal>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void  __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" int   __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
extern "C" void* __dso_handle;

namespace sim
{
    using u8  = unsigned char;
    using u32 = uint32_t;
    using u64 = uint64_t;
    constexpr int T = kMaxThreads;

    struct VC
    {
        u32  c[T];
        void join(const VC& o)
        {
            for (int i = 0; i < T; ++i)
                if (o.c[i] > c[i])
                    c[i] = o.c[i];
        }
    };

    enum State
    {
        kRun,
        kMutex,
        kCond,
        kJoin,
        kSleep,
        kGuard,
        kPred,
        kDrain,
        kEnded
    };

    struct Thread
    {
        int         id;
        State       state;
        const void* obj;      // what it waits for
        void*       mutex;    // mutex to get back after a condition variable
        int64_t     deadline; // INT64_MAX: none
        bool        signaled;
        bool (*pred)(void*);
        void*       arg;
        VC          vc;
        int         go; // futex
        void* (*fn)(void*);
        void*       fn_arg;
        pthread_t   pt;
        bool        detached;
        const char* name;
    };

    // ---- tables (zero pages, no allocation through malloc) ----
    template<class V, int N>
    struct Table
    {
        struct E
        {
            u64 key;
            V   v;
        };
        E*  e = nullptr;
        int used = 0;
        void init() { e = static_cast<E*>(mmap(nullptr, sizeof(E) * N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); }
        V*   find(u64 key, bool make)
        {
            u64 i = (key * 0x9e3779b97f4a7c15ull >> 40) % N;
            while (e[i].key && e[i].key != key)
                i = (i + 1) % N;
            if (!e[i].key)
            {
                if (!make)
                    return nullptr;
                if (++used > N * 3 / 4)
                    pbt::fail("simulation: out of table space");
                e[i].key = key;
            }
            return &e[i].v;
        }
    };
    struct Mx
    {
        int owner1; // thread id + 1
        int count;
        VC  vc;
    };
    struct Cell // what the threads did to one 8-byte granule
    {
        u32 wclk[T], rclk[T], aclk[T];
        u32 wpc[T], rpc[T];
        u8  wm[T], rm[T], am[T];
    };
    struct Page
    {
        Cell* cells;
    };

    static bool         g_active = false;
    static int          g_rt     = 0; // inside the runtime (only the running thread touches it)
    static Thread       g_t[T];
    static int          g_n   = 0;
    static int          g_cur = 0;
    static int64_t      g_now = 0;
    static long         g_steps, g_run_len, g_spins;
    static int          g_left, g_gap_mean;
    static int          g_spurious = -1; // waits left till the one which wakes up without a reason (0: none in this run, -1: not drawn yet)
    static long         g_gap;
    static bool         g_jumps = true;
    static pbt::Gen*    g_gen = nullptr;
    static Table<Mx, 1 << 12>   g_mx;
    static Table<VC, 1 << 14>   g_sync;
    static Table<int, 1 << 10>  g_guard;
    static Table<Page, 1 << 14> g_pages;
    static char*        g_cellmem = nullptr;
    static size_t       g_cellpos = 0;
    constexpr size_t    kCellMem  = size_t{4} << 30;
    static char*        g_arena   = nullptr;
    static u8*          g_astate  = nullptr; // per 8 bytes of the arena: 0 never allocated, 1 live, 2 freed, 3 live and not tracked
    static size_t       g_apos    = 0;
    constexpr size_t    kArena    = size_t{256} << 20;
    static long         g_news    = 0;
    static int          g_slots[4096];
    static Ev*          g_log     = nullptr;
    static size_t       g_logn    = 0;
    constexpr size_t    kLog      = 1 << 18;
    constexpr long      kBudget   = 400000;
    constexpr long      kForce    = 400;
    static bool         g_trace   = false;
    static __thread Thread* t_self __attribute__((tls_model("initial-exec"))) = nullptr;

    struct Rt
    {
        Rt() { ++g_rt; }
        ~Rt() { --g_rt; }
    };
    static inline bool on() { return g_active && !g_rt && t_self; }

    Quiet::Quiet()
        : saved{0}
    {
        ++g_rt;
    }
    Quiet::~Quiet() { --g_rt; }

    bool    active() { return g_active; }
    int     self() { return t_self ? t_self->id : 0; }
    int     threads() { return g_n; }
    int64_t now() { return g_now; }
    long    steps() { return g_steps; }
    long    live_news() { return g_news; }
    void    name_thread(const char* n)
    {
        if (t_self)
            t_self->name = n;
    }
    int alive()
    {
        int r = 0;
        for (int i = 1; i < g_n; ++i)
            r += g_t[i].state != kEnded;
        return r;
    }
    int  add(int slot, int by) { return g_slots[slot] += by; }
    int  get(int slot) { return g_slots[slot]; }
    void set(int slot, int v) { g_slots[slot] = v; }
    void log(int kind, int a, int b)
    {
        if (g_logn < kLog)
            g_log[g_logn++] = Ev{kind, a, b, self(), g_now, g_steps};
        if (g_trace)
            fprintf(stderr, "T%d   log %d %d %d\n", self(), kind, a, b);
    }
    size_t    log_size() { return g_logn; }
    const Ev& log_at(size_t i) { return g_log[i]; }

    // ---- switching ----
    static void futex_wait(int* p)
    {
        while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
            syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        __atomic_store_n(p, 0, __ATOMIC_RELAXED);
    }
    static void futex_post(int* p)
    {
        __atomic_store_n(p, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    static bool can_run(const Thread& t)
    {
        switch (t.state)
        {
            case kRun: return true;
            case kMutex:
            {
                Mx* m = g_mx.find(reinterpret_cast<u64>(t.obj), true);
                return m->owner1 == 0;
            }
            case kCond:
            {
                if (!t.signaled && t.deadline > g_now)
                    return false;
                return g_mx.find(reinterpret_cast<u64>(t.mutex), true)->owner1 == 0;
            }
            case kJoin: return static_cast<const Thread*>(t.obj)->state == kEnded;
            case kSleep: return t.deadline <= g_now;
            case kGuard: return *g_guard.find(reinterpret_cast<u64>(t.obj), true) == 0;
            case kPred: return t.pred(t.arg);
            default: return false;
        }
    }
    static const char* state_name(const Thread& t)
    {
        switch (t.state)
        {
            case kRun: return "runnable";
            case kMutex: return "waits for a mutex";
            case kCond: return t.signaled ? "waits for its mutex after a wake-up" : "waits on a condition variable";
            case kJoin: return "joins a thread";
            case kSleep: return "sleeps";
            case kGuard: return "waits for a static initialisation";
            case kPred: return "waits for the others";
            case kDrain: return "waits for all";
            default: return "ended";
        }
    }
    static void dump()
    {
        for (int i = 0; i < g_n; ++i)
            pbt::note("thread %d%s%s: %s%s\n", i, g_t[i].name ? " " : "", g_t[i].name ? g_t[i].name : "", state_name(g_t[i]),
                      g_t[i].state == kMutex ? "" : "");
        for (int i = 0; i < (1 << 12); ++i)
            if (g_mx.e[i].key && g_mx.e[i].v.owner1)
                pbt::note("a mutex is held by thread %d%s\n", g_mx.e[i].v.owner1 - 1,
                          [&] {
                              for (int k = 0; k < g_n; ++k)
                                  if (g_t[k].state == kMutex && reinterpret_cast<u64>(g_t[k].obj) == g_mx.e[i].key)
                                      return ", wanted by another or itself";
                              return "";
                          }());
    }

    static void run(Thread& n)
    {
        Thread* me = t_self;
        if (&n == me)
            return;
        g_cur     = n.id;
        g_run_len = 0;
        if (g_trace)
            fprintf(stderr, "---- T%d -> T%d (step %ld, t=%ld)\n", me ? me->id : -1, n.id, g_steps, static_cast<long>(g_now));
        const int rt = g_rt; // belongs to the thread
        g_rt         = 1;
        futex_post(&n.go);
        if (me)
        {
            futex_wait(&me->go);
            g_rt = rt;
        }
    }
    // chosen thread is about to continue
    static void resume(Thread& n)
    {
        n.state = n.state == kRun ? kRun : n.state; // the waiter itself finishes its operation
        run(n);
    }
    static int64_t earliest()
    {
        int64_t e = INT64_MAX;
        for (int i = 0; i < g_n; ++i)
            if ((g_t[i].state == kSleep || (g_t[i].state == kCond && !g_t[i].signaled)) && g_t[i].deadline > g_now && g_t[i].deadline < e)
                e = g_t[i].deadline;
        return e;
    }
    // the current thread cannot continue (it is blocked, or has ended)
    static void pick_next(bool me_too)
    {
        for (;;)
        {
            int c[T], n = 0;
            for (int k = 1; k <= g_n; ++k)
            {
                const int i = (g_cur + k) % g_n;
                if (g_t[i].state == kEnded || g_t[i].state == kDrain || (!me_too && &g_t[i] == t_self))
                    continue;
                if (can_run(g_t[i]))
                    c[n++] = i;
            }
            if (n)
                return resume(g_t[c[n > 1 ? static_cast<int>(g_gen->below(static_cast<uint32_t>(n))) : 0]]);
            const int64_t e = earliest();
            if (e != INT64_MAX)
            {
                g_now = e > g_now ? e : g_now;
                if (!me_too)
                    me_too = true;
                continue;
            }
            for (int i = 0; i < g_n; ++i)
                if (g_t[i].state == kDrain)
                    return resume(g_t[i]);
            dump();
            pbt::fail("deadlock: no thread can continue");
        }
    }
    // may switch; the current thread stays runnable
    static void maybe_switch(bool force)
    {
        ++g_steps;
        if (g_steps > kBudget)
        {
            dump();
            pbt::fail("the threads do not get anywhere: endless loop under a fair schedule");
        }
        if (++g_run_len > kForce)
        {
            force     = true;
            g_run_len = 0;
        }
        bool preempt = false;
        if (!force && g_left > 0 && --g_gap <= 0)
        {
            --g_left;
            g_gap   = 1 + static_cast<long>(g_gen->below(static_cast<uint32_t>(2 * g_gap_mean)));
            preempt = true;
        }
        if (!force && !preempt)
            return;
        int c[T], n = 0;
        for (int k = 1; k < g_n; ++k)
        {
            const int i = (g_cur + k) % g_n;
            if (g_t[i].state != kEnded && g_t[i].state != kDrain && &g_t[i] != t_self && can_run(g_t[i]))
                c[n++] = i;
        }
        const int64_t e = preempt && !g_jumps ? INT64_MAX : earliest();
        if (preempt)
        {
            if (!n && e == INT64_MAX)
                return;
            const int x = static_cast<int>(g_gen->below(static_cast<uint32_t>(n + (e != INT64_MAX))));
            if (x < n)
                return resume(g_t[c[x]]);
            if (e == INT64_MAX)
                return;
            // time passes while this thread stands still
        }
        else if (n)
            return resume(g_t[c[0]]);
        else if (e == INT64_MAX)
        {
            // the only thread that can run goes on without blocking: it may be polling the clock
            if (++g_spins > 100)
            {
                dump();
                pbt::fail("a thread keeps running while every other thread waits for it: busy waiting");
            }
            return;
        }
        else if (!g_jumps && ++g_spins <= 50)
            return; // time is not to pass while something runs, unless that waits for time to pass
        g_now = e > g_now ? e : g_now;
        for (int k = 1; k < g_n; ++k)
        {
            const int i = (g_cur + k) % g_n;
            if (g_t[i].state != kEnded && g_t[i].state != kDrain && &g_t[i] != t_self && can_run(g_t[i]))
                return resume(g_t[i]);
        }
    }
    void point()
    {
        if (!on())
            return;
        Rt rt;
        maybe_switch(false);
    }
    // blocks the current thread in `s`; returns when it was chosen to run, which only happens once can_run() held
    static void block(State s, const void* obj)
    {
        t_self->state = s;
        t_self->obj   = obj;
        g_run_len     = 0;
        g_spins       = 0;
        ++g_steps;
        pick_next(true);
        t_self->state = kRun;
        t_self->obj   = nullptr;
    }
    void wait_until(bool (*pred)(void*), void* arg)
    {
        Rt rt;
        t_self->pred = pred;
        t_self->arg  = arg;
        if (!pred(arg))
            block(kPred, nullptr);
    }
    void sleep_until(int64_t t)
    {
        if (!g_active)
            return;
        Rt rt;
        maybe_switch(false);
        if (g_now >= t)
            return;
        t_self->deadline = t;
        block(kSleep, nullptr);
        t_self->deadline = INT64_MAX;
    }
    void sleep(int64_t d) { sleep_until(g_now + d); }

    // ---- happens-before ----
    static void acquire_from(const VC& v) { t_self->vc.join(v); }
    static void release_to(VC& v)
    {
        v.join(t_self->vc);
        ++t_self->vc.c[t_self->id];
    }
    static VC& sync_of(const void* p) { return *g_sync.find((reinterpret_cast<u64>(p) >> 3) + 1, true); }

    // ---- memory ----
    static bool in_arena(const void* p) { return g_arena && static_cast<const char*>(p) >= g_arena && static_cast<const char*>(p) < g_arena + kArena; }
    static u8&  astate(const void* p) { return g_astate[(static_cast<const char*>(p) - g_arena) >> 3]; }

    static const char* where(u32 pc)
    {
        static char b[4][700];
        static int  k = 0;
        char*       r = b[k++ & 3];
        if (!getenv("SIM_SYM"))
        {
            snprintf(r, 64, "pc 0x%x", pc);
            return r;
        }
        Rt   rt;
        char cmd[200];
        char exe[100];
        snprintf(exe, sizeof exe, "/proc/%d/exe", getpid());
        char    real[300];
        ssize_t l = readlink(exe, real, sizeof real - 1);
        real[l > 0 ? l : 0] = 0;
        (void)cmd;
        char full[500];
        snprintf(full, sizeof full, "addr2line -Cfipse %s 0x%x 2>/dev/null", real, pc - 1);
        const bool a = g_active;
        g_active     = false;
        FILE* f      = popen(full, "r");
        size_t n     = f ? fread(r, 1, 690, f) : 0;
        r[n]         = 0;
        if (f)
            pclose(f);
        g_active = a;
        return r;
    }

    static Cell* cells_of(u64 gran)
    {
        Page* p = g_pages.find((gran >> 9) + 1, true);
        if (!p->cells)
        {
            p->cells = reinterpret_cast<Cell*>(g_cellmem + g_cellpos);
            g_cellpos += sizeof(Cell) * 512;
            if (g_cellpos > kCellMem)
                pbt::fail("simulation: out of shadow memory");
        }
        return p->cells + (gran & 511);
    }

    [[noreturn]] static void race(const void* a, const char* what, int me, int other, u32 mypc, u32 opc, const char* owhat)
    {
        Rt rt;
        pbt::note("data race on %p%s: %s by thread %d at %s, %s by thread %d at %s\n", a, in_arena(a) ? " (heap)" : "", what, me, where(mypc), owhat, other, where(opc));
        pbt::fail("data race: %s by one thread and %s by another are not ordered", what, owhat);
    }
    [[noreturn]] static void freed(const void* a, const char* what, u32 pc)
    {
        Rt rt;
        pbt::note("%s of %p by thread %d at %s\n", what, a, self(), where(pc));
        pbt::fail("use after free: %s of released memory", what);
    }

    enum Kind
    {
        kRead,
        kWrite,
        kAtomic,
        kFree
    };
    static void access1(u64 gran, u8 m, Kind k, u32 pc)
    {
        const int  me = t_self->id;
        const VC&  vc = t_self->vc;
        Cell&      c  = *cells_of(gran);
        const u32  ck = vc.c[me];
        const bool wr = k == kWrite || k == kFree;
        if (k == kRead && c.rclk[me] == ck && (c.rm[me] & m) == m)
            return;
        if (k == kWrite && c.wclk[me] == ck && (c.wm[me] & m) == m)
            return;
        for (int o = 0; o < g_n; ++o)
        {
            if (o == me)
                continue;
            if ((c.wm[o] & m) && c.wclk[o] > vc.c[o])
                race(reinterpret_cast<void*>(gran << 3), k == kRead ? "a read" : k == kWrite ? "a write" : k == kFree ? "the release" : "an atomic access", me, o, pc, c.wpc[o], "a write");
            if (wr && (c.rm[o] & m) && c.rclk[o] > vc.c[o])
                race(reinterpret_cast<void*>(gran << 3), k == kWrite ? "a write" : "the release", me, o, pc, c.rpc[o], "a read");
            if (wr && (c.am[o] & m) && c.aclk[o] > vc.c[o])
                race(reinterpret_cast<void*>(gran << 3), k == kWrite ? "a write" : "the release", me, o, pc, c.rpc[o], "an atomic access");
        }
        if (k == kRead)
        {
            c.rm[me]   = c.rclk[me] == ck ? static_cast<u8>(c.rm[me] | m) : m;
            c.rclk[me] = ck;
            c.rpc[me]  = pc;
        }
        else if (k == kAtomic)
        {
            c.am[me]   = c.aclk[me] == ck ? static_cast<u8>(c.am[me] | m) : m;
            c.aclk[me] = ck;
            c.rpc[me]  = pc;
        }
        else
        {
            c.wm[me]   = c.wclk[me] == ck ? static_cast<u8>(c.wm[me] | m) : m;
            c.wclk[me] = ck;
            c.wpc[me]  = pc;
        }
    }
    static void access(const void* p, size_t n, Kind k, u32 pc)
    {
        if (!n)
            return;
        u64       a   = reinterpret_cast<u64>(p);
        const u64 end = a + n;
        if (in_arena(p) && k != kFree)
        {
            const u8 s = astate(p);
            if (s == 3)
                return;
            if (s == 2)
                freed(p, k == kRead ? "read" : k == kWrite ? "write" : "atomic access", pc);
            if (s == 0)
            {
                Rt rt;
                pbt::note("at %s\n", where(pc));
                pbt::fail("access to memory that was never allocated");
            }
        }
        while (a < end)
        {
            const u64 g  = a >> 3;
            const u64 lo = a & 7, hi = (end - (g << 3)) < 8 ? (end - (g << 3)) : 8;
            access1(g, static_cast<u8>(((1u << hi) - 1) & ~((1u << lo) - 1)), k, pc);
            a = (g + 1) << 3;
        }
    }
    static inline void acc(const void* p, size_t n, Kind k, void* pc)
    {
        if (!on())
            return;
        ++g_rt;
        access(p, n, k, static_cast<u32>(reinterpret_cast<u64>(pc)));
        --g_rt;
    }
    static void check_sync(const void* p, const char* what)
    {
        if (in_arena(p) && astate(p) == 2)
            freed(p, what, 0);
    }

    // heap
    struct Hdr
    {
        u64 size;
        u64 magic;
    };
    static void* arena_alloc(size_t n, size_t align)
    {
        if (align < 16)
            align = 16;
        const size_t want = ((n + 15) & ~size_t{15}) + 48 + align;
        const size_t pos  = __atomic_fetch_add(&g_apos, want, __ATOMIC_RELAXED);
        if (pos + want > kArena)
        {
            ++g_rt;
            pbt::fail("simulation: out of memory");
        }
        u64 p = reinterpret_cast<u64>(g_arena + pos + 16 + 16);
        p     = (p + align - 1) & ~(static_cast<u64>(align) - 1);
        auto* h  = reinterpret_cast<Hdr*>(p - 16);
        h->size  = n;
        h->magic = 0x51a110c;
        void* r  = reinterpret_cast<void*>(p);
        memset(&astate(r), 1, (n + 7) / 8 + (n == 0));
        return r;
    }
    static void arena_free(void* p)
    {
        auto* h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - 16);
        u8    s = astate(p);
        if (s == 2)
        {
            if (on())
            {
                Rt rt;
                pbt::fail("memory released twice");
            }
            return;
        }
        if (on() && s == 1)
        {
            ++g_rt;
            access(p, h->size, kFree, static_cast<u32>(reinterpret_cast<u64>(__builtin_return_address(0))));
            // a mutex in the block that is still held by another thread or waited for
            for (int i = 0; i < g_n; ++i)
            {
                const Thread& t = g_t[i];
                if ((t.state == kMutex || t.state == kCond) && t.obj >= p && t.obj < static_cast<char*>(p) + h->size)
                {
                    dump();
                    pbt::fail("memory released while thread %d waits for a mutex or condition variable in it", i);
                }
            }
            --g_rt;
        }
        memset(&astate(p), 2, (h->size + 7) / 8 + (h->size == 0));
        if (h->size < 4096)
            memset(p, 0xdd, h->size);
    }

    // ---- threads ----
    static void thread_end(void* p)
    {
        auto* t = static_cast<Thread*>(p);
        ++g_rt;
        t->state = kEnded;
        t_self   = nullptr;
        // hand the baton on
        g_rt = 1;
        pick_next(false);
    }
    static void* thread_main(void* p)
    {
        auto* t = static_cast<Thread*>(p);
        futex_wait(&t->go);
        t_self = t;
        g_rt   = 0;
        __cxa_thread_atexit_impl(&thread_end, t, &__dso_handle);
        return t->fn(t->fn_arg);
    }

    Schedule draw(pbt::Gen& g)
    {
        Schedule          s;
        static const int  gaps[] = {3, 8, 20, 50, 120, 300};
        static const int  cnt[]  = {0, 1, 2, 3, 5, 8, 15, 40, 100};
        s.preemptions            = cnt[g.below(9)];
        s.gap                    = gaps[g.below(6)];
        return s;
    }

    void begin(pbt::Gen& g, Schedule s)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_trace = getenv("SIM_TRACE") != nullptr;
        // stay on one processor: threads hand over to each other
        cpu_set_t cs;
        CPU_ZERO(&cs);
        int cpu = sched_getcpu();
        if (cpu >= 0)
        {
            CPU_SET(cpu, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
        }
        g_mx.init();
        g_sync.init();
        g_guard.init();
        g_pages.init();
        auto map = [](size_t n) { return static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); };
        g_cellmem = map(kCellMem);
        g_arena   = map(kArena);
        g_astate  = reinterpret_cast<u8*>(map(kArena / 8));
        g_log     = reinterpret_cast<Ev*>(map(sizeof(Ev) * kLog));
        g_gen     = &g;
        g_left    = s.preemptions;
        g_spurious = -1;
        g_gap_mean = s.gap;
        g_jumps    = s.jumps;
        g_gap     = 1 + static_cast<long>(g.below(static_cast<uint32_t>(2 * s.gap)));
        g_now     = 1000000000;
        g_n       = 1;
        g_cur     = 0;
        g_t[0].id = 0;
        g_t[0].state    = kRun;
        g_t[0].deadline = INT64_MAX;
        g_t[0].vc.c[0]  = 1;
        t_self          = &g_t[0];
        pbt::g_hard_fail = true;
        g_active         = true;
    }
    static void finish_(bool idle)
    {
        ++g_rt;
        while (alive())
        {
            t_self->state = kDrain;
            pick_next(false);
            t_self->state = kRun;
            if (alive())
            {
                if (idle)
                    break;
                dump();
                pbt::fail("a thread never ends");
            }
        }
        // whatever comes now comes after everything the ended threads did
        for (int i = 1; i < g_n; ++i)
            if (g_t[i].state == kEnded)
                acquire_from(g_t[i].vc);
        --g_rt;
    }
    void finish() { finish_(false); }
    void finish_idle() { finish_(true); }

    // ---- atomics ----
    static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
    static void        pre_atomic(const volatile void* p, size_t n, void* pc)
    {
        ++g_rt;
        maybe_switch(false);
        access(const_cast<const void*>(p), n, kAtomic, static_cast<u32>(reinterpret_cast<u64>(pc)));
        --g_rt;
    }
    static void post_load(const volatile void* p, int mo)
    {
        if (is_acq(mo))
            if (VC* v = g_sync.find((reinterpret_cast<u64>(p) >> 3) + 1, false))
                acquire_from(*v);
    }
    static void pre_store(const volatile void* p, int mo)
    {
        // stores merge instead of replacing: several atomics may share a granule
        if (is_rel(mo))
            release_to(sync_of(const_cast<const void*>(p)));
    }
    static void rmw(const volatile void* p, int mo)
    {
        if (is_acq(mo))
            post_load(p, mo);
        if (is_rel(mo))
            release_to(sync_of(const_cast<const void*>(p)));
    }
}

using namespace sim;

#define PC __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                    \
    void __tsan_read##n(void* p) { acc(p, n, kRead, PC); }                                       \
    void __tsan_write##n(void* p) { acc(p, n, kWrite, PC); }                                     \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, kRead, PC); }                             \
    void __tsan_unaligned_write##n(void* p) { acc(p, n, kWrite, PC); }                           \
    void __tsan_read_write##n(void* p) { acc(p, n, kWrite, PC); }                                \
    void __tsan_unaligned_read_write##n(void* p) { acc(p, n, kWrite, PC); }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_read_range(void* p, unsigned long n) { acc(p, n, kRead, PC); }
    void __tsan_write_range(void* p, unsigned long n) { acc(p, n, kWrite, PC); }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
            acc(p, 8, kWrite, PC);
    }
    void  __tsan_vptr_read(void** p) { acc(p, 8, kRead, PC); }
    void* __tsan_memcpy(void* d, const void* s, size_t n)
    {
        acc(s, n, kRead, PC);
        acc(d, n, kWrite, PC);
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, size_t n)
    {
        acc(s, n, kRead, PC);
        acc(d, n, kWrite, PC);
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, size_t n)
    {
        acc(d, n, kWrite, PC);
        return memset(d, c, n);
    }

#define AT(bits, type)                                                                                                     \
    type __tsan_atomic##bits##_load(const volatile type* p, int mo)                                                        \
    {                                                                                                                      \
        if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                            \
        pre_atomic(p, sizeof(type), PC);                                                                                   \
        type v = *p;                                                                                                       \
        post_load(p, mo);                                                                                                  \
        return v;                                                                                                          \
    }                                                                                                                      \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int mo)                                                     \
    {                                                                                                                      \
        if (!on()) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                        \
        pre_atomic(p, sizeof(type), PC);                                                                                   \
        pre_store(p, mo);                                                                                                  \
        *p = v;                                                                                                            \
    }                                                                                                                      \
    type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo)                                                  \
    {                                                                                                                      \
        if (!on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                     \
        pre_atomic(p, sizeof(type), PC);                                                                                   \
        rmw(p, mo);                                                                                                        \
        type o = *p;                                                                                                       \
        *p     = v;                                                                                                        \
        return o;                                                                                                          \
    }                                                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int fmo)                  \
    {                                                                                                                      \
        if (!on()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
        pre_atomic(p, sizeof(type), PC);                                                                                   \
        type o = *p;                                                                                                       \
        if (o == *e)                                                                                                       \
        {                                                                                                                  \
            rmw(p, mo);                                                                                                    \
            *p = v;                                                                                                        \
            return 1;                                                                                                      \
        }                                                                                                                  \
        post_load(p, fmo);                                                                                                 \
        *e = o;                                                                                                            \
        return 0;                                                                                                          \
    }                                                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int fmo)                    \
    {                                                                                                                      \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                                            \
    }                                                                                                                      \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int mo, int fmo)                     \
    {                                                                                                                      \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                                                  \
        return e;                                                                                                          \
    }                                                                                                                      \
    FETCH(bits, type, add, o + v)                                                                                          \
    FETCH(bits, type, sub, o - v)                                                                                          \
    FETCH(bits, type, and, o& v)                                                                                           \
    FETCH(bits, type, or, o | v)                                                                                           \
    FETCH(bits, type, xor, o ^ v)                                                                                          \
    FETCH(bits, type, nand, ~(o & v))
#define FETCH(bits, type, op, ex)                                                                                          \
    type __tsan_atomic##bits##_fetch_##op(volatile type* p, type v, int mo)                                                \
    {                                                                                                                      \
        if (!on())                                                                                                         \
        {                                                                                                                  \
            type o = *p; /* single thread at a time */                                                                     \
            while (!__atomic_compare_exchange_n(p, &o, static_cast<type>(ex), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))  \
                ;                                                                                                          \
            return o;                                                                                                      \
        }                                                                                                                  \
        pre_atomic(p, sizeof(type), PC);                                                                                   \
        rmw(p, mo);                                                                                                        \
        type o = *p;                                                                                                       \
        *p     = static_cast<type>(ex);                                                                                    \
        return o;                                                                                                          \
    }
    AT(8, u8)
    AT(16, uint16_t)
    AT(32, u32)
    AT(64, u64)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    // ---- mutexes ----
    static int mutex_lock_(pthread_mutex_t* m)
    {
        Mx* x = g_mx.find(reinterpret_cast<u64>(m), true);
        if (x->owner1 == t_self->id + 1)
        {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
            {
                ++x->count;
                return 0;
            }
            dump();
            pbt::fail("deadlock: a thread locks a mutex it already holds");
        }
        if (x->owner1)
            block(kMutex, m);
        x->owner1 = t_self->id + 1;
        x->count  = 1;
        acquire_from(x->vc);
        if (g_trace)
            fprintf(stderr, "T%d   lock %p\n", t_self->id, static_cast<void*>(m));
        return 0;
    }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!on())
            return 0;
        Rt rt;
        check_sync(m, "locking of a mutex");
        maybe_switch(false);
        check_sync(m, "locking of a mutex");
        return mutex_lock_(m);
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!on())
            return 0;
        Rt rt;
        maybe_switch(false);
        check_sync(m, "locking of a mutex");
        Mx* x = g_mx.find(reinterpret_cast<u64>(m), true);
        if (x->owner1)
        {
            if (x->owner1 == t_self->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
            {
                ++x->count;
                return 0;
            }
            return EBUSY;
        }
        return mutex_lock_(m);
    }
    static void unlock_(pthread_mutex_t* m)
    {
        Mx* x = g_mx.find(reinterpret_cast<u64>(m), true);
        if (x->owner1 != t_self->id + 1)
            pbt::fail("a thread unlocks a mutex it doesn't hold");
        if (--x->count)
            return;
        x->owner1 = 0;
        release_to(x->vc);
        if (g_trace)
            fprintf(stderr, "T%d unlock %p\n", t_self->id, static_cast<void*>(m));
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!on())
            return 0;
        Rt rt;
        check_sync(m, "unlocking of a mutex");
        unlock_(m);
        maybe_switch(false);
        return 0;
    }

    // ---- condition variables ----
    static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
    {
        Rt rt;
        check_sync(c, "waiting on a condition variable");
        maybe_switch(false);
        unlock_(m);
        t_self->signaled = false;
        t_self->mutex    = m;
        t_self->deadline = deadline;
        // a condition variable may let a thread go for no reason: in one run out of four, one of the waits does
        if (g_spurious < 0)
            g_spurious = g_gen->below(4) == 3 ? 1 + static_cast<int>(g_gen->below(6)) : 0;
        if (g_spurious > 0 && --g_spurious == 0)
        {
            pbt::label("spurious wake-up");
            t_self->signaled = true;
        }
        block(kCond, c);
        const bool sig   = t_self->signaled;
        t_self->deadline = INT64_MAX;
        check_sync(c, "waiting on a condition variable");
        mutex_lock_(m);
        return sig ? 0 : ETIMEDOUT;
    }
    static int64_t ns(const timespec* t) { return t->tv_sec > 9000000000ll ? INT64_MAX - 1 : t->tv_sec * 1000000000ll + t->tv_nsec; }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_(c, m, INT64_MAX); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cond_wait_(c, m, ns(t)); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return cond_wait_(c, m, ns(t)); }
    static int cond_wake(pthread_cond_t* c, bool all)
    {
        if (!on())
            return 0;
        Rt rt;
        maybe_switch(false);
        check_sync(c, "signalling of a condition variable");
        int w[T], n = 0;
        for (int k = 1; k <= g_n; ++k)
        {
            Thread& t = g_t[(g_cur + k) % g_n];
            if (t.state == kCond && t.obj == c && !t.signaled && t.deadline > g_now)
                w[n++] = t.id;
        }
        if (g_trace)
            fprintf(stderr, "T%d notify %p: %d waiting\n", t_self->id, static_cast<void*>(c), n);
        if (all)
            for (int i = 0; i < n; ++i)
                g_t[w[i]].signaled = true;
        else if (n)
            g_t[w[n > 1 ? static_cast<int>(g_gen->below(static_cast<uint32_t>(n))) : 0]].signaled = true;
        return 0;
    }
    int pthread_cond_signal(pthread_cond_t* c) { return cond_wake(c, false); }
    int pthread_cond_broadcast(pthread_cond_t* c) { return cond_wake(c, true); }
    int pthread_cond_destroy(pthread_cond_t* c)
    {
        if (!on())
            return 0;
        Rt rt;
        for (int i = 0; i < g_n; ++i)
            if (g_t[i].state == kCond && g_t[i].obj == c && !g_t[i].signaled)
                pbt::fail("a condition variable is destroyed while a thread waits on it");
        return 0;
    }

    // ---- threads ----
    int pthread_create(pthread_t* pt, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
    {
        static auto real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(dlsym(RTLD_NEXT, "pthread_create"));
        if (!on())
            return real(pt, attr, fn, arg);
        Rt rt;
        if (g_n >= T)
        {
            pbt::label("too many threads");
            pbt::nontrivial(false);
            pbt::g_sh->finished = 1;
            _exit(0);
        }
        Thread& t  = g_t[g_n];
        t          = Thread{};
        t.id       = g_n;
        t.deadline = INT64_MAX;
        t.state    = kRun;
        t.fn       = fn;
        t.fn_arg   = arg;
        t.vc       = t_self->vc;
        t.vc.c[t.id] = 1;
        ++t_self->vc.c[t_self->id];
        pthread_attr_t a;
        pthread_attr_init(&a);
        const size_t ss = 512 << 10;
        void*        st = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_setstack(&a, st, ss);
        const int r = real(&t.pt, &a, &thread_main, &t);
        if (r)
            return r;
        *pt = t.pt;
        ++g_n;
        maybe_switch(false);
        return 0;
    }
    int pthread_join(pthread_t pt, void** ret)
    {
        static auto real = reinterpret_cast<int (*)(pthread_t, void**)>(dlsym(RTLD_NEXT, "pthread_join"));
        if (!on())
            return real(pt, ret);
        Rt rt;
        maybe_switch(false);
        Thread* t = nullptr;
        for (int i = 1; i < g_n; ++i)
            if (pthread_equal(g_t[i].pt, pt) && !g_t[i].detached)
                t = &g_t[i];
        if (!t)
            pbt::fail("joining a thread that is not joinable");
        if (t == t_self)
            return EDEADLK;
        if (t->state != kEnded)
            block(kJoin, t);
        acquire_from(t->vc);
        t->detached = true;
        return 0; // the real thread is left to end by itself
    }
    int pthread_detach(pthread_t pt)
    {
        static auto real = reinterpret_cast<int (*)(pthread_t)>(dlsym(RTLD_NEXT, "pthread_detach"));
        if (!on())
            return real(pt);
        Rt rt;
        for (int i = 1; i < g_n; ++i)
            if (pthread_equal(g_t[i].pt, pt))
                g_t[i].detached = true;
        maybe_switch(false);
        return 0;
    }

    // ---- time ----
    int clock_gettime(clockid_t id, timespec* ts)
    {
        if (!g_active)
            return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
        if (on())
        {
            Rt rt;
            maybe_switch(false);
        }
        ts->tv_sec  = g_now / 1000000000;
        ts->tv_nsec = g_now % 1000000000;
        return 0;
    }
    int nanosleep(const timespec* d, timespec*)
    {
        if (!g_active)
            return static_cast<int>(syscall(SYS_nanosleep, d, nullptr));
        sim::sleep_until(g_now + ns(d));
        return 0;
    }
    int clock_nanosleep(clockid_t id, int flags, const timespec* d, timespec* r)
    {
        if (!g_active)
            return syscall(SYS_clock_nanosleep, id, flags, d, r) ? errno : 0;
        sim::sleep_until(flags & TIMER_ABSTIME ? ns(d) : g_now + ns(d));
        return 0;
    }
    int sched_yield()
    {
        if (!on())
            return 0;
        Rt rt;
        maybe_switch(true);
        return 0;
    }

    // ---- static initialisation ----
    int __cxa_guard_acquire(u64* g)
    {
        if (__atomic_load_n(reinterpret_cast<u8*>(g), __ATOMIC_ACQUIRE))
        {
            if (on())
                post_load(g, 2);
            return 0;
        }
        if (!on())
            return 1;
        Rt   rt;
        for (;;)
        {
            int* s = g_guard.find(reinterpret_cast<u64>(g), true);
            if (*reinterpret_cast<u8*>(g))
            {
                post_load(g, 2);
                return 0;
            }
            if (!*s)
            {
                *s = t_self->id + 1;
                return 1;
            }
            if (*s == t_self->id + 1)
                pbt::fail("recursive static initialisation");
            block(kGuard, g);
        }
    }
    void __cxa_guard_release(u64* g)
    {
        if (g_active && t_self)
        {
            Rt rt;
            *g_guard.find(reinterpret_cast<u64>(g), true) = 0;
            release_to(sync_of(g));
        }
        __atomic_store_n(reinterpret_cast<u8*>(g), 1, __ATOMIC_RELEASE);
        if (on())
        {
            Rt rt;
            maybe_switch(false);
        }
    }
    void __cxa_guard_abort(u64* g)
    {
        if (g_active && t_self)
        {
            Rt rt;
            *g_guard.find(reinterpret_cast<u64>(g), true) = 0;
        }
    }

    // ---- heap ----
    void* malloc(size_t n)
    {
        if (!g_active || g_rt)
            return __libc_malloc(n);
        return arena_alloc(n, 16);
    }
    void free(void* p)
    {
        if (!p)
            return;
        if (!in_arena(p))
            return __libc_free(p);
        if (t_self)
            arena_free(p);
    }
    void* calloc(size_t a, size_t b)
    {
        if (!g_active || g_rt)
            return __libc_calloc(a, b);
        return arena_alloc(a * b, 16); // fresh pages are zero and never reused
    }
    void* realloc(void* p, size_t n)
    {
        if (!in_arena(p) && (!g_active || g_rt || p))
            return __libc_realloc(p, n);
        void* q = arena_alloc(n, 16);
        if (p)
        {
            const size_t o = reinterpret_cast<Hdr*>(static_cast<char*>(p) - 16)->size;
            memcpy(q, p, o < n ? o : n);
            free(p);
        }
        return q;
    }
    void* memalign(size_t al, size_t n)
    {
        if (!g_active || g_rt)
            return __libc_memalign(al, n);
        return arena_alloc(n, al);
    }
    void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
    int   posix_memalign(void** r, size_t al, size_t n)
    {
        *r = memalign(al, n);
        return *r ? 0 : ENOMEM;
    }
    // exception objects are shared through counters inside the C++ runtime that can't be seen here
    void* __cxa_allocate_exception(size_t n) noexcept
    {
        static auto real = reinterpret_cast<void* (*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
        void*       r    = real(n);
        if (in_arena(r))
            memset(&astate(r), 3, (n + 7) / 8);
        return r;
    }
}

static void* new_(size_t n, size_t al)
{
    void* p = al > 16 ? memalign(al, n) : malloc(n);
    if (in_arena(p))
        ++g_news;
    return p;
}
static void delete_(void* p)
{
    if (in_arena(p))
        --g_news;
    free(p);
}
void* operator new(size_t n) { return new_(n, 16); }
void* operator new[](size_t n) { return new_(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return new_(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return new_(n, static_cast<size_t>(a)); }
void  operator delete(void* p) noexcept { delete_(p); }
void  operator delete[](void* p) noexcept { delete_(p); }
void  operator delete(void* p, size_t) noexcept { delete_(p); }
void  operator delete[](void* p, size_t) noexcept { delete_(p); }
void  operator delete(void* p, std::align_val_t) noexcept { delete_(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { delete_(p); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { delete_(p); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_(p); }

// the size of default thread pools must not depend on the machine
unsigned hw_alias() __asm__("_ZNSt6thread20hardware_concurrencyEv");
unsigned hw_alias() { return 3; }
