// C28: the gRPC reactors of rppgrpc over a simulated transport, under simulated schedules.
//
// Link plays the part of the gRPC library: it is bound to the real reactors through the interfaces gRPC publishes for
// mocking, accepts their operations and delivers the reactions from its own threads at generated moments, as gRPC may:
// reactions of one call overlap, except that OnDone comes after all of them.  It fails the case when a reactor uses it in a
// way gRPC forbids (two writes at once, Finish twice, operations after the end, a message changed while it is being sent).
#include "simobs.hpp"
#include <rppgrpc/rppgrpc.hpp>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <optional>

namespace
{
    using namespace so;

    enum CallKind { Bidi, ClientStream, ServerStream };
    const char* const kCallName[] = {"bidirectional", "client-streaming", "server-streaming"};

    struct PeerOp // scripted peer (not RPP)
    {
        enum Kind { Read, Write, End, Pause } kind; // End: WritesDone of a client, Finish of a server
        int arg;
    };
    struct Push
    {
        enum Kind { Value, Complete, Fail, Pause, Cancel, Drop } kind; // Cancel: cancels the call; Drop: disposes the subscription
        int arg;
    };
    struct Plan
    {
        int                            call = 0;
        bool                           c_rpp = true, s_rpp = true;
        std::vector<PeerOp>            c_script, s_script;
        int                            s_status = 0; // code of the scripted server
        std::vector<std::vector<Push>> c_push, s_push;
        int                            echo = 0;      // the server answers every message with that many
        int                            reply = 0;     // the client answers a message with a further one, as many times
        int                            s_end = 0;     // 0: when told by a thread, n: after n messages (completes), -n: fails after n
        int                            c_end = 0;     // the same for the client
        int                            workers = 2, window = 1;
        bool                           late_init = false, late_bind = false, strict = false;
        std::vector<uint32_t>          choice;
        bool c_writes() const { return call != ServerStream; }
        bool s_writes() const { return call != ClientStream; }
    };
    const Plan* P;
    size_t      g_choice;
    uint32_t    choose(uint32_t n)
    {
        return n <= 1 ? 0 : P->choice[g_choice++ % P->choice.size()] % n;
    }

    // what one side pushed into its observer
    struct Pushed
    {
        int  v, thread;
        long b, e;
    };
    struct Side
    {
        Pushed pushed[128];
        int    n = 0, term = 0; // 0 none, 1 completed, 2 failed
        long   term_b = LONG_MAX, term_e = LONG_MAX;
        int    written[128], nw = 0;
        bool   write_failed = false;
        int    handed[128], nh = 0;   // given to the reactor by OnReadDone
        bool   half_closed = false;   // WritesDone / Finish was issued
        int    deleted = 0;
    };
    Side g_side[2];
    bool g_overlap, g_cancelled;
    int  g_pushing;

    struct Result
    {
        int  code = -1;
        char text[64];
    };

    // ---- transport ----
    enum Job { CRead, CWrite, CWritesDone, CStatus, CDone, SRead, SWrite, SFinish, SCancel, SOver, SDone, ToServer, ToClient, PeerC, PeerS, kJobs };
    struct Link
    {
        // the client's view
        bool      c_started = false, c_cancel = false, c_status_done = false, c_over = false, c_done = false;
        SV*       c_read    = nullptr;
        const SV* c_write   = nullptr;
        int       c_write_v = 0;
        bool      c_write_busy = false;
        bool      c_wd = false, c_wd_issued = false;
        int       holds = 0;
        Result    c_result;
        // the server's view
        bool      s_bound = false, s_cancel = false, s_over_op = false, s_cancel_told = false, s_done = false;
        SV*       s_read    = nullptr;
        const SV* s_write   = nullptr;
        int       s_write_v = 0;
        bool      s_write_busy = false;
        bool      s_finish = false, s_finish_issued = false, s_sent = false, s_after = false;
        Result    s_result;
        // in between
        int  c2s[128], c2s_b = 0, c2s_e = 0, s2c[128], s2c_b = 0, s2c_e = 0;
        bool c2s_closed = false, status_arrived = false;
        int  c_running = 0, s_running = 0; // reactions
        size_t pc = 0, ps = 0;               // scripted peers
        int    late = 0;
        bool   stop = false;
        std::mutex e_cread, e_cwrite, e_cwd, e_call, e_sread, e_swrite, e_sfin, e_scall, e_c2s, e_s2c;
    };
    Link* L;
    void  edge(std::mutex& m)
    {
        m.lock();
        m.unlock();
    }

    void client_count() // the last outstanding operation of the client's call is over: its resources are gone
    {
        if (P->c_rpp && L->c_started && L->c_status_done && !L->c_read && !L->c_write && !L->c_wd && !L->holds && !L->c_running)
            L->c_over = true;
    }

    bool enabled(int j)
    {
        Link& l = *L;
        switch (j)
        {
            case CRead: return l.c_read && l.c_started && (l.s2c_b < l.s2c_e || l.status_arrived || l.c_cancel);
            case CWrite: return l.c_write && l.c_started && (l.c2s_e - l.c2s_b < P->window || l.status_arrived || l.c_cancel);
            case CWritesDone: return l.c_wd && l.c_started;
            case CStatus: return l.c_started && !l.c_status_done && ((l.status_arrived && l.s2c_b == l.s2c_e) || l.c_cancel);
            case CDone: return P->c_rpp && l.c_over && !l.c_done;
            case SRead: return l.s_read && (l.c2s_b < l.c2s_e || l.c2s_closed || l.s_cancel || l.s_sent);
            case SWrite: return l.s_write && (l.s2c_e - l.s2c_b < P->window || l.s_cancel || l.c_status_done);
            case SFinish: return l.s_finish;
            case SCancel: return P->s_rpp && l.s_bound && l.s_cancel && !l.s_cancel_told && !l.s_over_op && !(l.s_sent && !l.s_after);
            case SOver: return P->s_rpp && l.s_bound && !l.s_over_op && ((l.s_cancel && l.s_cancel_told) || (l.s_sent && !l.s_finish));
            case SDone: return P->s_rpp && l.s_bound && l.s_over_op && l.s_finish_issued && !l.s_finish && !l.s_read && !l.s_write && !l.s_running && !l.s_done;
            case ToServer: return l.c_cancel && !l.s_cancel && !l.s_sent;
            case ToClient: return l.s_cancel && !l.c_cancel && !l.status_arrived;
            case PeerC: {
                if (P->c_rpp || l.c_done)
                    return false;
                if (l.pc == P->c_script.size())
                    return (l.s2c_b < l.s2c_e) || l.status_arrived || l.c_cancel;
                const auto k = P->c_script[l.pc].kind;
                return k == PeerOp::Read ? l.s2c_b < l.s2c_e || l.status_arrived || l.c_cancel : k == PeerOp::Write ? l.c2s_e - l.c2s_b < P->window || l.status_arrived || l.c_cancel : true;
            }
            case PeerS: {
                if (P->s_rpp || l.s_done || !l.s_bound)
                    return false;
                if (l.ps == P->s_script.size())
                    return false;
                const auto k = P->s_script[l.ps].kind;
                return k == PeerOp::Read ? l.c2s_b < l.c2s_e || l.c2s_closed || l.s_cancel : k == PeerOp::Write ? l.s2c_e - l.s2c_b < P->window || l.s_cancel : true;
            }
        }
        return false;
    }
    bool something(void*)
    {
        if (L->stop)
            return true;
        for (int j = 0; j < kJobs; ++j)
            if (enabled(j))
                return true;
        return false;
    }
    void set(Result& r, int code, const char* text)
    {
        r.code = code;
        snprintf(r.text, sizeof r.text, "%s", text);
    }

    grpc::ClientBidiReactor<SV, SV>*   g_cb;
    grpc::ClientWriteReactor<SV>*      g_cw;
    grpc::ClientReadReactor<SV>*       g_cr;
    grpc::ServerBidiReactor<SV, SV>*   g_sb;
    grpc::ServerReadReactor<SV>*       g_sr;
    grpc::ServerWriteReactor<SV>*      g_sw;

    struct Claim
    {
        int       job = -1, v = 0;
        bool      ok = true;
        SV*       to   = nullptr;
        const SV* from = nullptr;
    };
    Claim claim(int j) // one step: nothing else happens in between
    {
        Link& l = *L;
        Claim c;
        c.job = j;
        switch (j)
        {
            case CRead:
                c.to = std::exchange(l.c_read, nullptr);
                c.ok = l.s2c_b < l.s2c_e && !(l.c_cancel && choose(2));
                if (c.ok)
                    g_side[0].handed[g_side[0].nh++] = c.v = l.s2c[l.s2c_b++];
                ++l.c_running;
                break;
            case CWrite:
                c.from = std::exchange(l.c_write, nullptr);
                c.v    = l.c_write_v;
                c.ok   = !l.c_cancel && !(l.status_arrived && choose(2));
                if (c.ok)
                    l.c2s[l.c2s_e++] = c.v;
                else
                    g_side[0].write_failed = true;
                ++l.c_running;
                break;
            case CWritesDone:
                l.c_wd = false;
                c.ok   = !l.c_cancel;
                if (c.ok)
                    l.c2s_closed = true;
                ++l.c_running;
                break;
            case CStatus:
                l.c_status_done = true;
                if (l.status_arrived && l.s2c_b == l.s2c_e)
                    l.c_result = l.s_result;
                else
                    set(l.c_result, grpc::StatusCode::CANCELLED, "CANCELLED");
                client_count();
                break;
            case CDone: l.c_done = true; break;
            case SRead:
                c.to = std::exchange(l.s_read, nullptr);
                c.ok = l.c2s_b < l.c2s_e && !(l.s_cancel && choose(2)) && !(l.s_sent && choose(2));
                if (c.ok)
                    g_side[1].handed[g_side[1].nh++] = c.v = l.c2s[l.c2s_b++];
                ++l.s_running;
                break;
            case SWrite:
                c.from = std::exchange(l.s_write, nullptr);
                c.v    = l.s_write_v;
                c.ok   = !l.s_cancel;
                if (c.ok)
                    l.s2c[l.s2c_e++] = c.v;
                else
                    g_side[1].write_failed = true;
                ++l.s_running;
                break;
            case SFinish:
                l.s_finish = false;
                l.s_sent   = true;
                l.s_after  = l.s_cancel || choose(4) == 0; // whether a cancellation is still told after the status was sent
                if (!l.s_cancel)
                    l.status_arrived = true;
                break;
            case SCancel:
                l.s_cancel_told = true;
                ++l.s_running;
                break;
            case SOver: l.s_over_op = true; break;
            case SDone: l.s_done = true; break;
            case ToServer: l.s_cancel = true; break;
            case ToClient: l.c_cancel = true; break;
            case PeerC:
                if (l.pc == P->c_script.size())
                {
                    if (l.s2c_b < l.s2c_e)
                        ++l.s2c_b;
                    else
                    {
                        l.c_status_done = l.c_done = true;
                        if (l.status_arrived)
                            l.c_result = l.s_result;
                        else
                            set(l.c_result, grpc::StatusCode::CANCELLED, "CANCELLED");
                    }
                }
                else
                {
                    const auto op = P->c_script[l.pc++];
                    if (op.kind == PeerOp::Read && l.s2c_b < l.s2c_e)
                        ++l.s2c_b;
                    if (op.kind == PeerOp::Write && !l.c_cancel && !l.status_arrived)
                        l.c2s[l.c2s_e++] = op.arg;
                    if (op.kind == PeerOp::End)
                        l.c2s_closed = true;
                }
                break;
            case PeerS: {
                const auto op = P->s_script[l.ps++];
                if (op.kind == PeerOp::Read && l.c2s_b < l.c2s_e)
                    ++l.c2s_b;
                if (op.kind == PeerOp::Write && !l.s_cancel)
                    l.s2c[l.s2c_e++] = op.arg;
                if (op.kind == PeerOp::End)
                {
                    set(l.s_result, P->s_status, P->s_status ? "peer's reason" : "");
                    l.s_sent = l.s_done = true;
                    if (!l.s_cancel)
                        l.status_arrived = true;
                }
                break;
            }
        }
        return c;
    }

    template<typename F>
    void client_reaction(F&& f)
    {
        {
            sim::Quiet q;
            g_overlap |= L->c_running > 1 || g_pushing;
        }
        f();
        edge(L->e_call);
        sim::Quiet q;
        --L->c_running;
        client_count();
    }
    template<typename F>
    void server_reaction(F&& f)
    {
        {
            sim::Quiet q;
            g_overlap |= L->s_running > 1 || g_pushing;
        }
        f();
        edge(L->e_scall);
        sim::Quiet q;
        --L->s_running;
    }
    void sent(const Claim& c, bool& busy)
    {
        if (c.from->get() != c.v)
            pbt::fail("a message changed while it was being written");
        sim::Quiet q;
        busy = false;
    }
    void act(const Claim& c)
    {
        Link&      l  = *L;
        const bool ok = c.ok;
        switch (c.job)
        {
            case CRead:
                edge(l.e_cread);
                edge(l.e_s2c);
                if (ok)
                    *c.to = SV{c.v};
                return client_reaction([&] { P->call == Bidi ? g_cb->OnReadDone(ok) : g_cr->OnReadDone(ok); });
            case CWrite:
                edge(l.e_cwrite);
                sent(c, l.c_write_busy);
                edge(l.e_c2s);
                return client_reaction([&] { P->call == Bidi ? g_cb->OnWriteDone(ok) : g_cw->OnWriteDone(ok); });
            case CWritesDone:
                edge(l.e_cwd);
                edge(l.e_c2s);
                return client_reaction([&] { P->call == Bidi ? g_cb->OnWritesDoneDone(ok) : g_cw->OnWritesDoneDone(ok); });
            case CDone: {
                edge(l.e_call);
                edge(l.e_s2c);
                const grpc::Status             st = l.c_result.code ? grpc::Status{static_cast<grpc::StatusCode>(l.c_result.code), l.c_result.text} : grpc::Status{};
                grpc::internal::ClientReactor* r  = P->call == Bidi ? static_cast<grpc::internal::ClientReactor*>(g_cb) : P->call == ClientStream ? static_cast<grpc::internal::ClientReactor*>(g_cw) : g_cr;
                r->OnDone(st);
                sim::Quiet q;
                g_side[0].deleted = 1;
                return;
            }
            case SRead:
                edge(l.e_sread);
                edge(l.e_c2s);
                if (ok)
                    *c.to = SV{c.v};
                return server_reaction([&] { P->call == Bidi ? g_sb->OnReadDone(ok) : g_sr->OnReadDone(ok); });
            case SWrite:
                edge(l.e_swrite);
                sent(c, l.s_write_busy);
                edge(l.e_s2c);
                return server_reaction([&] { P->call == Bidi ? g_sb->OnWriteDone(ok) : g_sw->OnWriteDone(ok); });
            case SFinish:
                edge(l.e_sfin);
                edge(l.e_s2c);
                return edge(l.e_scall);
            case SCancel: return server_reaction([&] { P->call == Bidi ? g_sb->OnCancel() : P->call == ClientStream ? g_sr->OnCancel() : g_sw->OnCancel(); });
            case SDone: {
                edge(l.e_scall);
                P->call == Bidi ? g_sb->OnDone() : P->call == ClientStream ? g_sr->OnDone() : g_sw->OnDone();
                sim::Quiet q;
                g_side[1].deleted = 1;
                return;
            }
        }
    }
    void worker()
    {
        for (;;)
        {
            sim::wait_until(something, nullptr);
            sim::point();
            Claim c;
            {
                sim::Quiet q;
                int        js[kJobs], n = 0;
                for (int k = 0; k < kJobs; ++k)
                    if (enabled(k))
                        js[n++] = k;
                if (!n && L->stop)
                    return;
                if (n)
                    c = claim(js[choose(static_cast<uint32_t>(n))]);
            }
            if (c.job >= 0)
                act(c);
        }
    }

    // ---- what gRPC gives to the reactors ----
    void check_client(const char* what)
    {
        // known finding (family "strict"): no hold can be kept by a client that only writes, nothing would tell it to remove it
        if (g_side[0].deleted || (L->c_over && (P->call != ClientStream || P->strict)))
            pbt::fail("the client's reactor issued %s although its call is over (no hold)", what);
    }
    void client_write(const SV* m)
    {
        {
            sim::Quiet q;
            check_client("a write");
            if (L->c_write_busy)
                pbt::fail("the client's reactor issued a write while another one is outstanding");
            if (L->c_wd_issued)
                pbt::fail("the client's reactor issued a write after WritesDone");
        }
        const int v = m->get();
        edge(L->e_cwrite);
        sim::Quiet q;
        if (L->c_over)
            return;
        L->c_write_v                      = v;
        g_side[0].written[g_side[0].nw++] = v;
        L->c_write_busy                   = true;
        L->c_write                        = m;
    }
    void client_writes_done()
    {
        {
            sim::Quiet q;
            check_client("WritesDone");
            if (L->c_wd_issued)
                pbt::fail("the client's reactor issued WritesDone twice");
            if (L->c_write_busy)
                pbt::fail("the client's reactor issued WritesDone while a write is outstanding");
        }
        edge(L->e_cwd);
        sim::Quiet q;
        if (L->c_over)
            return;
        g_side[0].half_closed = true;
        L->c_wd_issued = L->c_wd = true;
    }
    void client_read(SV* m)
    {
        {
            sim::Quiet q;
            check_client("a read");
            if (L->c_read)
                pbt::fail("the client's reactor issued a read while another one is outstanding");
        }
        edge(L->e_cread);
        sim::Quiet q;
        check_client("a read");
        L->c_read = m;
    }
    void client_start()
    {
        edge(L->e_cread);
        edge(L->e_cwrite);
        edge(L->e_cwd);
        edge(L->e_call);
        sim::Quiet q;
        if (L->c_started)
            pbt::fail("the client's reactor started its call twice");
        L->c_started = true;
    }
    void client_hold(int n)
    {
        sim::Quiet q;
        check_client("AddHold");
        if (L->c_started)
            pbt::fail("the client's reactor added a hold after StartCall");
        L->holds += n;
    }
    void client_unhold()
    {
        edge(L->e_call);
        sim::Quiet q;
        if (!L->holds)
            pbt::fail("the client's reactor removed more holds than it added");
        --L->holds;
        client_count();
    }
    struct CBidi final : grpc::ClientCallbackReaderWriter<SV, SV>
    {
        explicit CBidi(grpc::ClientBidiReactor<SV, SV>* r) { BindReactor(r); }
        void StartCall() override { client_start(); }
        void Write(const SV* m, grpc::WriteOptions) override { client_write(m); }
        void WritesDone() override { client_writes_done(); }
        void Read(SV* m) override { client_read(m); }
        void AddHold(int n) override { client_hold(n); }
        void RemoveHold() override { client_unhold(); }
    };
    struct CWriter final : grpc::ClientCallbackWriter<SV>
    {
        explicit CWriter(grpc::ClientWriteReactor<SV>* r) { BindReactor(r); }
        void StartCall() override { client_start(); }
        void Write(const SV* m, grpc::WriteOptions) override { client_write(m); }
        void WritesDone() override { client_writes_done(); }
        void AddHold(int n) override { client_hold(n); }
        void RemoveHold() override { client_unhold(); }
    };
    struct CReader final : grpc::ClientCallbackReader<SV>
    {
        explicit CReader(grpc::ClientReadReactor<SV>* r) { BindReactor(r); }
        void StartCall() override { client_start(); }
        void Read(SV* m) override { client_read(m); }
        void AddHold(int n) override { client_hold(n); }
        void RemoveHold() override { client_unhold(); }
    };

    void check_server(const char* what)
    {
        if (L->s_done)
            pbt::fail("the server's reactor issued %s after OnDone", what);
        if (L->s_finish_issued)
            pbt::fail("the server's reactor issued %s after Finish", what);
    }
    void server_write(const SV* m)
    {
        {
            sim::Quiet q;
            check_server("a write");
            if (L->s_write_busy)
                pbt::fail("the server's reactor issued a write while another one is outstanding");
        }
        const int v = m->get();
        edge(L->e_swrite);
        sim::Quiet q;
        check_server("a write");
        L->s_write_v                      = v;
        g_side[1].written[g_side[1].nw++] = v;
        L->s_write_busy                   = true;
        L->s_write                        = m;
    }
    void server_read(SV* m)
    {
        {
            sim::Quiet q;
            if (L->s_done)
                pbt::fail("the server's reactor issued a read after OnDone");
            if (L->s_read)
                pbt::fail("the server's reactor issued a read while another one is outstanding");
        }
        edge(L->e_sread);
        sim::Quiet q;
        L->s_read = m;
    }
    void server_finish(const grpc::Status& s)
    {
        {
            sim::Quiet q;
            check_server("Finish");
        }
        edge(L->e_sfin);
        sim::Quiet q;
        check_server("Finish");
        set(L->s_result, s.error_code(), s.error_message().c_str());
        L->s_finish_issued = L->s_finish = g_side[1].half_closed = true;
    }
    template<typename Base, typename Reactor>
    struct SCall : Base
    {
        Reactor* r;
        explicit SCall(Reactor* r)
            : r{r}
        {
        }
        void bind()
        {
            Base::BindReactor(r);
            edge(L->e_scall);
            sim::Quiet q;
            L->s_bound = true;
        }
        void Finish(grpc::Status s) override { server_finish(s); }
        void SendInitialMetadata() override {}
        grpc::internal::ServerReactor* reactor() override { return r; }
        void CallOnDone() override {}
    };
    using SBidiBase   = SCall<grpc::ServerCallbackReaderWriter<SV, SV>, grpc::ServerBidiReactor<SV, SV>>;
    using SWriterBase = SCall<grpc::ServerCallbackWriter<SV>, grpc::ServerWriteReactor<SV>>;
    using SReaderBase = SCall<grpc::ServerCallbackReader<SV>, grpc::ServerReadReactor<SV>>;
    struct SBidi final : SBidiBase
    {
        using SBidiBase::SBidiBase;
        void Read(SV* m) override { server_read(m); }
        void Write(const SV* m, grpc::WriteOptions) override { server_write(m); }
        void WriteAndFinish(const SV* m, grpc::WriteOptions, grpc::Status s) override
        {
            server_write(m);
            server_finish(s);
        }
    };
    struct SWriter final : SWriterBase
    {
        using SWriterBase::SWriterBase;
        void Write(const SV* m, grpc::WriteOptions) override { server_write(m); }
        void WriteAndFinish(const SV* m, grpc::WriteOptions, grpc::Status s) override
        {
            server_write(m);
            server_finish(s);
        }
    };
    struct SReader final : SReaderBase
    {
        using SReaderBase::SReaderBase;
        void Read(SV* m) override { server_read(m); }
    };

    // ---- the program around it ----
    std::optional<rpp::dynamic_observer<SV>> g_obs[2];
    rpp::composite_disposable_wrapper        g_subscription[2] = {rpp::composite_disposable_wrapper::empty(), rpp::composite_disposable_wrapper::empty()};
    int                                      g_values[2];

    void push_value(int side, int v)
    {
        Pushed* p;
        {
            sim::Quiet q;
            if (g_side[side].n == 100)
                return;
            p  = &g_side[side].pushed[g_side[side].n++];
            *p = {v, sim::self(), sim::steps(), LONG_MAX};
            ++g_pushing;
            g_overlap |= (side ? L->s_running : L->c_running) > 0;
        }
        g_obs[side]->on_next(SV{v});
        sim::Quiet q;
        p->e = sim::steps();
        --g_pushing;
    }
    void push_end(int side, bool fail)
    {
        {
            sim::Quiet q;
            if (!g_side[side].term)
            {
                g_side[side].term   = fail ? 2 : 1;
                g_side[side].term_b = sim::steps();
            }
            else if (g_side[side].term != (fail ? 2 : 1) && g_side[side].term_e == LONG_MAX)
                g_side[side].term = 3; // two different ones at the same time: either may win
            ++g_pushing;
            g_overlap |= (side ? L->s_running : L->c_running) > 0;
        }
        if (fail)
            g_obs[side]->on_error(make_error(5));
        else
            g_obs[side]->on_completed();
        sim::Quiet q;
        if (g_side[side].term_e == LONG_MAX)
            g_side[side].term_e = sim::steps();
        --g_pushing;
    }
    void run_pushes(int side, const std::vector<Push>& ops)
    {
        for (const auto& o : ops)
        {
            sim::point();
            switch (o.kind)
            {
                case Push::Value: push_value(side, o.arg); break;
                case Push::Complete: push_end(side, false); break;
                case Push::Fail: push_end(side, true); break;
                case Push::Cancel: {
                    sim::Quiet q;
                    if (side == 1 && L->s_sent)
                        break;
                    g_cancelled                             = true;
                    (side == 0 ? L->c_cancel : L->s_cancel) = true;
                    break;
                }
                case Push::Drop: so::dispose(g_subscription[side], side); break;
                default:
                    for (int i = 0; i < 4 * o.arg; ++i)
                        sim::point();
            }
        }
    }
    void hook(int side, int at)
    {
        if (g_sub[side].ev[at].kind != Next)
            return;
        const int end = side ? P->s_end : P->c_end;
        int       n, v;
        {
            sim::Quiet q;
            n = ++g_values[side];
            v = g_sub[side].ev[at].v;
        }
        if (side ? P->s_writes() : P->c_writes())
        {
            const int answers = side ? P->echo : (n <= P->reply);
            for (int i = 0; i < answers; ++i)
                push_value(side, 100000 * (side + 1) + 3 * (v % 100000) + i);
            if (end && n == std::abs(end))
                push_end(side, end < 0);
        }
    }

    std::string history()
    {
        std::string r = "\nhistory:";
        for (int s = 0; s < 2; ++s)
        {
            const auto& d = g_side[s];
            r += s ? "\n server" : "\n client";
            r += " pushed";
            for (int i = 0; i < d.n; ++i)
                r += " " + std::to_string(d.pushed[i].v);
            r += d.term == 1 ? " |" : d.term == 2 ? " E" : d.term ? " |/E" : "";
            r += "; wrote";
            for (int i = 0; i < d.nw; ++i)
                r += " " + std::to_string(d.written[i]);
            r += d.half_closed ? (s ? " and finished" : " and closed") : "";
            r += "; was handed";
            for (int i = 0; i < d.nh; ++i)
                r += " " + std::to_string(d.handed[i]);
            r += "; its subscriber got" + so::show(g_sub[s]);
        }
        r += "\n cancelled: client " + std::to_string(L->c_cancel) + " server " + std::to_string(L->s_cancel) + " (told " + std::to_string(L->s_cancel_told) + "); status of server " + std::to_string(L->s_result.code) + ", of client " + std::to_string(L->c_result.code);
        return r;
    }
#define FAIL(...)                                \
    do                                           \
    {                                            \
        char b_[300];                            \
        snprintf(b_, sizeof b_, __VA_ARGS__);    \
        pbt::fail("%s%s", b_, history().c_str()); \
    } while (false)

    void check_writer(int s)
    {
        const auto& d    = g_side[s];
        const char* name = s ? "server" : "client";
        for (int i = 0; i < d.nw; ++i)
        {
            int from = -1;
            for (int k = 0; k < d.n; ++k)
                if (d.pushed[k].v == d.written[i])
                    from = k;
            if (from < 0)
                FAIL("the %s wrote %d which nobody pushed", name, d.written[i]);
            for (int k = 0; k < i; ++k)
            {
                if (d.written[k] == d.written[i])
                    FAIL("the %s wrote %d twice", name, d.written[i]);
                for (int x = 0; x < d.n; ++x)
                    if (d.pushed[x].v == d.written[k] && d.pushed[x].b > d.pushed[from].e)
                        FAIL("the %s wrote %d before %d", name, d.written[k], d.written[i]);
            }
        }
        const bool over = g_cancelled || d.write_failed || (s == 0 && L->status_arrived && !d.half_closed);
        if (d.term && !over)
        {
            if (!d.half_closed)
                FAIL("the %s did not end its stream of messages", name);
            for (int k = 0; k < d.n; ++k)
            {
                bool w = d.pushed[k].e > d.term_b;
                for (int i = 0; i < d.nw; ++i)
                    w |= d.written[i] == d.pushed[k].v;
                if (!w)
                    FAIL("the %s did not write %d", name, d.pushed[k].v);
            }
            if (s == 1 && d.term == 1 && L->s_result.code)
                FAIL("the server completed, its status is %d", L->s_result.code);
            if (s == 1 && d.term == 2 && !L->s_result.code)
                FAIL("the server failed, its status is OK");
        }
    }
    void check_reader(int s)
    {
        const auto& d    = g_side[s];
        const auto& u    = g_sub[s];
        const char* name = s ? "server" : "client";
        int         n    = 0;
        for (int i = 0; i < u.n; ++i)
            if (u.ev[i].kind == Next)
            {
                if (n >= d.nh || d.handed[n] != u.ev[i].v)
                    FAIL("the %s's subscriber got %d, not the next received message", name, u.ev[i].v);
                ++n;
            }
        const bool failed = s ? L->s_cancel_told : L->c_result.code != 0;
        if (u.ended() && u.ev[u.n - 1].kind != (failed ? Error : Completed))
            FAIL("the %s's subscriber was told about %s of the call", name, failed ? "completion instead of failure" : "failure instead of completion");
        if (u.db >= 0)
            return;
        if (!u.ended())
            FAIL("the %s's subscriber was not told about the end of the call", name);
        if (n < d.nh && !(s && failed))
            FAIL("the %s's subscriber did not get %d", name, d.handed[n]);
    }

    struct OnErr
    {
        int  i;
        void operator()(const std::exception_ptr& e) const
        {
            int ok = 0;
            try
            {
                std::rethrow_exception(e);
            }
            catch (const rppgrpc::utils::reactor_failed& x)
            {
                ok = i == 1 || !strcmp(x.what(), L->c_result.text) ? 1 : 2;
            }
            catch (...)
            {
            }
            if (ok != 1)
                pbt::fail("the %s's subscriber got an error %s", i ? "server" : "client", ok ? "with another message than the status" : "of another type than reactor_failed");
            Callback c{i, Error, 0};
        }
    };
    struct OnAny
    {
        int  i;
        void operator()(const SV& v) const { OnNext{i}(v); }
        void operator()(const rpp::utils::none&) const { pbt::fail("a reactor that reads nothing emitted a value"); }
    };
    template<typename R>
    void prepare(R* r, int side)
    {
        if constexpr (requires { r->get_observer(); })
            g_obs[side].emplace(r->get_observer().as_dynamic());
        g_subscription[side] = rpp::composite_disposable_wrapper::make();
        r->get_observable().subscribe(g_subscription[side], OnAny{side}, OnErr{side}, OnCompleted{side});
    }
    bool all_done(void*)
    {
        return L->c_done && L->s_done && (!P->c_rpp || g_side[0].deleted) && (!P->s_rpp || g_side[1].deleted);
    }

    void run(const Plan& p)
    {
        auto link = std::make_unique<Link>();
        L         = link.get();
        std::unique_ptr<SBidi>   sb;
        std::unique_ptr<SReader> sr;
        std::unique_ptr<SWriter> sw;
        std::unique_ptr<CBidi>   cb;
        std::unique_ptr<CReader> cr;
        std::unique_ptr<CWriter> cw;
        std::function<void()>    init = [] { L->c_started = true; }, bind = [] { L->s_bound = true; };
        g_hook                        = hook;
        if (p.c_rpp)
        {
            if (p.call == Bidi)
            {
                auto* r = new rppgrpc::client_bidi_reactor<SV, SV>();
                cb      = std::make_unique<CBidi>(g_cb = r);
                prepare(r, 0);
                init = [r] { r->init(); };
            }
            else if (p.call == ClientStream)
            {
                auto* r = new rppgrpc::client_write_reactor<SV>();
                cw      = std::make_unique<CWriter>(g_cw = r);
                prepare(r, 0);
                init = [r] { r->init(); };
            }
            else
            {
                auto* r = new rppgrpc::client_read_reactor<SV>();
                cr      = std::make_unique<CReader>(g_cr = r);
                prepare(r, 0);
                init = [r] { r->init(); };
            }
        }
        if (p.s_rpp)
        {
            if (p.call == Bidi)
            {
                auto* r = new rppgrpc::server_bidi_reactor<SV, SV>();
                sb      = std::make_unique<SBidi>(g_sb = r);
                prepare(r, 1);
                bind = [&] { sb->bind(); };
            }
            else if (p.call == ClientStream)
            {
                auto* r = new rppgrpc::server_read_reactor<SV>();
                sr      = std::make_unique<SReader>(g_sr = r);
                prepare(r, 1);
                bind = [&] { sr->bind(); };
            }
            else
            {
                auto* r = new rppgrpc::server_write_reactor<SV>();
                sw      = std::make_unique<SWriter>(g_sw = r);
                prepare(r, 1);
                bind = [&] { sw->bind(); };
            }
        }

        std::vector<std::thread> workers, pushers;
        for (int i = 0; i < p.workers; ++i)
            workers.emplace_back(worker);
        if (!p.late_init)
            init();
        if (!p.late_bind)
            bind();
        for (int side = 0; side < 2; ++side)
            for (const auto& ops : side ? p.s_push : p.c_push)
                pushers.emplace_back([side, &ops] { run_pushes(side, ops); });
        if (p.late_init)
            init();
        if (p.late_bind)
            bind();
        for (auto& t : pushers)
            t.join();
        // whatever happened, both sides end their streams
        if (p.c_rpp && p.c_writes())
            push_end(0, false);
        if (p.s_rpp && p.s_writes())
            push_end(1, false);
        sim::wait_until(all_done, nullptr);
        {
            sim::Quiet q;
            L->stop = true;
        }
        for (auto& t : workers)
            t.join();
        {
            sim::Quiet q;
            if (p.c_rpp)
                check_reader(0);
            if (p.c_rpp && p.c_writes())
                check_writer(0);
            if (p.s_rpp)
                check_reader(1);
            if (p.s_rpp && p.s_writes())
                check_writer(1);
            if (p.s_rpp && p.call == ClientStream && !g_cancelled && L->s_result.code)
                FAIL("the call was served, its status is %d", L->s_result.code);
            if (p.s_rpp && p.c_rpp && p.call == ClientStream && !g_cancelled && g_side[1].nh != g_side[0].nw)
                FAIL("not every message arrived");
            pbt::nontrivial(g_overlap && g_side[0].nh + g_side[1].nh + g_side[0].nw + g_side[1].nw > 1);
            pbt::label(kCallName[p.call]);
            if (g_cancelled)
                pbt::label("cancelled");
            if (L->s_cancel_told)
                pbt::label("OnCancel");
            if (L->status_arrived && !g_cancelled && p.c_rpp && p.c_writes() && !g_side[0].half_closed)
                pbt::label("ended before the client");
            if (g_side[0].write_failed || g_side[1].write_failed)
                pbt::label("write failed");
        }
        for (int i = 0; i < 2; ++i)
        {
            g_obs[i].reset();
            g_subscription[i] = rpp::composite_disposable_wrapper::empty();
        }
    }

    struct Opt
    {
        bool scripted = true, cancel = true, rpp = true;
        int  call = -1;
        bool strict = false;
    };
    void draw_pushes(pbt::Gen& g, std::vector<std::vector<Push>>& out, int side, bool writes, bool cancel, bool may_end)
    {
        const int threads = g.weighted({1, 4, 2});
        for (int t = 0; t < threads; ++t)
        {
            out.emplace_back();
            const int n = g.range(1, 4);
            for (int i = 0; i < n; ++i)
            {
                const auto k = g.weighted({writes ? 8u : 0u, 2, cancel ? 1u : 0u, 1});
                if (k == 0)
                    out.back().push_back({Push::Value, 1000 * (side + 1) + 100 * t + i});
                else
                    out.back().push_back({k == 1 ? Push::Pause : k == 2 ? Push::Cancel : g.chance(1, 3) ? Push::Drop : Push::Pause, g.range(1, 4)});
            }
            if (t == 0 && may_end && writes && g.chance(2, 3))
                out.back().push_back({g.chance(1, 3) ? Push::Fail : Push::Complete, 0});
        }
    }
    std::string show(const std::vector<PeerOp>& s)
    {
        std::string r;
        for (const auto& o : s)
            r += o.kind == PeerOp::Read ? " read" : o.kind == PeerOp::Write ? " write " + std::to_string(o.arg) : o.kind == PeerOp::End ? " end" : " pause";
        return r;
    }
    void run_case(pbt::Gen& g, const Opt& o)
    {
        Plan p;
        P         = &p;
        p.strict  = o.strict;
        p.call    = o.call >= 0 ? o.call : static_cast<int>(g.below(3));
        const int who = o.scripted ? (o.rpp ? static_cast<int>(g.below(3)) : 1 + static_cast<int>(g.below(2))) : 0;
        p.c_rpp   = who != 1;
        p.s_rpp   = who != 2;
        auto script = [&](std::vector<PeerOp>& s, int base, bool reads, bool writes, bool client) {
            const int n = g.range(0, 5);
            for (int i = 0; i < n; ++i)
            {
                const auto k = g.weighted({reads ? 3u : 0u, writes ? 3u : 0u, 1});
                s.push_back({k == 0 ? PeerOp::Read : k == 1 ? PeerOp::Write : PeerOp::Pause, base + i});
            }
            s.push_back({PeerOp::End, 0});
            if (client && reads)
                for (int i = g.range(0, 3); i; --i)
                    s.push_back({PeerOp::Read, 0});
        };
        if (!p.c_rpp)
            script(p.c_script, 3000, p.call != ClientStream, p.call != ServerStream, true);
        if (!p.s_rpp)
        {
            script(p.s_script, 4000, p.call != ServerStream, p.call != ClientStream, false);
            p.s_status = g.chance(1, 3) ? 3 : 0;
        }
        if (p.c_rpp)
            draw_pushes(g, p.c_push, 0, p.c_writes(), o.cancel, true);
        else if (o.cancel && g.chance(1, 3))
            p.c_push.push_back({{Push::Pause, g.range(0, 6)}, {Push::Cancel, 0}});
        if (p.s_rpp)
            draw_pushes(g, p.s_push, 1, p.s_writes(), o.cancel, true);
        if (p.s_rpp && p.s_writes() && p.call == Bidi)
        {
            p.echo  = g.weighted({2, 2, 1});
            p.s_end = g.chance(1, 3) ? g.range(-3, 3) : 0;
        }
        if (p.c_rpp && p.call == Bidi)
        {
            p.reply = g.weighted({2, 1, 1, 1});
            p.c_end = g.chance(1, 4) ? g.range(1, 3) : 0;
        }
        p.workers   = g.range(1, 3);
        p.window    = g.range(1, 3);
        p.late_init = g.coin();
        p.late_bind = g.coin();
        const int nc = g.range(1, 24);
        for (int i = 0; i < nc; ++i)
            p.choice.push_back(g.below(60));

        pbt::note("%s call, %d transport threads, window %d%s%s\n", kCallName[p.call], p.workers, p.window, p.late_init ? ", init late" : "", p.late_bind ? ", bound late" : "");
        if (!p.c_rpp)
            pbt::note("client (scripted):%s\n", show(p.c_script).c_str());
        if (!p.s_rpp)
            pbt::note("server (scripted):%s with status %d\n", show(p.s_script).c_str(), p.s_status);
        for (int side = 0; side < 2; ++side)
            for (auto& t : side ? p.s_push : p.c_push)
            {
                pbt::note("thread at the %s:", side ? "server" : "client");
                for (auto& x : t)
                    pbt::note(" %s", x.kind == Push::Value ? std::to_string(x.arg).c_str() : x.kind == Push::Complete ? "complete" : x.kind == Push::Fail ? "fail" : x.kind == Push::Cancel ? "cancel" : x.kind == Push::Drop ? "dispose" : "pause");
                pbt::note("\n");
            }
        if (p.echo || p.s_end)
            pbt::note("server answers each message by %d, ends after %d\n", p.echo, p.s_end);
        if (p.reply || p.c_end)
            pbt::note("client answers %d messages, ends after %d\n", p.reply, p.c_end);

        const auto sched = sim::draw(g);
        sim::begin(g, sched);
        const long news = sim::live_news();
        run(p);
        sim::finish();
        if (sim::live_news() != news)
            pbt::fail("%ld allocations are left", sim::live_news() - news);
    }
}

int main(int argc, char** argv)
{
    pbt::Spec s;
    s.property         = "C28";
    s.case_cpu_limit_s = 5;
    s.rule             = "at least two messages were written or received, and reactions of the call overlapped each other or a push; distinct by the full sequence of generator choices (program and schedule)";
    s.assumptions      = {"the transport is simulated through the interfaces gRPC publishes for mocking; it delivers what gRPC's documentation allows",
                          "sequentially consistent interleavings, with data races checked against the declared memory orders"};
    auto fam = [&](const char* n, Opt o, uint64_t q, uint64_t t) { s.families.push_back({n, [o](pbt::Gen& g) { run_case(g, o); }, q, t, true}); };
    Opt  quiet;
    quiet.cancel = quiet.scripted = false;
    fam("both sides, no cancellation", quiet, 30000, 1000000);
    Opt both;
    both.scripted = false;
    fam("both sides", both, 40000, 1500000);
    Opt one;
    one.rpp = false;
    fam("one side against a scripted peer", one, 40000, 1500000);
    Opt strict;
    strict.rpp = false;
    strict.strict = true;
    strict.call = ClientStream;
    fam("strict", strict, 0, 0); // for the known finding only
    return pbt::run_main(argc, argv, s);
}
