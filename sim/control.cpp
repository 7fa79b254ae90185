// One server against a scripted provider: users of pause, desync and rolling
// schema upgrade (C13), and state transfers with every kind of outcome (C15).
#include "world.hpp"
#include "nullprov.hpp"
#include "wsrep/exception.hpp"

namespace w
{
    typedef wsrep::server_state SS;
    typedef wsrep::client_state CS;
    namespace
    {
        // documented transitions of the server state
        bool documented(enum SS::state a, enum SS::state b)
        {
            static const std::map<int, std::set<int>> t =
            {
                { SS::s_disconnected, { SS::s_initializing, SS::s_connected } },
                { SS::s_initializing, { SS::s_disconnected, SS::s_initialized, SS::s_disconnecting } },
                { SS::s_initialized, { SS::s_disconnected, SS::s_connected, SS::s_joined, SS::s_disconnecting } },
                { SS::s_connected, { SS::s_disconnected, SS::s_joiner, SS::s_synced, SS::s_disconnecting } },
                { SS::s_joiner, { SS::s_disconnected, SS::s_initializing, SS::s_joined, SS::s_disconnecting } },
                { SS::s_joined, { SS::s_disconnected, SS::s_connected, SS::s_donor, SS::s_synced, SS::s_disconnecting } },
                { SS::s_donor, { SS::s_disconnected, SS::s_connected, SS::s_joined, SS::s_disconnecting } },
                { SS::s_synced, { SS::s_disconnected, SS::s_connected, SS::s_joined, SS::s_donor, SS::s_disconnecting } },
                { SS::s_disconnecting, { SS::s_disconnected } },
            };
            return t.at(a).count(b) != 0;
        }
        struct Ctl;
        struct CtlSvc : ServerSvc
        {
            CtlSvc(Node& n, Ctl& c) : ServerSvc(n), ctl(c) { }
            Ctl& ctl;
            int wait_committing_transactions(int) WSREP_OVERRIDE;
            int start_sst(const std::string&, const wsrep::gtid&, bool) WSREP_OVERRIDE;
            wsrep::gtid get_position(wsrep::client_service&) WSREP_OVERRIDE;
            wsrep::view get_view(wsrep::client_service&, const wsrep::id&) WSREP_OVERRIDE;
            void log_view(wsrep::high_priority_service*, const wsrep::view&) WSREP_OVERRIDE;
            void log_state_change(enum SS::state, enum SS::state) WSREP_OVERRIDE;
            bool sst_before_init() const WSREP_OVERRIDE;
            void recover_streaming_appliers(wsrep::client_service&) WSREP_OVERRIDE;
            void recover_streaming_appliers(wsrep::high_priority_service&) WSREP_OVERRIDE;
        };
        struct CtlProvider : NullProvider
        {
            CtlProvider(wsrep::server_state& ss, Ctl& c) : NullProvider(ss), ctl(c) { }
            Ctl& ctl;
            int desync() WSREP_OVERRIDE;
            int resync() WSREP_OVERRIDE;
            wsrep::seqno pause() WSREP_OVERRIDE;
            int resume() WSREP_OVERRIDE;
            enum status connect(const std::string&, const std::string&, const std::string&, bool) WSREP_OVERRIDE;
            int disconnect() WSREP_OVERRIDE;
            enum status sst_sent(const wsrep::gtid&, int) WSREP_OVERRIDE;
            enum status sst_received(const wsrep::gtid&, int) WSREP_OVERRIDE;
        };
        struct Ctl
        {
            Node node{0};
            CtlProvider* prov = 0;
            // pause and desync as the provider sees them
            bool paused = false;
            int desyncs = 0;
            double p_pause = 0, p_desync = 0, p_resume = 0, p_resync = 0, p_commit = 0;
            int pause_calls = 0, pauses = 0, resumes = 0, desync_ok = 0, resyncs = 0;
            std::map<sim::fiber*, int> last_desync, last_commit_wait;   // result seen by the calling thread
            std::map<sim::fiber*, bool> last_pause, end_failed;
            wsrep::seqno pause_pos;
            int64_t pos = 10;
            bool broken = false;            // resume or resync failed: server needs a restart
            // state transfer
            wsrep::gtid recovered;
            wsrep::view stored_view;
            bool sst_first = true;
            int sst_fail_start = 0;
            int recv_calls = 0, recv_err = 0, sent_calls = 0, sent_err = 0;
            wsrep::gtid recv_gtid, sent_gtid;
            enum wsrep::provider::status recv_ret = wsrep::provider::success, sent_ret = wsrep::provider::success;
            enum SS::state recv_state = SS::s_disconnected;
            std::vector<enum SS::state> hist{SS::s_disconnected};
            int recovers = 0, views_logged = 0;
            bool recovered_before_report = false;
            wsrep::id sst_id;
            // life cycle
            bool conn_req = false, disc_req = false;
            int connects = 0, disconnects = 0;
            sim::wait_queue wq{"life"};
        };
        enum wsrep::provider::status CtlProvider::connect(const std::string&, const std::string&, const std::string&, bool bootstrap)
        {
            SIM_CHECK("C14", "bootstrap-option", bootstrap == ctl.node.want_bootstrap, "provider is asked to " << (bootstrap ? "bootstrap" : "join")
                      << " but the server to " << (ctl.node.want_bootstrap ? "bootstrap" : "join"));
            race::scope in_provider(&ctl);
            sim::yield_point("connect");
            ++ctl.connects; ctl.conn_req = true; ctl.disc_req = false; ctl.wq.wake_all();
            return success;
        }
        int CtlProvider::disconnect()
        {
            sim::yield_point("disconnect");
            ++ctl.disconnects; ctl.disc_req = true; ctl.wq.wake_all();
            SIM_EV("provider disconnect");
            return 0;
        }
        int CtlProvider::desync()
        {
            sim::yield_point("desync");
            const int r = sim::fault(ctl.p_desync, "desync-fails") ? 1 : 0;
            if (!r) { ++ctl.desyncs; ++ctl.desync_ok; }
            SIM_EV("desync " << r << " count " << ctl.desyncs);
            ctl.last_desync[sim::current()] = r;
            return r;
        }
        int CtlProvider::resync()
        {
            sim::yield_point("resync");
            SIM_EV("resync count " << ctl.desyncs);
            SIM_CHECK("C13", "resync-unbalanced", ctl.desyncs > 0, "provider is resynced but it was not desynced");
            if (sim::fault(ctl.p_resync, "resync-fails")) { ctl.broken = true; ctl.end_failed[sim::current()] = true; return 1; }
            if (ctl.desyncs > 0) --ctl.desyncs;
            ++ctl.resyncs;
            return 0;
        }
        wsrep::seqno CtlProvider::pause()
        {
            sim::yield_point("pause");
            SIM_CHECK("C13", "pause-nested", !ctl.paused, "provider is paused while it is paused already");
            ++ctl.pause_calls;
            if (sim::chance(0.3, "pause-slow")) sim::sleep_us(sim::range(1, 2000, "pause-us"));
            const bool fails = sim::fault(ctl.p_pause, "pause-fails");
            ctl.last_pause[sim::current()] = !fails;
            SIM_EV("pause " << (fails ? "fails" : "ok"));
            if (fails) return wsrep::seqno::undefined();
            SIM_CHECK("C13", "pause-nested", !ctl.paused, "provider is paused while it is paused already");
            ctl.paused = true;
            ++ctl.pauses;
            ctl.pause_pos = wsrep::seqno(++ctl.pos);
            return ctl.pause_pos;
        }
        int CtlProvider::resume()
        {
            sim::yield_point("resume");
            SIM_EV("resume");
            SIM_CHECK("C13", "resume-unbalanced", ctl.paused, "provider is resumed but it was not paused");
            if (sim::fault(ctl.p_resume, "resume-fails")) { ctl.broken = true; ctl.end_failed[sim::current()] = true; return 1; }
            ctl.paused = false;
            ++ctl.resumes;
            return 0;
        }
        int CtlSvc::wait_committing_transactions(int)
        {
            sim::yield_point("wait-committing");
            const int r = sim::fault(ctl.p_commit, "pending-transactions") ? 1 : 0;
            ctl.last_commit_wait[sim::current()] = r;
            return r;
        }
        enum wsrep::provider::status CtlProvider::sst_sent(const wsrep::gtid& g, int e)
        { ++ctl.sent_calls; ctl.sent_gtid = g; ctl.sent_err = e; sim::yield_point("sst-sent"); return ctl.sent_ret; }
        enum wsrep::provider::status CtlProvider::sst_received(const wsrep::gtid& g, int e)
        {
            race::scope in_provider(&ctl);
            ++ctl.recv_calls; ctl.recv_gtid = g; ctl.recv_err = e;
            ctl.recv_state = static_cast<enum SS::state>(ctl.node.last_state);
            ctl.recovered_before_report = ctl.recovers > 0;
            SIM_EV("sst_received " << g << " " << e);
            ctl.wq.wake_all();
            sim::yield_point("sst-received");
            return ctl.recv_ret;
        }
        int CtlSvc::start_sst(const std::string&, const wsrep::gtid&, bool)
        {
            sim::yield_point("start-sst");
            SIM_CHECK("C15", "donor-state", ctl.hist.back() == SS::s_donor || ctl.hist.back() == SS::s_disconnecting, "state transfer starts in state " << wsrep::to_string(ctl.hist.back()));
            return ctl.sst_fail_start;
        }
        wsrep::gtid CtlSvc::get_position(wsrep::client_service&) { sim::yield_point("position"); return ctl.recovered; }
        wsrep::view CtlSvc::get_view(wsrep::client_service&, const wsrep::id& id)
        {
            sim::yield_point("view");
            SIM_CHECK("C15", "view-id", id == ctl.sst_id, "recovered view is asked for id " << id << ", the server is " << ctl.sst_id);
            return ctl.stored_view;
        }
        void CtlSvc::log_view(wsrep::high_priority_service*, const wsrep::view&) { ++ctl.views_logged; }
        void CtlSvc::log_state_change(enum SS::state a, enum SS::state b)
        {
            SIM_CHECK("C14,C15", "state-history", a == ctl.hist.back(), "state change from " << wsrep::to_string(a) << " reported, last state was " << wsrep::to_string(ctl.hist.back()));
            SIM_EV("state " << wsrep::to_c_string(a) << " -> " << wsrep::to_c_string(b));
            SIM_CHECK("C14", "transition", documented(a, b), "transition " << wsrep::to_string(a) << " -> " << wsrep::to_string(b));
            ctl.hist.push_back(b);
            if (b == SS::s_synced && ctl.connects)
                SIM_CHECK("C14", "not-bootstrapped", !node.want_bootstrap || node.booted == 1, "synced member of a new cluster which was never initialized");
            node.last_state = int(b);
        }
        bool CtlSvc::sst_before_init() const { return ctl.sst_first; }
        void CtlSvc::recover_streaming_appliers(wsrep::client_service&) { ++ctl.recovers; sim::yield_point("recover"); }
        void CtlSvc::recover_streaming_appliers(wsrep::high_priority_service&) { ++ctl.recovers; }

        double pick(std::initializer_list<double> l, const char* tag) { return l.begin()[sim::choose(uint32_t(l.size()), tag)]; }

        // ---- pause, desync, RSU ------------------------------------------------------
        struct User
        {
            Ctl& c;
            Node& n;
            ClientSvc svc;
            Cs* cs;
            User(Ctl& ctl) : c(ctl), n(ctl.node), svc(ctl.node)
            {
                cs = new Cs(n, *n.ss, svc, W->next_client++, CS::m_local);
                svc.cs = cs;
            }
            void hold() { if (sim::chance(0.5, "hold")) sim::sleep_us(sim::range(1, 3000, "hold-us")); else sim::yield_point("hold"); }
            void check_paused(const wsrep::seqno& s, const char* who)
            {
                SIM_CHECK("C13", "not-paused", c.paused, who << " holds a pause but the provider runs");
                SIM_CHECK("C13", "pause-position", s == c.pause_pos && n.ss->pause_seqno() == s,
                          who << " paused at " << s.get() << ", provider is paused at " << c.pause_pos.get());
            }
            void op(uint32_t k)
            {
                SS& ss = *n.ss;
                sim::fiber* me = sim::current();
                if (k == 0)
                {
                    wsrep::seqno s = ss.pause();
                    SIM_CHECK("C13", "pause-result", s.is_undefined() == !c.last_pause[me], "pause returned " << s.get() << ", provider " << (c.last_pause[me] ? "paused" : "failed"));
                    if (s.is_undefined()) { sim::probe("pause-failed"); return; }
                    check_paused(s, "pause()");
                    hold();
                    check_paused(s, "pause()");
                    ss.resume();
                }
                else if (k == 1)
                {
                    int r = ss.desync();
                    SIM_CHECK("C13", "desync-result", (r != 0) == (c.last_desync[me] != 0), "desync returned " << r << ", provider returned " << c.last_desync[me]);
                    if (r) return;
                    hold();
                    SIM_CHECK("C13", "not-desynced", c.desyncs > 0, "desync is held but the provider was resynced");
                    ss.resync();
                }
                else if (k == 2)
                {
                    wsrep::seqno s = ss.desync_and_pause();
                    const bool d = c.last_desync[me] == 0, p = c.last_pause[me];
                    SIM_CHECK("C13", "pause-result", s.is_undefined() == !p, "desync_and_pause returned " << s.get() << ", provider pause " << p);
                    if (s.is_undefined()) { sim::probe(d ? "pause-failed" : "desync-and-pause-failed"); return; }
                    check_paused(s, "desync_and_pause()");
                    SIM_CHECK("C13", "desync-noted", ss.desynced_on_pause() == d, "desync " << (d ? "succeeded" : "failed") << " but it is noted as " << ss.desynced_on_pause());
                    hold();
                    check_paused(s, "desync_and_pause()");
                    SIM_CHECK("C13", "not-desynced", !d || c.desyncs > 0, "desync is held but the provider was resynced");
                    if (!d) sim::probe("paused-without-desync");
                    ss.resume_and_resync();
                }
                else
                {
                    cs->open(cs->id());
                    if (cs->before_command()) return;
                    if (cs->before_statement()) return;
                    int r = 0;
                    c.last_commit_wait[me] = 0; c.last_pause[me] = true; c.last_desync[me] = 0;
                    const int calls = c.pause_calls;
                    r = cs->begin_rsu(1);
                    const bool ok = !c.last_desync[me] && !c.last_commit_wait[me] && c.last_pause[me];
                    SIM_CHECK("C13", "rsu-result", (r == 0) == ok, "begin_rsu returned " << r << " but its steps " << (ok ? "succeeded" : "failed"));
                    if (r)
                    {
                        sim::probe("rsu-failed");
                        SIM_CHECK("C13", "rsu-mode", cs->mode() == CS::m_local, "mode is " << cs->mode() << " after failed begin of RSU");
                    }
                    else
                    {
                        SIM_CHECK("C13", "rsu-mode", cs->mode() == CS::m_rsu, "mode is " << cs->mode() << " in RSU");
                        SIM_CHECK("C13", "rsu-not-paused", c.paused && c.desyncs > 0, "RSU runs but the node is not paused and desynced");
                        hold();
                        SIM_CHECK("C13", "rsu-not-paused", c.paused && c.desyncs > 0, "RSU runs but the node is not paused and desynced");
                        sim::probe("rsu");
                        const bool was = c.broken;
                        c.end_failed[me] = false;
                        r = cs->end_rsu();
                        SIM_CHECK("C13", "rsu-end", r != 0 || !c.end_failed[me], "end_rsu succeeds though the provider could not be resumed and resynced");
                        SIM_CHECK("C13", "rsu-end", r == 0 || c.broken || was, "end_rsu fails though the provider resumed and resynced");
                        SIM_CHECK("C13", "rsu-mode", cs->mode() == CS::m_local, "mode is " << cs->mode() << " after end of RSU");
                    }
                    (void)calls;
                    cs->after_statement();
                    cs->after_command_before_result();
                    cs->after_command_after_result();
                    cs->close();
                    cs->cleanup();
                }
            }
        };
        Ctl* make(Ctl* c)
        {
            Node& n = c->node;
            n.svc.reset(new CtlSvc(n, *c));
            n.locks.reset(new LockMgr(n));
            n.ss.reset(new ServerState(n, *n.svc, wsrep::gtid::undefined(), SS::rm_sync));
            n.ss->set_provider_factory([c](wsrep::server_state& ss, const std::string&, const std::string&, const wsrep::provider::services&)
            { c->prov = new CtlProvider(ss, *c); return std::unique_ptr<wsrep::provider>(c->prov); });
            n.ss->load_provider("ctl", "", wsrep::provider::services());
            return c;
        }
        void pause_world()
        {
            Ctl* c = make(new Ctl());
            const bool faulty = sim::chance(0.7, "faulty");
            if (faulty)
            {
                c->p_pause = pick({0, 0.2, 0.5}, "p_pause");
                c->p_desync = pick({0, 0.2, 0.5}, "p_desync");
                c->p_commit = pick({0, 0.3}, "p_commit");
            }
            const int users = int(1 + sim::choose(4, "users"));
            int done = 0;
            sim::wait_queue wq("users");
            for (int i = 0; i < users; ++i)
            {
                User* u = new User(*c);
                sim::spawn("user" + std::to_string(i), 1, [&, u]
                {
                    const int ops = int(1 + sim::choose(4, "ops"));
                    for (int k = 0; k < ops; ++k)
                    {
                        u->op(sim::choose(4, "op"));
                        sim::probe("control");
                        if (sim::chance(0.3, "rest")) sim::sleep_us(sim::range(1, 2000, "rest-us"));
                    }
                    ++done; wq.wake_all();
                });
            }
            while (done < users) wq.wait();
            SIM_CHECK("C13", "left-paused", !c->paused && c->pauses == c->resumes, "provider was paused " << c->pauses << " times and resumed " << c->resumes << " times");
            SIM_CHECK("C13", "left-desynced", c->desyncs == 0 && c->desync_ok == c->resyncs, "provider was desynced " << c->desync_ok << " times and resynced " << c->resyncs << " times");
            SIM_CHECK("C13", "left-noted", c->node.ss->pause_seqno().is_undefined() && !c->node.ss->desynced_on_pause(), "the server still notes a pause or desync");
            sim::state_hash(uint64_t(c->pauses * 100 + c->desync_ok) * 31 + uint64_t(users));
            // the provider stops cooperating: RSU must still be left
            if (sim::chance(0.3, "broken-end"))
            {
                User u(*c);
                c->p_pause = c->p_desync = c->p_commit = 0;
                c->p_resume = pick({0, 1}, "p_resume");
                c->p_resync = pick({0, 1}, "p_resync");
                u.op(3);
                if (c->broken) sim::probe("rsu-end-failed");
            }
        }

        // ---- state transfer --------------------------------------------------------------
        void sst_world()
        {
            Ctl* c = make(new Ctl());
            Node& n = c->node;
            c->sst_first = sim::chance(0.5, "sst_first");
            SS& ss = *n.ss;
            const wsrep::id grp = group_id();
            const int64_t conn = int64_t(sim::choose(20, "connected-at"));
            std::vector<wsrep::view::member> mem;
            const wsrep::id own(std::string("own-000000000001")), other(std::string("oth-000000000001"));
            mem.push_back(wsrep::view::member(own, "own", ""));
            mem.push_back(wsrep::view::member(other, "oth", ""));
            c->sst_id = own;
            const wsrep::view cv(wsrep::gtid(grp, wsrep::seqno(conn)), wsrep::seqno(2), wsrep::view::primary, 0, 0, 1, mem);
            bool failed = false;
            bool init_fails = false;
            c->node.init_called = true;
            if (!c->sst_first) { ss.initialized(); sim::probe("control"); }
            else
                sim::spawn("main", 1, [&]
                {
                    if (ss.wait_until_state(SS::s_initializing)) return;
                    if (sim::chance(0.5, "init-slow")) sim::sleep_us(sim::range(1, 3000, "init-us"));
                    if (init_fails) return;
                    ss.initialized();
                });
            ss.on_connect(cv);
            SIM_CHECK("C14,C15", "connected", ss.state() == SS::s_connected && ss.id() == own, "server is not connected after on_connect");
            ss.prepare_for_sst();
            SIM_CHECK("C15", "joiner", ss.state() == SS::s_joiner, "server is not joiner after asking for state transfer");
            int attempts = 0;
            // result of the transfer
            const uint32_t kind = sim::choose(8, "outcome");
            int64_t got = conn + int64_t(sim::choose(5, "ahead"));
            int err = 0;
            bool bad_view = false, no_view = false;
            if (kind == 1) { err = 1 + int(sim::choose(200, "errno")); sim::note_fault("sst-failed"); }
            if (kind == 2 && conn > 0) got = conn - 1 - int64_t(sim::choose(uint32_t(conn), "behind"));
            if (kind == 3) { bad_view = true; sim::note_fault("sst-view-ahead"); }
            if (kind == 4) { bad_view = true; sim::note_fault("sst-view-other-group"); }
            if (kind == 5) no_view = true;
            if (kind == 6) { c->recv_ret = wsrep::provider::error_connection_failed; sim::note_fault("sst-received-fails"); }
            c->recovered = wsrep::gtid(grp, wsrep::seqno(got));
            wsrep::id vg = grp;
            int64_t vp = got - int64_t(sim::choose(uint32_t(got < 3 ? got + 1 : 4), "view-behind"));
            if (kind == 3) vp = got + 1 + int64_t(sim::choose(3, "view-ahead"));
            if (kind == 4) vg = wsrep::id(std::string("other-group-0001"));
            c->stored_view = no_view ? wsrep::view()
                : wsrep::view(wsrep::gtid(vg, wsrep::seqno(vp)), wsrep::seqno(1), wsrep::view::primary, 0, 1, 1, mem);
            ClientSvc csvc(n);
            Cs* cs = new Cs(n, ss, csvc, W->next_client++, CS::m_high_priority);
            csvc.cs = cs;
            cs->open(cs->id());
            cs->before_command();
            const int ret = ss.sst_received(csvc, err);
            ++attempts;
            sim::probe("control");
            const bool behind = got < conn;
            SIM_EV("outcome " << kind << " ret " << ret << " state " << wsrep::to_string(ss.state()));
            SIM_CHECK("C15", "sst-reported-once", c->recv_calls == 1, "result of one transfer was reported " << c->recv_calls << " times");
            bool was_joined = false;
            for (auto h : c->hist) was_joined = was_joined || h == SS::s_joined;
            if (err || bad_view)
            {
                sim::probe("sst-bad");
                SIM_CHECK("C15", "sst-failure-lost", c->recv_err != 0, "transfer failed but success was reported to the provider");
                SIM_CHECK("C15", "sst-failed-position", c->recv_gtid.is_undefined(), "failed transfer reported position " << c->recv_gtid);
                SIM_CHECK("C15", "sst-return", bad_view ? ret != 0 : true, "inconsistent state accepted");
                if (err) SIM_CHECK("C15", "sst-failed-joined", !was_joined, "server joined after failed transfer");
                if (err) SIM_CHECK("C15", "sst-error-code", c->recv_err == err, "transfer failed with " << err << ", reported " << c->recv_err);
            }
            else
            {
                SIM_CHECK("C15", "sst-position", c->recv_err == 0 && c->recv_gtid == c->recovered, "recovered " << c->recovered << ", reported " << c->recv_gtid << " error " << c->recv_err);
                SIM_CHECK("C15", "sst-return", (ret == 0) == (c->recv_ret == wsrep::provider::success), "provider returned " << int(c->recv_ret) << " but the transfer returned " << ret);
                SIM_CHECK("C15,C09", "sst-recover", c->recovers == 1 && c->recovered_before_report,
                          "streaming transactions were recovered " << c->recovers << " times before the transfer was reported");
                SIM_CHECK("C15", "sst-current-view", no_view || ss.current_view().state_id() == c->stored_view.state_id(), "current view is not the recovered one");
            }
            SIM_CHECK("C15", "sst-joined-early", !was_joined || !behind, "server joined at " << got << " but it connected at " << conn);
            SIM_CHECK("C15", "sst-not-joined", err || bad_view || behind || was_joined, "server did not join at " << got << ", it connected at " << conn);
            SIM_CHECK("C14,C15", "sst-init", err || ss.is_initialized(), "transfer was received but the server is not initialized");
            if (err || bad_view || c->recv_ret != wsrep::provider::success) { sim::state_hash(kind * 1000 + uint64_t(got)); return; }
            if (behind)
            {
                // the rest comes as write sets and views, from positions before the one where the server connected
                Hps* h = new Hps(n, false);
                sim::probe("sst-behind");
                for (int64_t p = got; p < conn; )
                {
                    p += 1 + int64_t(sim::choose(3, "view-step"));
                    if (p > conn) p = conn;
                    ss.on_view(wsrep::view(wsrep::gtid(grp, wsrep::seqno(p)), wsrep::seqno(2), wsrep::view::primary, 0, 0, 1, mem), h);
                    SIM_CHECK("C15", "sst-joined-early", p >= conn || ss.state() < SS::s_joined, "server joined at view " << p << " but it connected at " << conn);
                    SIM_CHECK("C15", "sst-not-joined", p < conn || ss.state() == SS::s_joined, "server did not join at view " << p << ", it connected at " << conn);
                }
                c->recovers = 1;
            }
            // act as a donor
            ss.on_sync();
            SIM_CHECK("C14,C15", "synced", ss.state() == SS::s_synced, "server is not synced");
            const int rounds = int(sim::choose(3, "donations"));
            for (int i = 0; i < rounds; ++i)
            {
                c->sst_fail_start = sim::fault(0.3, "sst-start-fails") ? 1 : 0;
                c->sent_calls = 0; c->sent_err = 0;
                const wsrep::gtid g(grp, wsrep::seqno(got + i));
                int r = ss.start_sst("req", g, sim::chance(0.3, "bypass"));
                sim::probe("control");
                SIM_CHECK("C15", "donor-return", (r != 0) == (c->sst_fail_start != 0), "start of transfer returned " << r);
                if (r)
                {
                    SIM_CHECK("C15", "donor-stuck", ss.state() == SS::s_joined, "transfer did not start but the donor is in state " << wsrep::to_string(ss.state()));
                    SIM_CHECK("C15", "sst-sent", c->sent_calls == 0, "transfer did not start but its end is reported");
                }
                else
                {
                    const int e = sim::fault(0.3, "sst-send-fails") ? 1 + int(sim::choose(100, "errno")) : 0;
                    c->sent_ret = sim::fault(0.2, "sst-sent-fails") ? wsrep::provider::error_connection_failed : wsrep::provider::success;
                    bool done = false;
                    sim::wait_queue wq("donor");
                    sim::spawn("donor", 1, [&] { ss.sst_sent(e ? wsrep::gtid::undefined() : g, e); done = true; wq.wake_all(); });
                    while (!done) wq.wait();
                    SIM_CHECK("C15", "donor-stuck", ss.state() == SS::s_joined, "transfer ended but the donor is in state " << wsrep::to_string(ss.state()));
                    SIM_CHECK("C15", "sst-sent", c->sent_calls == 1 && c->sent_err == e && c->sent_gtid == (e ? wsrep::gtid::undefined() : g),
                              "end of transfer reported " << c->sent_calls << " times, error " << c->sent_err << " position " << c->sent_gtid);
                }
                ss.on_sync();
                SIM_CHECK("C14,C15", "synced", ss.state() == SS::s_synced, "server is not synced after it was a donor");
            }
            sim::state_hash(kind * 1000 + uint64_t(got) * 10 + uint64_t(rounds));
        }

        // ---- life cycle and state waiters ------------------------------------------------
        struct Waiter
        {
            enum SS::state x = SS::s_disconnected;
            bool blocked = false;
            size_t call = 0, reg = 0;      // history when called, when it started to wait
        };
        struct Life
        {
            Ctl& c;
            SS& ss;
            std::map<sim::fiber*, Waiter*> waiting;
            std::map<std::string, int> in_call;      // library calls in progress which have to return
            int running = 0;
            bool down = false;                        // provider gave up, server has to be restarted
            bool transferring = false;
            int64_t pos = 5;
            int64_t vseq = 1;
            std::vector<wsrep::view::member> mem;
            Life(Ctl& ctl) : c(ctl), ss(*ctl.node.ss) { }
            bool entered(size_t from, enum SS::state x) const
            { for (size_t i = from; i < c.hist.size(); ++i) if (c.hist[i] == x) return true; return false; }
            bool entered_down(size_t from) const { return entered(from, SS::s_disconnecting) || entered(from, SS::s_disconnected); }
            // blocked waiter which nothing has happened to
            bool settled(sim::fiber* f) const
            {
                auto i = waiting.find(f);
                return i != waiting.end() && i->second->blocked && !entered(i->second->reg, i->second->x) && !entered_down(i->second->reg);
            }
            int wait_for(enum SS::state x)
            {
                Waiter w;
                w.x = x; w.call = c.hist.size();
                const enum SS::state at = c.hist.back();
                waiting[sim::current()] = &w;
                const int r = ss.wait_until_state(x);
                waiting.erase(sim::current());
                SIM_EV("wait for " << wsrep::to_c_string(x) << " " << r);
                SIM_CHECK("C14", "waiter-wrong", r || at == x || entered(w.call, x), "waiter for " << wsrep::to_string(x) << " returned, the state was not entered");
                SIM_CHECK("C14", "waiter-interrupted", !r || entered_down(w.call) || at == SS::s_disconnecting,
                          "waiter for " << wsrep::to_string(x) << " was interrupted without disconnecting");
                sim::probe(r ? "waiter-interrupted" : "waiter");
                return r;
            }
            template <class F> bool call(const char* name, F f)
            {
                ++in_call[name];
                const size_t from = c.hist.size();
                const bool ding = c.hist.back() == SS::s_disconnecting;
                bool ok = true;
                try { f(); }
                catch (const wsrep::runtime_error& e)
                {
                    SIM_EV(name << " failed: " << e.what());
                    SIM_CHECK("C14", "event-failed", ding || entered_down(from), name << " failed: " << e.what());
                    ok = false;
                }
                --in_call[name];
                return ok;
            }
            wsrep::view view(enum wsrep::view::status st, size_t members)
            {
                std::vector<wsrep::view::member> m(mem.begin(), mem.begin() + long(members));
                return wsrep::view(wsrep::gtid(group_id(), wsrep::seqno(pos)), wsrep::seqno(st == wsrep::view::primary ? ++vseq : vseq), st, 0, members ? 0 : -1, 1, m);
            }
            bool ding() const { return c.hist.back() == SS::s_disconnecting; }
            bool stays(enum SS::state x) { return ss.state() == x || ding(); }
            void nap(const char* t) { if (sim::chance(0.6, t)) sim::sleep_us(sim::range(1, 3000, "us")); else sim::yield_point(t); }
            bool deliver(Hps& h, enum wsrep::view::status st, size_t members)
            {
                const wsrep::view v = view(st, members);
                return call("on_view", [&] { ss.on_view(v, &h); });
            }
            void sync()
            {
                call("on_sync", [&] { ss.on_sync(); });
                SIM_CHECK("C14", "synced", stays(SS::s_synced), "server is not synced after sync: " << wsrep::to_string(ss.state()));
            }
            // state transfer, returns false if it failed
            bool transfer()
            {
                sim::probe("life-sst");
                call("prepare_for_sst", [&] { ss.prepare_for_sst(); });
                SIM_CHECK("C14", "joiner", stays(SS::s_joiner), "server is not joiner after asking for state transfer");
                while (transferring) c.wq.wait();
                c.recv_calls = 0; c.recv_err = 0;
                const int err = sim::fault(0.15, "sst-failed") ? 5 : 0;
                c.recovered = wsrep::gtid(group_id(), wsrep::seqno(pos));
                c.stored_view = view(wsrep::view::primary, 2);
                ++running;
                sim::spawn("sst", 1, [this, err]
                {
                    ClientSvc* csvc = new ClientSvc(c.node);
                    Cs* cs = new Cs(c.node, ss, *csvc, W->next_client++, CS::m_high_priority);
                    csvc->cs = cs;
                    cs->open(cs->id());
                    cs->before_command();
                    nap("transfer");
                    if (ding()) sim::probe("sst-while-disconnecting");
                    call("sst_received", [&] { ss.sst_received(*csvc, err); });
                    SIM_CHECK("C15", "sst-reported-once", c.recv_calls == 1, "result of one transfer was reported " << c.recv_calls << " times");
                    SIM_CHECK("C15", "sst-failure-lost", !err || c.recv_err != 0, "transfer failed but success was reported");
                    SIM_CHECK("C15", "sst-init", c.recv_err || ss.is_initialized(), "transfer was reported but the server is not initialized");
                    --running; transferring = false; c.wq.wake_all();
                });
                transferring = true;
                while (!c.recv_calls) c.wq.wait();
                race::sync(&c);
                return c.recv_err == 0;
            }
            void donate()
            {
                c.sst_fail_start = sim::fault(0.2, "sst-start-fails") ? 1 : 0;
                int r = 0;
                const wsrep::gtid g(group_id(), wsrep::seqno(pos));
                call("start_sst", [&] { r = ss.start_sst("r", g, false); });
                if (!r)
                {
                    SIM_CHECK("C14", "donor", stays(SS::s_donor), "server is not donor");
                    bool done = false;
                    ++running;
                    sim::spawn("donor", 1, [&, this] { nap("send"); call("sst_sent", [&] { ss.sst_sent(g, 0); }); --running; done = true; c.wq.wake_all(); });
                    while (!done) c.wq.wait();
                }
                SIM_CHECK("C14,C15", "donor-stuck", stays(SS::s_joined), "donor is in state " << wsrep::to_string(ss.state()));
            }
            // one connection, as seen by the receiving thread
            void connection(Hps& h)
            {
                nap("connecting");
                const wsrep::view cv = view(wsrep::view::primary, 2);
                call("on_connect", [&] { ss.on_connect(cv); });
                SIM_CHECK("C14", "connected", stays(SS::s_connected), "server is not connected after on_connect");
                if (!sim::chance(0.5, "state-transfer") || transfer())
                {
                    if (!deliver(h, wsrep::view::primary, 2)) { down = true; return; }
                    SIM_CHECK("C14", "joined", ss.state() == SS::s_joined || stays(SS::s_joined), "server is not joined after primary view: " << wsrep::to_string(ss.state()));
                    SIM_CHECK("C14", "init", ding() || ss.is_initialized(), "server joined but is not initialized");
                    bool synced = false;
                    int after = int(sim::choose(3, "queued"));      // events already in the queue when disconnecting
                    const int n = int(sim::choose(8, "events"));
                    for (int k = 0; k < n; ++k)
                    {
                        if (c.disc_req && after-- <= 0) break;
                        ++pos;
                        if (!synced) { sync(); synced = true; continue; }
                        switch (sim::choose(4, "event"))
                        {
                        case 0: nap("calm"); break;
                        case 1:
                            deliver(h, wsrep::view::non_primary, 1);
                            SIM_CHECK("C14", "nonprim", stays(SS::s_connected), "server is " << wsrep::to_string(ss.state()) << " in non-primary");
                            nap("alone");
                            deliver(h, wsrep::view::primary, 2);
                            SIM_CHECK("C14", "joined", stays(SS::s_joined), "server is not joined after primary view: " << wsrep::to_string(ss.state()));
                            synced = false;
                            sim::probe("nonprim-view");
                            break;
                        case 2:
                        {
                            const enum SS::state was = ss.state();
                            deliver(h, wsrep::view::primary, 2);
                            SIM_CHECK("C14", "member-view", stays(was), "view changed state " << wsrep::to_string(was) << " to " << wsrep::to_string(ss.state()));
                            break;
                        }
                        default:
                            donate();
                            synced = false;
                            break;
                        }
                    }
                    if (!synced) sync();
                    --running; c.wq.wake_all();
                    while (!c.disc_req) c.wq.wait();
                    ++running;
                }
                nap("leaving");
                if (sim::chance(0.5, "final")) deliver(h, wsrep::view::disconnected, 0); else deliver(h, wsrep::view::non_primary, 0);
                SIM_CHECK("C14", "disconnected", ss.state() == SS::s_disconnected && ss.id().is_undefined(), "server is " << wsrep::to_string(ss.state()) << " after final view");
            }
        };
        void life_world()
        {
            Ctl* c = make(new Ctl());
            Node& n = c->node;
            c->sst_first = sim::chance(0.7, "sst_first");
            Life* L = new Life(*c);
            const wsrep::id own(std::string("own-000000000001")), other(std::string("oth-000000000001"));
            L->mem.push_back(wsrep::view::member(own, "own", ""));
            L->mem.push_back(wsrep::view::member(other, "oth", ""));
            c->sst_id = own;
            sim::set_cond_hook([L](sim::fiber* f)
            {
                auto i = L->waiting.find(f);
                if (i == L->waiting.end() || i->second->blocked) return;
                i->second->blocked = true;
                i->second->reg = L->c.hist.size();
            });
            const int gens = int(1 + sim::choose(3, "generations"));
            SS& ss = *n.ss;
            int finished = 0;              // connections which ended
            ++L->running;
            sim::spawn("recv", 1, [&, L]
            {
                Hps* h = new Hps(n, false);
                for (int g = 0; g < gens && !L->down; ++g)
                {
                    while (!c->conn_req) c->wq.wait();
                    race::sync(c);
                    c->conn_req = false;
                    L->connection(*h);
                    race::sync(c);
                    ++finished; c->wq.wake_all();
                }
                --L->running; c->wq.wake_all();
            });
            auto connect = [&]
            {
                race::sync(c);
                const uint32_t how = sim::choose(4, "bootstrap-how");
                c->node.want_bootstrap = how != 3;
                c->node.booted = 0;
                ss.connect("c", how == 0 || how == 1 ? "gcomm://" : "gcomm://x", "", how == 0 || how == 2);
            };
            // the server has one thread which initializes it, however many connections that takes
            auto initialize = [&, L]
            {
                while (!ss.is_initialized())
                {
                    if (L->wait_for(SS::s_initializing)) { sim::sleep_us(500); continue; }
                    ++L->running;
                    L->nap("init");
                    c->node.init_called = true;
                    L->call("initialized", [&] { ss.initialized(); });
                    --L->running; c->wq.wake_all();
                }
            };
            ++L->running;
            sim::fiber* main_fiber = sim::spawn("main", 1, [&, L]
            {
                if (!c->sst_first) { c->node.init_called = true; L->call("initialized", [&] { ss.initialized(); }); }
                connect();
                --L->running; c->wq.wake_all();
                if (c->sst_first) initialize();
            });
            bool stop = false;
            const bool stay = sim::chance(0.5, "stay-connected");
            ++L->running;
            sim::spawn("admin", 1, [&, L]
            {
                for (int g = 0; g < gens; ++g)
                {
                    if (stay && g + 1 == gens) break;
                    sim::sleep_us(sim::range(1, 20000, "stay"));
                    // a server which has not started to connect has nothing to disconnect
                    while (finished == g && !L->down)
                    {
                        if (c->connects > g) L->call("disconnect", [&] { ss.disconnect(); });
                        if (finished == g && !L->down) c->wq.wait_for(3000);
                    }
                    if (L->down || g + 1 == gens) break;
                    // initialization which was started comes to its end first
                    while (c->sst_first && !ss.is_initialized() && !L->settled(main_fiber)) sim::sleep_us(100);
                    connect();
                    sim::probe("reconnect");
                }
                stop = true;
                --L->running; c->wq.wake_all();
            });
            if (sim::chance(0.5, "admins"))
                sim::spawn("operator", 1, [&, L]
                {
                    while (!stop) { sim::sleep_us(sim::range(1, 15000, "op-us")); if (!stop && c->connects > finished) L->call("disconnect", [&] { ss.disconnect(); }); }
                });
            const int waiters = int(1 + sim::choose(4, "waiters"));
            for (int i = 0; i < waiters; ++i)
                sim::spawn("waiter" + std::to_string(i), 1, [&, L]
                {
                    const int k = int(1 + sim::choose(4, "waits"));
                    for (int j = 0; j < k; ++j)
                    {
                        if (sim::chance(0.5, "nap")) sim::sleep_us(sim::range(1, 8000, "nap-us"));
                        L->wait_for(static_cast<enum SS::state>(sim::choose(9, "wait-state")));
                    }
                });
            // until nothing moves any more
            const sim::usec_t end = sim::now() + 2000000;
            while (L->running > 0 && sim::now() < end) c->wq.wait_for(100000);
            sim::sleep_us(100000);
            sim::probe("control");
            for (auto& i : L->in_call)
                SIM_CHECK("C14", "event-blocked", i.second == 0, i.first << " does not return, state " << wsrep::to_string(c->hist.back()));
            SIM_CHECK("C14", "blocked", L->running == 0, "server does not proceed from state " << wsrep::to_string(c->hist.back()));
            for (auto& i : L->waiting)
            {
                const Waiter& w = *i.second;
                SIM_CHECK("C14", "waiter-lost", !(w.blocked && L->entered(w.reg, w.x)), "waiter for " << wsrep::to_string(w.x) << " still waits though the state was entered");
                SIM_CHECK("C14", "waiter-not-interrupted", !(w.blocked && w.x != SS::s_disconnecting && w.x != SS::s_disconnected && L->entered_down(w.reg) &&
                            (c->hist.back() == SS::s_disconnecting || c->hist.back() == SS::s_disconnected)),   // not connected again meanwhile
                          "waiter for " << wsrep::to_string(w.x) << " was not interrupted by disconnecting");
            }
            int dings = 0;
            for (auto h : c->hist) if (h == SS::s_disconnecting) ++dings;
            SIM_CHECK("C14", "disconnects", c->disconnects == dings, "provider was disconnected " << c->disconnects << " times, the server " << dings << " times");
            sim::state_hash(uint64_t(c->hist.size()) * 16 + uint64_t(c->hist.back()));
        }
    }

    void control_scenario(const std::string& profile)
    {
        W = new World();
        sim::set_preempt(pick({0.05, 0.2, 0.5}, "preempt"), pick({0, 0.001, 0.01, 0.05}, "preempt-bb"));
        sim::allow_spurious(pick({0, 0, 0.05}, "spurious"));
        if (profile == "C13") pause_world();
        else if (profile == "C14") life_world();
        else if (sim::choose(4, "kind") == 3) life_world();
        else sst_world();
    }
}
