// Model of the database server around wsrep-lib: storage engine with locks,
// service implementations, node life cycle.
#include "world.hpp"
#include "report.hpp"
#include <algorithm>
#include <cstring>

namespace w
{
    typedef wsrep::transaction T;

    static std::string row_res(int t, int r) { return "r" + std::to_string(t) + "/" + std::to_string(r); }
    static std::string gap_res(int t, int g) { return "g" + std::to_string(t) + "/" + std::to_string(g); }

    // ---- locks -----------------------------------------------------------
    static bool victim_state(const Cs* c)
    {
        return c->mode() == wsrep::client_state::m_local && c->transaction().active() &&
            c->transaction().state() == T::s_must_abort;
    }

    bool LockMgr::try_abort(SeTrx& victim, seq_t bf, bool total_order, std::function<bool()> still)
    {
        Cs* v = victim.cs;
        bool ret = false;
        Cs::pin pin(v);
        {
            wsrep::unique_lock<wsrep::mutex> lk(v->mutex());
            if (!still()) return false;
            const T& t = v->transaction();
            if (!t.active()) return false;
            const enum T::state st = t.state();
            const uint64_t id = t.id().get();
            const bool local = v->mode() == wsrep::client_state::m_local;
            if (!local && !t.is_streaming()) return false;
            PTrx* p = local ? node.prov->find(id) : 0;
            const bool ma_before = p && p->must_abort;
            const bool turn = p && p->entered && (p->flags & F::commit);
            Node::Bf& b = node.bf[sim::current()] = Node::Bf();
            const bool idle = v->state() == wsrep::client_state::s_idle;
            ret = total_order ? v->total_order_bf_abort(lk, wsrep::seqno(bf)) : v->bf_abort(lk, wsrep::seqno(bf));
            SIM_EV("n" << node.idx << " bf " << bf << (total_order ? " to" : "") << " trx " << id << " st "
                   << wsrep::to_string(st) << " -> " << ret);
            const bool abortable = st == T::s_executing || st == T::s_preparing || st == T::s_prepared ||
                st == T::s_certifying || st == T::s_committing;
            if (ret)
            {
                SIM_CHECK("C03,C01", "abort-in-commit-turn", !turn,
                          "transaction " << id << " aborted by " << bf << " while it holds its commit turn");
                SIM_CHECK("C03", "abort-wrong-state", abortable && b.status == P::success,
                          "abort of transaction " << id << " in state " << wsrep::to_string(st)
                          << " reported as accepted");
                if (st == T::s_certifying) sim::probe("bf-certifying");
                if (st == T::s_committing) sim::probe("bf-committing");
                if (st == T::s_preparing) sim::probe("bf-preparing");
                if (st == T::s_prepared) sim::probe("bf-prepared");
                if (idle) sim::probe("bf-idle");
                if (!local) sim::probe("bf-streaming-applier");
                if (!local && !total_order) node.sa_aborted.insert(SrKey(t.server_id(), id));
                if (total_order) sim::probe("bf-total-order");
                W->trxs[id].bf_won = true;
                if (v->session) v->session->bf_hit = id;
            }
            else
            {
                SIM_CHECK("C03", "refused-abort-changed-state", t.state() == st,
                          "abort of transaction " << id << " was refused but its state changed from "
                          << wsrep::to_string(st) << " to " << wsrep::to_string(t.state()));
                SIM_CHECK("C03", "refused-abort-reached-provider", !p || p->must_abort == ma_before,
                          "abort of transaction " << id << " was refused but the provider aborts it");
                SIM_CHECK("C03", "abort-refused", !(abortable && local && !turn && b.calls && b.status == P::success),
                          "abort of transaction " << id << " refused after provider accepted it");
                if (turn) sim::probe("bf-refused-commit-turn");
            }
        }
        if (!ret) return false;
        wq.wake_all();
        node.replay_wq.wake_all();
        node.mon_wq.wake_all();
        for (Session* s : node.sessions) s->wq.wake_all();
        return true;
    }

    void LockMgr::bf_stall(sim::usec_t since, const std::string& what)
    {
        if (sim::now() - since > 5000000)
            sim::fatal_violation("applier-blocked", "node " + std::to_string(node.idx) + " applier cannot get " + what);
    }

    int LockMgr::lock(SeTrx& me, const std::string& res)
    {
        const sim::usec_t since = sim::now(), dl = since + 50000;
        while (true)
        {
            auto i = x.find(res);
            if (i == x.end()) { x[res] = &me; me.locks.insert(res); return 0; }
            if (i->second == &me) return 0;
            SeTrx* h = i->second;
            if (me.hp)
            {
                if (!h->hp || h->streaming)
                {
                    try_abort(*h, me.bf_seqno, false, [&]{ auto j = x.find(res); return j != x.end() && j->second == h; });
                    if (!x.count(res)) continue;
                }
                bf_stall(since, res);
                wq.wait_for(20000);
            }
            else
            {
                if (victim_state(me.cs)) return 1;
                if (me.cs->session && me.cs->session->interrupted) return 3;
                if (sim::now() >= dl) return 2;
                wq.wait_for(dl - sim::now());
            }
        }
    }

    int LockMgr::mdl_shared(SeTrx& me, int t)
    {
        const sim::usec_t since = sim::now(), dl = since + 50000;
        while (true)
        {
            if (me.mdl.count(t)) return 0;
            auto i = mdl_x.find(t);
            bool blocked = (i != mdl_x.end() && i->second != &me) || (!me.hp && mdl_x_pending[t]);
            if (!blocked) { mdl_s[t].insert(&me); me.mdl.insert(t); return 0; }
            if (me.hp) { bf_stall(since, "table lock"); wq.wait_for(20000); continue; }
            if (victim_state(me.cs)) return 1;
            if (me.cs->session && me.cs->session->interrupted) return 3;
            if (sim::now() >= dl) return 2;
            wq.wait_for(dl - sim::now());
        }
    }

    void LockMgr::mdl_excl(SeTrx& me, int t, seq_t toi)
    {
        ++mdl_x_pending[t];
        const sim::usec_t since = sim::now();
        while (true)
        {
            SeTrx* h = 0;
            for (SeTrx* s : mdl_s[t]) if (s != &me && (!h || s->ord < h->ord)) h = s;
            if (!h && mdl_x.count(t) && mdl_x[t] != &me) h = mdl_x[t];
            if (!h) break;
            // abort one holder at a time, then look again
            std::vector<SeTrx*> hs(mdl_s[t].begin(), mdl_s[t].end());
            std::sort(hs.begin(), hs.end(), [](SeTrx* a, SeTrx* b){ return a->ord < b->ord; });
            for (SeTrx* s : hs)
            {
                if (s == &me || !mdl_s[t].count(s) || !s->cs) continue;
                const T& tr = s->cs->transaction();
                bool to = true;
                if (tr.active() && tr.is_streaming())
                {
                    auto& live = W->at(toi - 1).after->live;
                    auto j = live.find(SrKey(tr.server_id(), tr.id().get()));
                    to = j != live.end() && j->second.tables.count(t);
                }
                else if (tr.active())
                {
                    // not changed: certification of the first fragment does not conflict with the isolated operation
                    to = false;
                    for (auto& w : s->writes) to = to || w.first.first == t;
                }
                try_abort(*s, toi, to, [&]{ return mdl_s[t].count(s) != 0; });
            }
            if (mdl_s[t].empty() && !mdl_x.count(t)) continue;
            bf_stall(since, "exclusive table lock");
            wq.wait_for(20000);
        }
        --mdl_x_pending[t];
        mdl_x[t] = &me;
    }
    void LockMgr::release_rows(SeTrx& me)
    {
        for (auto& r : me.locks) x.erase(r);
        me.locks.clear();
        wq.wake_all();
    }
    void LockMgr::keep_rows(SeTrx& me, const std::set<std::string>& keep)
    {
        for (auto& r : me.locks) if (!keep.count(r)) x.erase(r);
        me.locks = keep;
        wq.wake_all();
    }
    void LockMgr::release_mdl(SeTrx& me)
    {
        for (int t : me.mdl) mdl_s[t].erase(&me);
        for (auto i = mdl_x.begin(); i != mdl_x.end(); ) if (i->second == &me) mdl_x.erase(i++); else ++i;
        me.mdl.clear();
        wq.wake_all();
    }

    // ---- storage engine transaction ------------------------------------------
    void SeTrx::begin(Node* n, Cs* c, bool hp_, bool streaming_)
    {
        node = n; cs = c; hp = hp_; streaming = streaming_;
        active = true;
        ord = ++n->se_ord;
        writes.clear(); frag_remove.clear(); frag_add.clear(); frag_remove_all.clear();
    }
    int64_t SeTrx::read(int t, int r) const
    {
        auto i = writes.find(std::make_pair(t, r));
        if (i != writes.end()) return i->second;
        auto j = node->store.rows.find(std::make_pair(t, r));
        return j == node->store.rows.end() ? 0 : j->second;
    }
    int SeTrx::write(const Op& o, bool use_gap)
    {
        int ret = node->locks->mdl_shared(*this, o.t);
        if (ret) return ret;
        ret = node->locks->lock(*this, row_res(o.t, o.r));
        if (!ret && use_gap && o.gap >= 0) ret = node->locks->lock(*this, gap_res(o.t, o.gap));
        if (ret) return ret;
        writes[std::make_pair(o.t, o.r)] = o.val;
        return 0;
    }
    void SeTrx::commit(seq_t seqno, uint64_t trx)
    {
        Node& n = *node;
        SIM_EV("n" << n.idx << " se-commit " << seqno << " trx " << trx << " w=" << writes.size());
        if (seqno)
        {
            SIM_CHECK("C02", "commit-outside-turn", n.entered == seqno,
                      "node " << n.idx << " commits position " << seqno << " while turn is at " << n.entered);
            SIM_CHECK("C02", "commit-out-of-order", n.store.position < seqno,
                      "node " << n.idx << " commits position " << seqno << " after " << n.store.position);
        }
        for (auto& i : writes) n.store.rows[i.first] = i.second;
        for (auto& i : frag_add)
        {
            auto& m = n.store.frags[i.first];
            SIM_CHECK("C06", "fragment-stored-twice", !m.count(i.second.first),
                      "node " << n.idx << " stores fragment " << i.second.first << " twice");
            m[i.second.first] = i.second.second;
        }
        for (auto& i : frag_remove)
        {
            auto f = n.store.frags.find(i.first);
            if (f == n.store.frags.end()) continue;
            f->second.erase(i.second);
            if (f->second.empty()) n.store.frags.erase(f);
        }
        for (auto& k : frag_remove_all) n.store.frags.erase(k);
        if (!seqno && n.entered && W->at(n.entered).kind == TOI)
        {
            // isolated operation aborts a streaming transaction: the removal
            // is durable before the operation itself
            for (auto& i : frag_remove) n.early_removed[i.first] = n.entered;
            for (auto& k : frag_remove_all) n.early_removed[k] = n.entered;
        }
        if (seqno) n.store.position = seqno;
        if (trx) n.store.committed[trx] = seqno;
        if (seqno) n.commit_check(seqno, "commit");
        active = false;
        writes.clear(); frag_add.clear(); frag_remove.clear(); frag_remove_all.clear();
        n.locks->release_rows(*this);
        sim::yield_point("se-committed");
    }
    void SeTrx::rollback()
    {
        active = false;
        writes.clear(); frag_add.clear(); frag_remove.clear(); frag_remove_all.clear();
        sim::yield_point("se-undo");
        node->locks->release_rows(*this);
    }
    // The engine transaction changes its owner, gap locks are given up.
    void SeTrx::take(SeTrx& o)
    {
        for (auto& r : o.locks)
        {
            if (r[0] == 'r') { node->locks->x[r] = this; locks.insert(r); }
            else node->locks->x.erase(r);
        }
        for (int tb : o.mdl) { node->locks->mdl_s[tb].erase(&o); node->locks->mdl_s[tb].insert(this); mdl.insert(tb); }
        for (auto& i : o.writes) writes[i.first] = i.second;
        o.locks.clear(); o.mdl.clear(); o.writes.clear();
        o.active = false;
        node->locks->wq.wake_all();
    }
    void SeTrx::end()
    {
        node->locks->release_rows(*this);
        node->locks->release_mdl(*this);
    }

    // ---- client service ----------------------------------------------------------
    bool ClientSvc::interrupted(wsrep::unique_lock<wsrep::mutex>& l) const
    {
        SIM_CHECK("*", "service-lock", l.owns_lock(), "interrupted() called without lock");
        return s && s->interrupted;
    }
    void ClientSvc::store_globals() { set_ctx(cs); }
    void ctx_check(const Cs* cs, const char* what)
    {
        SIM_CHECK("C17", "wrong-context", ctx() == cs, what << " of session " << cs->id().get() << " is executed in the context of "
                  << (ctx() ? "session " + std::to_string(ctx()->id().get()) : std::string("no session")));
    }
    int ClientSvc::prepare_data_for_replication()
    {
        ctx_check(cs, "prepare data");
        sim::yield_point("prepdata");
        if (!s) return 0;
        // (commit of prepared transaction carries no data)
        const bool decision = s->prepared_xa;
        if (!decision && sim::fault(W->cfg.f_prepare, "prepare-data-fails"))
        {
            s->injected_err = wsrep::e_size_exceeded_error;
            return 1;
        }
        s->held.clear();
        const size_t pos = cs->transaction().streaming_context().log_position();
        SIM_CHECK("C05", "log-position", pos <= s->binlog.size(), "log position beyond generated data");
        std::string d = s->binlog.substr(std::min(pos, s->binlog.size()));
        if (d.empty()) return 0;
        s->in_prepare_data = true;
        const int ret = cs->append_data(wsrep::const_buffer(d.data(), d.size()));
        s->in_prepare_data = false;
        return ret;
        return 0;
    }
    void ClientSvc::cleanup_transaction()
    {
        if (!s) return;
        SIM_EV("n" << node.idx << " c" << cs->id().get() << " cleanup trx " << s->trx_id);
        s->binlog.clear();
        s->held.clear();
        s->last_trx = s->trx_id;
        s->trx_id = 0;
        s->cleaned = true;
    }
    bool ClientSvc::statement_allowed_for_streaming() const { return !(s && s->no_stream_stmt); }
    size_t ClientSvc::bytes_generated() const
    {
        if (!s) return 0;
        return s->binlog.size() + s->held.size();
    }
    int ClientSvc::prepare_fragment_for_replication(wsrep::mutable_buffer& buf, size_t& pos)
    {
        ctx_check(cs, "prepare fragment");
        sim::yield_point("prepfrag");
        if (sim::fault(W->cfg.f_prepare, "prepare-fragment-fails"))
        {
            if (s) s->injected_err = wsrep::e_error_during_commit;
            return 1;
        }
        const size_t p = cs->transaction().streaming_context().log_position();
        std::string d = s->binlog.substr(std::min(p, s->binlog.size()));
        buf.push_back(d.data(), d.data() + d.size());
        pos = s->binlog.size();
        return 0;
    }
    int ClientSvc::remove_fragments()
    {
        ctx_check(cs, "fragment removal");
        sim::yield_point("rmfrag");
        const T& t = cs->transaction();
        SrKey key(t.server_id(), t.id().get());
        SeTrx& se = cs->se;
        for (auto& q : t.streaming_context().fragments())
        {
            if (se.active) se.frag_remove.push_back(std::make_pair(key, q.get()));
            else
            {
                auto f = node.store.frags.find(key);
                if (f == node.store.frags.end()) continue;
                f->second.erase(q.get());
                if (f->second.empty()) node.store.frags.erase(f);
            }
        }
        sim::yield_point("rmfrag2");
        if (se.active && cs->mode() == wsrep::client_state::m_local && sim::fault(W->cfg.f_storage, "fragment-removal-fails"))
        {
            if (s) s->injected_err = wsrep::e_deadlock_error;
            if (sim::chance(0.5, "rm-rolls-back") && t.state() == T::s_must_abort)
            {
                // storage engine noticed the abort and rolled back
                cs->before_rollback();
                se.rollback();
                cs->after_rollback();
                se.end();
            }
            return 1;
        }
        return 0;
    }
    int ClientSvc::bf_rollback()
    {
        ctx_check(cs, "rollback");
        sim::yield_point("bf_rollback");
        if (!cs->se.active) return 0;
        int ret = cs->before_rollback();
        cs->se.rollback();
        ret = cs->after_rollback() || ret;
        cs->se.end();
        return ret;
    }
    void ClientSvc::emergency_shutdown()
    {
        sim::probe("emergency-shutdown");
        SIM_CHECK("C04,C16", "emergency-shutdown", false,
                  "node " << node.idx << " shut itself down although nothing failed that requires it");
        crash_node(node, "emergency shutdown");
        sim::yield_point("dead");
    }
    void ClientSvc::will_replay()
    {
        ++node.replaying;
        if (s)
        {
            ++s->will_replays;
            s->replay_trx = s->trx_id;
            W->trxs[s->trx_id].replay_wanted = true;
            SIM_CHECK("C04", "will-replay-twice", s->will_replays == 1, "replay announced twice for one transaction");
        }
        sim::probe("must-replay");
    }
    void ClientSvc::signal_replayed()
    {
        --node.replaying;
        if (s)
        {
            --s->will_replays;
            SIM_CHECK("C04", "replayed-unannounced", s->will_replays == 0, "replay signalled without announcement");
        }
        node.replay_wq.wake_all();
    }
    void ClientSvc::wait_for_replayers(wsrep::unique_lock<wsrep::mutex>& l)
    {
        SIM_CHECK("*", "service-lock", l.owns_lock(), "wait_for_replayers() called without lock");
        while (node.replaying > 0 && cs->transaction().state() != T::s_must_abort)
        {
            l.unlock();
            sim::probe("wait-for-replayers");
            if (node.replaying > 0 && cs->transaction().state() != T::s_must_abort) node.replay_wq.wait_for(100000);
            l.lock();
        }
    }
    enum wsrep::provider::status ClientSvc::replay()
    {
        ctx_check(cs, "replay");
        SIM_CHECK("C04", "replay-before-rollback", !cs->se.active, "transaction is replayed before it was rolled back");
        if (W->cfg.replay_same_cs)
        {
            wsrep::high_priority_context ctx(*cs);
            Hps r(node, false, cs, true);
            return node.prov->replay(cs->transaction().ws_handle(), &r);
        }
        Hps* r = new Hps(node, false, cs, false);
        set_ctx(r->cs);
        enum wsrep::provider::status ret = node.prov->replay(cs->transaction().ws_handle(), r);
        ctx_check(r->cs, "end of replay");
        r->cs->after_applying();
        r->shutdown();
        set_ctx(cs);
        r->cs->destroy("context of replayer");
        race::destroyed(r, sizeof(Hps), "replayer");
        return ret;
    }
    // The server may be disconnecting, which closes the applier at any time:
    // the locks are acquired separately and given to the applier at the end.
    enum wsrep::provider::status ClientSvc::replay_unordered()
    {
        ctx_check(cs, "unordered replay");
        const T& t = cs->transaction();
        SeTrx tmp;
        tmp.begin(&node, 0, true, false);
        auto f = node.store.frags.find(SrKey(t.server_id(), t.id().get()));
        if (f != node.store.frags.end())
        {
            std::vector<std::pair<seq_t, std::string>> fr;
            for (auto& i : f->second) fr.push_back(std::make_pair(i.first, i.second.data));
            for (auto& i : fr)
            {
                tmp.bf_seqno = i.first;
                for (const Op& o : dec(i.second)) { sim::yield_point("replay-op"); tmp.write(o, false); }
            }
        }
        Hps* sa = static_cast<Hps*>(node.ss->find_streaming_applier(t.server_id(), t.id()));
        SIM_CHECK("C10", "replay-without-applier", sa || node.st() == wsrep::server_state::s_disconnecting ||
                  node.st() == wsrep::server_state::s_disconnected || !node.connected, "no applier for prepared transaction " << t.id().get());
        if (sa && !sa->released && sa->cs->se.active)
        {
            sa->cs->se.bf_seqno = tmp.bf_seqno;
            sa->cs->se.take(tmp);
            SIM_EV("n" << node.idx << " prepared trx " << t.id().get() << " replayed, locks " << sa->cs->se.locks.size());
            sim::probe("replay-unordered");
        }
        tmp.end();
        return P::success;
    }
    enum wsrep::provider::status ClientSvc::commit_by_xid()
    {
        ctx_check(cs, "commit by xid");
        // decision is sent by another internal session
        ClientSvc* csvc = new ClientSvc(node);
        Cs* c = new Cs(node, *node.ss, *csvc, ++W->next_client, wsrep::client_state::m_local);
        csvc->cs = c;
        c->open(c->id());
        c->before_command();
        c->start_transaction(wsrep::transaction_id(++W->next_trx));
        int ret = c->commit_by_xid(cs->transaction().xid());
        enum P::status st = ret ? c->current_error_status() : P::success;
        if (ret) { c->before_rollback(); c->after_rollback(); }
        c->after_statement();
        c->after_command_before_result();
        c->after_command_after_result();
        c->close();
        c->cleanup();
        set_ctx(cs);
        if (ret && st == P::success) st = P::error_unknown;
        if (ret && s) { s->injected = st; s->injected_frag = false; }
        if (!ret) W->trxs[cs->transaction().id().get()].xa_remote = true;
        return st;
    }
    bool ClientSvc::is_explicit_xa() { return s && s->explicit_xa; }
    bool ClientSvc::is_prepared_xa() { return s && s->prepared_xa; }
    bool ClientSvc::is_xa_rollback() { return s && s->xa_rollback; }
    void ClientSvc::notify_state_change()
    {
        if (!cs || !s) return;
        uint64_t h = uint64_t(cs->state()) * 31 + uint64_t(cs->mode());
        h = h * 31 + uint64_t(cs->transaction().state());
        h = h * 31 + uint64_t(cs->transaction().is_streaming());
        h = h * 31 + uint64_t(cs->rb_active);
        h = h * 31 + uint64_t(node.st());
        h = h * 131 + std::min<uint64_t>(3, node.queue.size());
        h = h * 31 + uint64_t(std::min(2, node.in_flight)) + uint64_t(node.replaying) * 7;
        h = h * 31 + node.locks->x.size() % 5;
        sim::state_hash(h);
        SIM_EV("n" << node.idx << " c" << cs->id().get() << " trx " << cs->transaction().id().get() << " " << wsrep::to_string(cs->transaction().state()));
    }

    // ---- high priority service ------------------------------------------------------
    Hps::Hps(Node& n, bool streaming_, Cs* replay_for, bool same)
        : wsrep::high_priority_service(*n.ss), node(n), svc(n), cs(0), streaming(streaming_)
        , replaying(replay_for != 0), same_cs(same), adopted_error(false), released(false), orig(replay_for)
    {
        if (same) { cs = replay_for; return; }
        cs = new Cs(n, *n.ss, svc, ++W->next_client, wsrep::client_state::m_high_priority);
        svc.cs = cs;
        cs->hps = this;
        if (streaming) { ++node.sr_appliers; SIM_EV("n" << node.idx << " c" << cs->id().get() << " streaming applier"); }
        cs->open(cs->id());
        cs->before_command();
        if (replay_for) cs->clone_transaction_for_replay(replay_for->transaction());
    }
    void Hps::shutdown()
    {
        SIM_CHECK("C06,C08,C09,C17", "applier-released-twice", !released, "applier context released twice");
        released = true;
        if (streaming) { --node.sr_appliers; SIM_EV("n" << node.idx << " c" << cs->id().get() << " streaming applier released"); }
        set_ctx(cs);
        cs->store_globals();
        cs->after_command_before_result();
        cs->after_command_after_result();
        cs->close();
        cs->cleanup();
        cs->se.end();
    }
    // An operation of the applier fails: the node is not able to continue
    // and applying of the write set must report it.
    bool Hps::op_fails(const char* what)
    {
        auto a = node.applying.find(sim::fiber_id(sim::current()));
        if (a == node.applying.end() || a->second || replaying || !node.may_fail(what)) return false;
        SIM_EV("n" << node.idx << " " << what);
        a->second = true;
        return true;
    }
    int Hps::start_transaction(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        if (op_fails("applier-start-fails")) return 1;
        return start(h, m);
    }
    int Hps::start(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        adopted_error = false;
        key = std::make_pair(m.server_id(), m.transaction_id());
        cs->se.begin(&node, cs, true, streaming);
        cs->se.bf_seqno = m.seqno().get();
        int ret = cs->start_transaction(h, m);
        if (ret) SIM_EV("n" << node.idx << " start of " << m.seqno().get() << " failed");
        return ret;
    }
    int Hps::next_fragment(const wsrep::ws_meta& m)
    {
        return cs->next_fragment(m);
    }
    int Hps::adopt_transaction(const wsrep::transaction& t)
    {
        adopted_error = false;
        key = std::make_pair(t.server_id(), t.id());
        cs->adopt_transaction(t);
        if (!streaming && sim::fault(W->cfg.f_storage, "adopt-fails"))
        {
            // The transaction for removal of the fragments does not start:
            // they stay and are removed by the administrator.
            node.adopt_failed.insert(SrKey(t.server_id(), t.id().get()));
            cs->before_rollback();
            cs->after_rollback();
            return 1;
        }
        cs->se.begin(&node, cs, true, streaming);
        if (t.is_xa() && (t.state() == T::s_prepared || t.state() == T::s_replaying))
        {
            cs->restore_xid(t.xid());
            if (streaming) for (Session* s : node.sessions)
                if (s->cur == t.id().get() && s->cs->se.active)
                {
                    cs->se.take(s->cs->se);
                }
        }
        return 0;
    }
    int Hps::apply_ops(seq_t seqno, const std::vector<Op>& ops, bool use_gap, int fail_at)
    {
        cs->se.bf_seqno = seqno;
        int n = 0;
        for (const Op& o : ops)
        {
            if (n++ == fail_at) return 1;
            sim::yield_point("apply-op");
            int r = cs->se.write(o, use_gap);
            if (r)
            {
                sim::violation("C03", "applier-lock", "applier lock request failed");
                return 1;
            }
        }
        if (fail_at >= n) return 1;
        return 0;
    }
    int Hps::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& data, wsrep::mutable_buffer& err)
    {
        ctx_check(cs, "apply");
        const seq_t s = m.seqno().get();
        const Entry& e = W->at(s);
        const T& t = cs->transaction();
        SIM_CHECK("C02,C06,C09", "apply-identity",
                  t.server_id() == e.origin && t.id().get() == e.trx,
                  "position " << s << " of trx " << e.trx << " applied in context of trx " << t.id().get());
        std::string d(data.data(), data.size());
        SIM_CHECK("C01,C02", "apply-data", d == e.data, "position " << s << " applied with other data than replicated");
        int fail_at = -1;
        std::vector<Op> ops = dec(d);
        if (!replaying && (e.vote == 1 || e.err_node == node.idx))
            fail_at = int(sim::choose(uint32_t(ops.size()) + 1, "fail-at"));
        if (replaying && !(m.flags() & F::start_transaction))
        {
            SrKey key(e.origin, e.trx);
            auto f = node.store.frags.find(key);
            if (f != node.store.frags.end())
            {
                std::vector<std::pair<seq_t, std::string>> fr;
                for (auto& i : f->second) fr.push_back(std::make_pair(i.first, i.second.data));
                for (auto& i : fr)
                {
                    apply_ops(s, dec(i.second), true, -1);
                    cs->se.frag_remove.push_back(std::make_pair(key, i.first));
                }
            }
            sim::probe("replay-sr");
        }
        int ret = apply_ops(s, ops, !streaming, fail_at);
        if (ret)
        {
            if (e.vote != 1) node.failing = true;
            SIM_EV("n" << node.idx << " apply of " << s << " fails at " << fail_at << " replaying=" << replaying);
            if (!e.err_empty) { std::string msg = "apply error " + std::to_string(s); err.push_back(msg); }
            return 1;
        }
        if (!(m.flags() & F::commit)) cs->fragment_applied(m.seqno());
        if (m.flags() & F::prepare)
        {
            cs->assign_xid(mkxid(e.xid));
            ret = cs->before_prepare() || cs->after_prepare();
        }
        return ret;
    }
    int Hps::append_fragment_and_commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                                        const wsrep::const_buffer& data, const wsrep::xid& xid)
    {
        ctx_check(cs, "append fragment");
        if (op_fails("applier-append-fails")) return 1;
        int ret = start(h, m);
        Frag f;
        f.data.assign(data.data(), data.size());
        f.flags = m.flags();
        f.xid = xid.is_null() ? "" : wsrep::to_string(xid);
        cs->se.frag_add.push_back(std::make_pair(SrKey(m.server_id(), m.transaction_id().get()),
                                                 std::make_pair(m.seqno().get(), f)));
        cs->prepare_for_ordering(h, m, true);
        ret = ret || cs->before_commit();
        if (!ret) cs->se.commit(m.seqno().get(), 0);
        ret = ret || cs->ordered_commit() || cs->after_commit();
        cs->se.end();
        return ret;
    }
    int Hps::remove_fragments(const wsrep::ws_meta& m)
    {
        ctx_check(cs, "fragment removal");
        sim::yield_point("rmfrag");
        if (op_fails("applier-remove-fails")) return 1;
        SrKey key(m.server_id(), m.transaction_id().get());
        if (adopted_error) { cs->se.frag_remove_all.push_back(key); return 0; }
        for (auto& q : cs->transaction().streaming_context().fragments())
            cs->se.frag_remove.push_back(std::make_pair(key, q.get()));
        return 0;
    }
    int Hps::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        ctx_check(cs, "commit");
        sim::yield_point("hp-commit");
        if (op_fails("applier-commit-fails")) return 1;
        cs->prepare_for_ordering(h, m, true);
        int ret = 0;
        if (m.seqno().is_undefined())
        {
            cs->se.commit(0, 0);
            ret = cs->before_rollback() || cs->after_rollback();
            cs->se.end();
            return ret;
        }
        if (W->cfg.two_pc && !replaying && cs->transaction().state() == T::s_executing)
            ret = cs->before_prepare() || cs->after_prepare();
        ret = ret || cs->before_commit();
        if (ret)
        {
            SIM_EV("n" << node.idx << " commit of " << m.seqno().get() << " failed in state "
                   << wsrep::to_string(cs->transaction().state()));
            return ret;
        }
        const bool real = (m.flags() & F::commit) && !(m.flags() & F::rollback) && !adopted_error;
        cs->se.commit(m.seqno().get(), real ? m.transaction_id().get() : 0);
        ret = cs->ordered_commit();
        ret = ret || cs->after_commit();
        cs->se.end();
        return ret;
    }
    int Hps::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        ctx_check(cs, "rollback");
        sim::yield_point("hp-rollback");
        cs->prepare_for_ordering(h, m, false);
        int ret = cs->before_rollback();
        cs->se.rollback();
        ret = cs->after_rollback() || ret;
        cs->se.end();
        return op_fails("applier-rollback-fails") ? 1 : ret;
    }
    // Another node may fail: enough of them remain.
    bool Node::may_fail(const char* what)
    {
        if (W->cfg.f_apply == 0) return false;
        int n = 0;
        for (auto& i : W->nodes) if (i->up && i->in_prim && i->synced()) ++n;
        if (W->err_node >= 0 && W->nodes[size_t(W->err_node)]->inc != W->err_inc) W->err_node = -1;
        if (n <= 2 || W->err_node >= 0 || !up || !in_prim || !synced()) return false;
        if (!sim::fault(W->cfg.f_apply / 3, what)) return false;
        W->err_node = idx;
        W->err_inc = inc;
        return true;
    }
    static void apply_ddl(Node& n, const Ddl& d, seq_t s)
    {
        n.store.tver[d.t] = d.val;
        if (d.trunc)
        {
            for (auto i = n.store.rows.begin(); i != n.store.rows.end(); )
            {
                if (i->first.first == d.t) i = n.store.rows.erase(i);
                else ++i;
            }
        }
        n.store.position = s;
        n.commit_check(s, "toi");
    }
    int Node::exec_toi(Cs* c, const Ddl& d, seq_t s, bool fail)
    {
        SIM_CHECK("C11", "toi-outside-turn", entered == s,
                  "node " << idx << " executes isolated operation " << s << " while turn is at " << entered);
        SeTrx se;
        se.begin(this, c, true, false);
        se.bf_seqno = s;
        locks->mdl_excl(se, d.t, s);
        sim::yield_point("ddl");
        if (!fail) apply_ddl(*this, d, s);
        else store.position = s;
        se.active = false;
        se.end();
        ++W->toi_execs[std::make_pair(s, idx)];
        sim::probe("toi-executed");
        return fail;
    }
    int Hps::apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer& data, wsrep::mutable_buffer& err)
    {
        ctx_check(cs, "toi");
        const seq_t s = m.seqno().get();
        const Entry e = W->at(s);
        cs->enter_toi_mode(m);
        SIM_CHECK("C11", "toi-mode", cs->mode() == wsrep::client_state::m_toi && cs->toi_meta().seqno() == m.seqno(),
                  "applier is not in isolation mode");
        const bool fail = e.vote == 1 || e.err_node == node.idx;
        node.exec_toi(cs, dec_ddl(std::string(data.data(), data.size())), s, fail);
        cs->leave_toi_mode();
        if (fail && !e.err_empty) err.push_back("toi error " + std::to_string(s));
        return fail ? 1 : 0;
    }
    void Hps::after_apply()
    {
        if (replaying) return;
        cs->after_applying();
        SIM_CHECK("C06,C17", "applier-context-open", streaming || !cs->transaction().active(),
                  "applier context still has an open transaction after applying");
    }
    void Hps::adopt_apply_error(wsrep::mutable_buffer& err)
    {
        adopted_error = true;
        cs->adopt_apply_error(err);
    }
    int Hps::log_dummy_write_set(const wsrep::ws_handle& h, const wsrep::ws_meta& m, wsrep::mutable_buffer& err)
    {
        ctx_check(cs, "dummy");
        if (op_fails("applier-log-fails")) return 1;
        const bool has_err = err.size() > 0;
        if (!cs->transaction().active()) start(h, m);
        cs->adopt_apply_error(err);
        cs->prepare_for_ordering(h, m, true);
        int ret = node.prov->commit_order_enter(h, m);
        if (!ret)
        {
            cs->before_rollback();
            cs->se.rollback();
            cs->after_rollback();
            cs->se.end();
            node.store.position = m.seqno().get();
            node.commit_check(m.seqno().get(), "dummy");
            ret = node.prov->commit_order_leave(h, m, cs->transaction().apply_error());
        }
        cs->after_applying();
        (void)has_err;
        return ret;
    }

    // ---- storage service --------------------------------------------------------------
    StorageSvc::StorageSvc(Node& n) : node(n), svc(n), cs(0)
    {
        cs = new Cs(n, *n.ss, svc, ++W->next_client, wsrep::client_state::m_high_priority);
        svc.cs = cs;
        cs->open(cs->id());
        cs->before_command();
        ++node.storage_open;
    }
    void StorageSvc::shutdown()
    {
        SIM_CHECK("C06", "storage-left-open", !cs->transaction().active(), "fragment storage transaction left open");
        if (requires_globals()) set_ctx(cs);
        cs->after_command_before_result();
        cs->after_command_after_result();
        cs->close();
        cs->cleanup();
        cs->se.end();
        --node.storage_open;
    }
    void StorageSvc::store_globals() { set_ctx(cs); cs->store_globals(); }
    bool StorageSvc::requires_globals() const { return W->cfg.storage_globals; }
    int StorageSvc::start_transaction(const wsrep::ws_handle& h)
    {
        if (requires_globals()) ctx_check(cs, "storage start");
        sim::yield_point("st-start");
        if (sim::fault(W->cfg.f_storage, "storage-start-fails")) { node.storage_fault(h.transaction_id().get(), wsrep::e_append_fragment_error); return 1; }
        cs->se.begin(&node, cs, true, true);
        return cs->start_transaction(h.transaction_id());
    }
    void StorageSvc::adopt_transaction(const wsrep::transaction& t)
    {
        cs->se.begin(&node, cs, true, true);
        cs->adopt_transaction(t);
    }
    int StorageSvc::append_fragment(const wsrep::id& server, wsrep::transaction_id trx, int flags,
                                    const wsrep::const_buffer& data, const wsrep::xid& xid)
    {
        sim::yield_point("st-append");
        if (sim::fault(W->cfg.f_storage, "storage-append-fails")) { node.storage_fault(trx.get(), wsrep::e_append_fragment_error); return 1; }
        key = SrKey(server, trx.get());
        frag.data.assign(data.data(), data.size());
        frag.flags = flags;
        frag.xid = xid.is_null() ? "" : wsrep::to_string(xid);
        SIM_CHECK("C06", "fragment-origin", server == node.uuid, "fragment stored with other origin than the node");
        return 0;
    }
    int StorageSvc::update_fragment_meta(const wsrep::ws_meta& m)
    {
        sim::yield_point("st-update");
        SIM_CHECK("C06", "fragment-identity", m.server_id() == key.first && m.transaction_id().get() == key.second,
                  "fragment meta data does not match the fragment");
        if (!(frag.flags & F::prepare) && sim::fault(W->cfg.f_storage, "storage-update-fails")) { node.storage_fault(key.second, wsrep::e_deadlock_error); return 1; }
        cs->se.frag_add.push_back(std::make_pair(key, std::make_pair(m.seqno().get(), frag)));
        return 0;
    }
    int StorageSvc::remove_fragments()
    {
        if (requires_globals()) ctx_check(cs, "storage remove fragments");
        const T& t = cs->transaction();
        SrKey k(t.server_id(), t.id().get());
        for (auto& q : t.streaming_context().fragments())
            cs->se.frag_remove.push_back(std::make_pair(k, q.get()));
        return 0;
    }
    int StorageSvc::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        if (requires_globals()) ctx_check(cs, "storage commit");
        sim::yield_point("st-commit");
        int ret = 0;
        if (m.seqno().is_undefined())
        {
            cs->se.commit(0, 0);
            cs->before_rollback();
            cs->after_rollback();
            cs->se.end();
            cs->after_applying();
            return 0;
        }
        if (!(frag.flags & F::prepare) && sim::fault(W->cfg.f_storage, "storage-commit-fails"))
        {
            node.storage_fault(key.second, wsrep::e_deadlock_error);
            rollback(wsrep::ws_handle(), wsrep::ws_meta());
            return 1;
        }
        ret = cs->prepare_for_ordering(h, m, true);
        ret = ret || cs->before_commit();
        bool committed = false;
        if (!ret) { cs->se.commit(m.seqno().get(), 0); committed = true; }
        ret = ret || cs->ordered_commit();
        ret = ret || cs->after_commit();
        if (ret)
        {
            if (committed)
            {
                // commit was ordered but refused at the end: undone by engine
                if (key.second) W->trxs[key.second].frag_cancelled = true;
                auto f = node.store.frags.find(key);
                if (f != node.store.frags.end()) { f->second.erase(m.seqno().get()); if (f->second.empty()) node.store.frags.erase(f); }
            }
            cs->prepare_for_ordering(wsrep::ws_handle(), wsrep::ws_meta(), false);
            cs->before_rollback();
            cs->se.rollback();
            cs->after_rollback();
        }
        cs->se.end();
        cs->after_applying();
        return ret;
    }
    int StorageSvc::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        if (requires_globals()) ctx_check(cs, "storage rollback");
        sim::yield_point("st-rollback");
        int ret = cs->prepare_for_ordering(h, m, false) || cs->before_rollback();
        cs->se.rollback();
        ret = cs->after_rollback() || ret;
        cs->se.end();
        cs->after_applying();
        return ret;
    }
    void Node::storage_fault(uint64_t trx, enum wsrep::client_error err)
    {
        for (Session* s : sessions) if (s->trx_id == trx) { s->injected_err = err; s->injected_frag = true; }
        if (trx) W->trxs[trx].frag_cancelled = true;
    }

    // ---- server service -----------------------------------------------------------------
    // (a new session, the context of the calling thread is not changed)
    template <class F> static auto keep_ctx(F f) -> decltype(f()) { Cs* c = ctx(); auto r = f(); set_ctx(c); return r; }
    wsrep::storage_service* ServerSvc::storage_service(wsrep::client_service&) { return keep_ctx([&] { return new StorageSvc(node); }); }
    wsrep::storage_service* ServerSvc::storage_service(wsrep::high_priority_service&) { return keep_ctx([&] { return new StorageSvc(node); }); }
    void ServerSvc::release_storage_service(wsrep::storage_service* s) { static_cast<StorageSvc*>(s)->shutdown(); if (s->requires_globals()) set_ctx(0);
        static_cast<StorageSvc*>(s)->cs->destroy("storage service context"); race::destroyed(s, sizeof(StorageSvc), "storage service"); }
    wsrep::high_priority_service* ServerSvc::streaming_applier_service(wsrep::client_service&) { return keep_ctx([&] { return new Hps(node, true); }); }
    wsrep::high_priority_service* ServerSvc::streaming_applier_service(wsrep::high_priority_service&) { return keep_ctx([&] { return new Hps(node, true); }); }
    void ServerSvc::release_high_priority_service(wsrep::high_priority_service* h) { 
        if (!node.ss->mtx().held_by_current())
            SIM_CHECK("C23,C06,C08,C21", "released-while-registered",
                      node.ss->find_streaming_applier(static_cast<Hps*>(h)->key.first, static_cast<Hps*>(h)->key.second) != h,
                      "streaming applier is released while other threads can still find it");
        static_cast<Hps*>(h)->shutdown(); set_ctx(0);
        static_cast<Hps*>(h)->cs->destroy("context of released applier"); race::destroyed(h, sizeof(Hps), "released applier"); }
    void ServerSvc::background_rollback(wsrep::unique_lock<wsrep::mutex>& l, wsrep::client_state& c)
    {
        SIM_CHECK("*", "service-lock", l.owns_lock(), "background_rollback() called without lock");
        Cs* cs = static_cast<Cs*>(&c);
        SIM_CHECK("C17", "rollback-queued-twice", !cs->rb_active, "session queued to background rollback twice");
        cs->rb_active = true;
        node.rb_queue.push_back(cs);
        node.rb_wq.wake_all();
        sim::probe("background-rollback");
    }
    static void rollback_session(Cs* c)
    {
        c->acquire_ownership();
        set_ctx(c);
        SIM_CHECK("C17", "rollback-of-busy-session", c->state() == wsrep::client_state::s_idle,
                  "background rollback of a session which is not idle");
        const bool replay = c->transaction().state() == T::s_must_replay;
        c->client_service().bf_rollback();
        SIM_CHECK("C17", "rollback-of-busy-session", c->state() == wsrep::client_state::s_idle,
                  "session started running during background rollback");
        if (replay) c->xa_replay();
        SIM_CHECK("C17", "rollback-of-busy-session", c->state() == wsrep::client_state::s_idle,
                  "session started running during background rollback");
        c->rb_active = false;
        c->sync_rollback_complete();
    }
    void rollbacker_fiber(Node& n)
    {
        while (true)
        {
            while (n.rb_queue.empty()) n.rb_wq.wait();
            Cs* c = n.rb_queue.front();
            n.rb_queue.pop_front();
            n.rb_busy = c->hps != 0;
            if (sim::chance(0.3, "rb-lag")) sim::sleep_us(sim::range(1, 10, "us") * 1000);
            if (c->hps)
            {
                Hps* h = c->hps;
                h->store_globals();
                h->rollback(wsrep::ws_handle(), wsrep::ws_meta());
                h->after_apply();
                c->rb_active = false;
                h->shutdown();
                set_ctx(0);
                n.rb_busy = false;
                n.misc_wq.wake_all();
                continue;
            }
            // A replay applies changes and may itself need another rollback.
            if (c->transaction().state() == T::s_must_replay) sim::spawn("replayer" + std::to_string(n.idx), n.group, [c] { rollback_session(c); });
            else rollback_session(c);
        }
    }
    void ServerSvc::bootstrap()
    {
        SIM_CHECK("C14", "bootstrap-called", node.want_bootstrap && node.booted == 0,
                  "node " << node.idx << (node.want_bootstrap ? " initialized new cluster again" : " joined existing cluster but initialized a new one"));
        SIM_CHECK("C14", "bootstrap-before-init", node.init_called, "node initializes new cluster before it is initialized itself");
        ++node.booted;
        sim::probe("bootstrap-new-cluster");
    }
    void ServerSvc::log_view(wsrep::high_priority_service* h, const wsrep::view& v)
    {
        if (!h || v.status() != wsrep::view::primary) return;
        node.store.view = v;
        if (node.store.position < v.state_id().seqno().get()) node.store.position = v.state_id().seqno().get();
    }
    void ServerSvc::recover_streaming_appliers(wsrep::client_service&) { recover(); }
    void ServerSvc::recover_streaming_appliers(wsrep::high_priority_service& h) { recover(); h.store_globals(); }
    void ServerSvc::recover()
    {
        SIM_EV("n" << node.idx << " recover streaming appliers " << node.store.frags.size());
        std::map<SrKey, std::map<seq_t, Frag>> copy = node.store.frags;
        node.recovered = true;
        for (auto& i : copy)
        {
            // Transaction which ended by an isolated operation while its
            // rollback event was never sent.
            // Or own transaction of the previous incarnation which failed
            // certification but whose rollback event was not applied.
            auto o = W->uuid_node.find(i.first.first);
            const bool own = o != W->uuid_node.end() && o->second == node.idx;
            const bool stale = (own || W->trxs[i.first.second].rb_unsent || node.adopt_failed.count(i.first)) && node.store.position &&
                !W->at(node.store.position).after->live.count(i.first);
            if (stale || node.store.committed.count(i.first.second))
            {
                node.store.frags.erase(i.first);
                continue;
            }
            sim::probe("recovered-sr");
            SIM_EV("n" << node.idx << " recovers trx " << i.first.second << " fragments " << i.second.size());
            Hps* sa = new Hps(node, true);
            const seq_t first = i.second.begin()->first;
            wsrep::ws_meta m(gtid_of(first), wsrep::stid(i.first.first, wsrep::transaction_id(i.first.second), wsrep::client_id()),
                             wsrep::seqno::undefined(), F::start_transaction);
            sa->start_transaction(wsrep::ws_handle(wsrep::transaction_id(i.first.second)), m);
            bool prepared = false;
            std::string xid;
            for (auto& f : i.second)
            {
                sa->apply_ops(node.store.position, dec(f.second.data), false, -1);
                sa->cs->fragment_applied(wsrep::seqno(f.first));
                if (f.second.flags & F::prepare) { prepared = true; xid = f.second.xid; }
            }
            if (prepared)
            {
                sa->cs->restore_xid(mkxid(xid));
                sim::probe("xa-recovered");
            }
            node.ss->start_streaming_applier(i.first.first, wsrep::transaction_id(i.first.second), sa);
            sa->after_apply();
        }
    }
    wsrep::view ServerSvc::get_view(wsrep::client_service&, const wsrep::id& own)
    {
        const wsrep::view& v = node.store.view;
        if (v.state_id().is_undefined()) return v;
        int idx = -1;
        for (size_t i = 0; i < v.members().size(); ++i) if (v.members()[i].id() == own) idx = int(i);
        return wsrep::view(v.state_id(), v.view_seqno(), v.status(), v.capabilities(), idx, v.protocol_version(), v.members());
    }
    wsrep::gtid ServerSvc::get_position(wsrep::client_service&)
    {
        if (node.store.position == 0) return wsrep::gtid::undefined();
        return gtid_of(node.store.position);
    }
    void ServerSvc::set_position(wsrep::client_service&, const wsrep::gtid& g)
    {
        SIM_CHECK("C02", "position-outside-turn", node.entered == g.seqno().get(),
                  "position " << g.seqno().get() << " recorded outside of its turn");
        node.store.position = g.seqno().get();
        node.commit_check(g.seqno().get(), "released");
    }
    // Fragments of open transactions which a node failed to store itself
    // come from other nodes.
    static void restore_cancelled(Store& st, seq_t pos, bool all)
    {
        if (!pos) return;
        for (auto& l : W->at(pos).after->live)
            if (W->trxs[l.first.second].frag_cancelled && (all || l.second.prepared))
                for (auto& f : l.second.frags)
                    if (!st.frags[l.first].count(f.first))
                    {
                        Frag& q = st.frags[l.first][f.first];
                        q.data = f.second;
                        if (l.second.prepared && f.first == l.second.frags.rbegin()->first)
                        {
                            q.flags = F::prepare;
                            q.xid = xid_of(l.first.second);
                        }
                    }
    }
    void ServerSvc::log_state_change(enum wsrep::server_state::state prev, enum wsrep::server_state::state cur)
    {
        SIM_CHECK("C14", "state-history", int(prev) == node.last_state,
                  "node " << node.idx << " state change reported from " << wsrep::to_c_string(prev)
                  << " but last reported state was " << node.last_state);
        SIM_EV("n" << node.idx << " state " << wsrep::to_c_string(prev) << " -> " << wsrep::to_c_string(cur));
        if (cur == wsrep::server_state::s_synced)
            SIM_CHECK("C14", "not-bootstrapped", !node.want_bootstrap || node.booted == 1,
                      "node " << node.idx << " became synced member of new cluster which was never initialized");
        node.last_state = int(cur);
        node.misc_wq.wake_all();
        if (node.report) node.report->state(int(cur));
    }
    bool ServerSvc::sst_before_init() const { return W->cfg.sst_first; }
    std::string ServerSvc::sst_request() { return "req"; }

    int ServerSvc::start_sst(const std::string&, const wsrep::gtid&, bool bypass)
    {
        SIM_CHECK("C15", "donor-state", node.st() == wsrep::server_state::s_donor,
                  "state transfer is started but node is not in donor state");
        if (sim::fault(W->cfg.f_sst, "sst-start-fails")) return 1;
        const int inc = node.inc;
        Node* n = &node;
        const int jidx = n->donate_to, attempt = n->donate_attempt;
        sim::spawn("donor" + std::to_string(n->idx), n->group, [n, inc, bypass, jidx, attempt]
        {
            sim::sleep_us(sim::range(1, 20, "sst-time") * 1000);
            Node* j = jidx >= 0 ? W->nodes[size_t(jidx)].get() : 0;
            int err = sim::fault(W->cfg.f_sst, "sst-send-fails") ? 1 : 0;
            seq_t pos = n->last_left;
            if (!err && !bypass && j)
            {
                // consistent snapshot at or after the joining view
                err = 1;
                for (int k = 0; k < 200; ++k)
                {
                    if (j->st_attempt != attempt || !n->donating) break;
                    if (n->last_left >= j->join_view && n->entered == 0 && n->clean_frags())
                    {
                        j->snap = n->store;
                        pos = j->snap.position = n->last_left;
                        // fragment which the donor itself failed to store
                        restore_cancelled(j->snap, pos, true);
                        err = 0;
                        break;
                    }
                    sim::sleep_us(5000);
                }
                if (err) sim::probe("donor-gave-up");
            }
            else if (!err && bypass) pos = j ? j->store.position : 0;
            n->sst_sent_calls = 0;
            n->ss->sst_sent(gtid_of(pos), err);
            SIM_CHECK("C15", "sst-sent", n->sst_sent_calls == 1 && n->sst_sent_err == err && n->sst_sent_gtid == pos,
                      "result of state transfer not reported to provider once");
            SIM_CHECK("C15", "donor-stuck", n->st() != wsrep::server_state::s_donor || n->donating,
                      "donor stays in donor state after the transfer ended");
            (void)inc;
            if (j && j->st_attempt == attempt)
            {
                if (err) j->donor_failed = true;
                else j->snap_ready = true;
                j->misc_wq.wake_all();
            }
        });
        return 0;
    }
    int ServerSvc::wait_committing_transactions(int) { return 0; }

    ServerState::ServerState(Node& n, ServerSvc& svc, const wsrep::gtid& pos, enum rollback_mode rm)
        : SsSync()
        , wsrep::server_state(SsSync::m, SsSync::c, svc, 0, "n" + std::to_string(n.idx), "", "", "/tmp", pos, 1, rm)
    { }

    // Joiner side of state transfer.
    void spawn_sst(Node& j, bool rejoin, bool)
    {
        Node* n = &j;
        sim::spawn("joiner" + std::to_string(j.idx), j.group, [n, rejoin]
        {
            ClientSvc* svc = new ClientSvc(*n);
            Cs* c = new Cs(*n, *n->ss, *svc, ++W->next_client, wsrep::client_state::m_local);
            svc->cs = c;
            c->open(c->id());
            c->before_command();
            n->snap_ready = n->donor_failed = false;
            bool ok = false;
            for (int attempt = 0; attempt < 20 && !ok; ++attempt)
            {
                Node* d = 0;
                std::vector<Node*> cand;
                for (auto& x : W->nodes)
                    if (x.get() != n && x->up && x->in_prim && x->joined && !x->donating && x->synced() && !x->leaving) cand.push_back(x.get());
                if (cand.empty()) { sim::sleep_us(20000); --attempt; if (!n->wait_st) break; continue; }
                d = cand[sim::choose(uint32_t(cand.size()), "donor")];
                n->st_bypass = n->store.position > 0 && (rejoin || sim::chance(1 - W->cfg.p_sst, "ist"));
                if (n->st_bypass) restore_cancelled(n->store, n->store.position, false);
                n->donor = d->idx;
                n->st_attempt = W->next_attempt++;
                n->snap_ready = n->donor_failed = false;
                d->donating = true;
                const int dinc = d->inc;
                d->queue.push_back(Ev{EV_DONATE, n->st_bypass ? n->store.position : 0, n->idx, n->st_attempt});
                d->q_wq.wake_all();
                while (!n->snap_ready && !n->donor_failed && d->up && d->inc == dinc && d->in_prim) n->misc_wq.wait_for(20000);
                if (n->snap_ready) ok = true;
                else
                {
                    sim::probe("sst-retry");
                    n->st_attempt = 0;
                    if (d->up && d->inc == dinc && !n->donor_failed) d->donating = false;
                    n->donor_failed = false;
                    if (sim::chance(0.3, "sst-give-up")) break;
                    sim::sleep_us(20000);
                }
            }
            n->donor = -1;
            n->st_attempt = 0;
            n->sst_received_calls = 0;
            n->sst_received_err = 0;
            if (!ok || sim::fault(W->cfg.f_sst, "sst-receive-fails"))
            {
                int r = n->ss->sst_received(*svc, 1);
                (void)r;
                SIM_CHECK("C15", "sst-failure-lost", n->sst_received_calls == 1 && n->sst_received_err != 0,
                          "failed state transfer was not reported to the provider");
                SIM_CHECK("C15", "sst-failed-joined", n->st() == wsrep::server_state::s_joiner ||
                          n->st() == wsrep::server_state::s_disconnecting ||
                          n->st() == wsrep::server_state::s_disconnected,
                          "node is in state " << wsrep::to_c_string(n->st()) << " after failed state transfer");
                sim::probe("sst-failed");
                crash_node(*n, "sst failed");
                sim::yield_point("dead");
            }
            if (!n->st_bypass)
            {
                n->store = n->snap;
                sim::probe("sst");
            }
            else sim::probe("ist");
            int r = n->ss->sst_received(*svc, 0);
            SIM_EV("n" << n->idx << " sst_received ret " << r);
            if (r)
            {
                crash_node(*n, "sst failed");
                sim::yield_point("dead");
            }
            SIM_CHECK("C15", "sst-not-reported", n->sst_received_calls == 1,
                      "state transfer result reported to the provider " << n->sst_received_calls << " times");
            c->after_command_before_result();
            c->after_command_after_result();
            c->close();
            c->cleanup();
            n->st_done = true;
            n->misc_wq.wake_all();
            n->recv_wq.wake_all();
        });
    }

    // ---- node ------------------------------------------------------------------------
    bool Node::synced() const { return up && ss && st() == wsrep::server_state::s_synced; }
    // Known finding KF-1: applier of a streaming transaction whose origin could
    // not send its rollback event is aborted by a later write set. The event,
    // once it comes, does not remove the stored fragments.
    void Node::purge_known(seq_t s)
    {
        auto& live = W->at(s).after->live;
        for (auto i = store.frags.begin(); i != store.frags.end(); )
        {
            if (!live.count(i->first) && adopt_failed.count(i->first))
            {
                SIM_EV("n" << idx << " purges fragments of " << i->first.second << " (adopt failed)");
                i = store.frags.erase(i);
            }
            else if (!live.count(i->first) && sa_aborted.count(i->first) && W->trxs[i->first.second].rb_unsent)
            {
                sim::probe("known-finding:KF-1");
                SIM_EV("n" << idx << " purges fragments of " << i->first.second << " (KF-1)");
                i = store.frags.erase(i);
            }
            else ++i;
        }
    }
    bool Node::clean_frags()
    {
        purge_known(last_left);
        auto& live = W->at(last_left).after->live;
        for (auto& i : store.frags) if (!live.count(i.first)) return false;
        return true;
    }
    std::string Node::id_str() const { return "n" + std::to_string(idx); }
    bool Node::quiescent() const
    {
        return up && queue.empty() && in_flight == 0 && last_left == W->last() && rb_queue.empty() && !rb_busy;
    }

    static bool rows_equal(const std::map<std::pair<int,int>, int64_t>& a, const std::map<std::pair<int,int>, int64_t>& b)
    {
        for (auto& i : a) { auto j = b.find(i.first); if ((j == b.end() ? 0 : j->second) != i.second) return false; }
        for (auto& i : b) { auto j = a.find(i.first); if ((j == a.end() ? 0 : j->second) != i.second) return false; }
        return true;
    }
    static std::string rows_dump(const std::map<std::pair<int,int>, int64_t>& a)
    {
        std::ostringstream os;
        for (auto& i : a) if (i.second) os << i.first.first << "/" << i.first.second << "=" << i.second << " ";
        return os.str();
    }

    void Node::frag_check(seq_t s, const char* tags, const char* what)
    {
        purge_known(s);
        auto& live = W->at(s).after->live;
        for (auto& i : live)
        {
            auto o = W->uuid_node.find(i.first.first);
            const bool own = o != W->uuid_node.end() && o->second == idx;
            if (own || W->trxs[i.first.second].frag_cancelled) continue;
            auto er = early_removed.find(i.first);
            if (er != early_removed.end() && er->second > s) continue;
            auto j = store.frags.find(i.first);
            SIM_CHECK(tags, "fragment-missing", j != store.frags.end(),
                      "node " << idx << " after " << what << " " << s << " has no fragments of open transaction " << i.first.second);
            if (j == store.frags.end()) continue;
            bool same = j->second.size() == i.second.frags.size();
            if (same)
                for (auto& f : i.second.frags)
                {
                    auto k = j->second.find(f.first);
                    if (k == j->second.end() || k->second.data != f.second) same = false;
                }
            SIM_CHECK(tags, "fragment-mismatch", same,
                      "node " << idx << " after " << what << " " << s << " stores " << j->second.size()
                      << " fragments of transaction " << i.first.second << ", expected " << i.second.frags.size());
        }
        for (auto& i : store.frags)
        {
            if (i.first.first == uuid) continue;
            // own transaction of the previous incarnation, of which the
            // fragment conflicting with the isolated operation was not stored
            auto o = W->uuid_node.find(i.first.first);
            if (o != W->uuid_node.end() && o->second == idx && W->trxs[i.first.second].frag_cancelled) continue;
            if (!live.count(i.first) && store.committed.count(i.first.second) && W->trxs[i.first.second].xa) continue;
            SIM_CHECK(tags, "fragment-stale", live.count(i.first),
                      "node " << idx << " after " << what << " " << s << " still stores fragments of finished transaction "
                      << i.first.second);
        }
    }
    void Node::commit_check(seq_t s, const char* what)
    {
        // a write set failing here only is voted away and the node goes down
        if (W->at(s).err_node == idx && W->at(s).vote != 1) return;
        const Model& m = *W->at(s).after;
        SIM_CHECK("C01,C02", "state-divergence", rows_equal(store.rows, m.rows),
                  "node " << idx << " after " << what << " " << s << " has rows [" << rows_dump(store.rows)
                  << "], replication order gives [" << rows_dump(m.rows) << "]");
        SIM_CHECK("C01,C11", "schema-divergence", store.tver == m.tver,
                  "node " << idx << " after " << what << " " << s << " has other table versions than replication order gives");
        frag_check(s, "C06,C21", what);
    }
    void Node::view_check(const Entry& e)
    {
        if (!up) return;
        frag_check(e.seqno, "C08,C06", "view");
        // streaming appliers present must be exactly the live remote ones
        const Model& m = *e.after;
        for (auto& i : m.live)
        {
            auto o = W->uuid_node.find(i.first.first);
            const bool own = o != W->uuid_node.end() && o->second == idx;
            Hps* sa = static_cast<Hps*>(ss->find_streaming_applier(i.first.first, wsrep::transaction_id(i.first.second)));
            SIM_CHECK("C08,C09", "applier-missing", own || sa != 0 || W->trxs[i.first.second].frag_cancelled || early_removed.count(i.first),
                      "node " << idx << " after view " << e.seqno << " has no applier for open transaction " << i.first.second);
        }
        const Model& before = *W->at(e.seqno - (e.seqno > 1 ? 1 : 0)).after;
        for (auto& i : before.live)
        {
            if (m.live.count(i.first)) continue;
            if (i.first.first == uuid) continue;
            Hps* sa = static_cast<Hps*>(ss->find_streaming_applier(i.first.first, wsrep::transaction_id(i.first.second)));
            SIM_CHECK("C08", "orphan-kept", sa == 0,
                      "node " << idx << " after view " << e.seqno << " keeps orphaned transaction " << i.first.second);
            sim::probe("orphan-discarded");
        }
    }
    void Node::final_check()
    {
        SIM_CHECK("C09,C14", "final-state", st() == wsrep::server_state::s_disconnected,
                  "node " << idx << " is not disconnected after the final view");
        const std::map<SrKey, std::map<seq_t, Frag>> copy = store.frags;
        for (auto& i : copy)
        {
            Hps* sa = static_cast<Hps*>(ss->find_streaming_applier(i.first.first, wsrep::transaction_id(i.first.second)));
            SIM_CHECK("C09", "disconnected-applier", sa == 0, "streaming transaction still open after disconnect");
        }
        // fragments survive disconnect
        const seq_t s = last_left;
        if (s > 0) frag_check(s, "C09,C06", "disconnect at");
    }
    void Node::check_after_error(const Entry& e)
    {
        SrKey key(e.origin, e.trx);
        if (e.kind == WS)
        {
            SIM_CHECK("C21,C06", "failed-fragments", !store.frags.count(key),
                      "node " << idx << " fragments left behind by failed transaction " << e.trx);
            if (e.vote == 1 || e.err_node == idx)
            {
                Hps* sa = static_cast<Hps*>(ss->find_streaming_applier(e.origin, wsrep::transaction_id(e.trx)));
                SIM_CHECK("C21", "failed-applier", sa == 0 || !e.cert_ok || e.err_empty || e.vote != 1,
                          "node " << idx << " keeps applier of failed streaming transaction " << e.trx);
            }
        }
        for (auto& i : locks->x)
            SIM_CHECK("C21", "failed-locks", !(i.second->hp && i.second->cs && i.second->bf_seqno == e.seqno),
                      "node " << idx << " lock " << i.first << " left behind by failed write set " << e.seqno);
    }

    static void applier_fiber(Node& n, int k)
    {
        Hps* h = new Hps(n, false);
        ++n.appliers_alive;
        n.prov->run_applier(h);
        --n.appliers_alive;
        h->shutdown();
        n.misc_wq.wake_all();
        (void)k;
    }
    void spawn_appliers(Node& n)
    {
        for (int k = 0; k < W->cfg.appliers; ++k)
            sim::spawn("applier" + std::to_string(n.idx) + "." + std::to_string(k), n.group, [&n, k]{ applier_fiber(n, k); });
    }

    wsrep::provider* (*wrap_provider)(wsrep::server_state&, Node&, SimProvider*) = 0;
    void start_node(Node& n, bool bootstrap)
    {
        ++n.inc;
        n.group = 1 + n.idx + 100 * n.inc;
        n.up = true;
        n.connected = n.in_prim = n.joined = n.fresh = n.wait_st = n.leaving = false;
        n.last_left = n.appl_left = n.store.position;
        n.appl_done.clear();
        n.cursor = n.store.position + 1;
        n.queue.clear(); n.in_flight = 0; n.barrier = false; n.final_done = false;
        n.cancelled.clear(); n.applying.clear(); n.entered = 0; n.paused = n.inconsistent = n.failing = false; n.desyncs = 0;
        n.trxs.clear(); n.rb_queue.clear(); n.replaying = 0; n.sessions.clear();
        n.toi_open.clear(); n.local_toi.clear(); n.np_points.clear(); n.leave_point = -1;
        n.storage_open = 0; n.sr_appliers = 0; n.rb_busy = false; n.appliers_running = 0; n.appliers_alive = 0; n.donating = n.sync_pending = false;
        n.last_state = int(wsrep::server_state::s_disconnected);
        n.recovered = false; n.donor = -1; n.session_count = 0; n.admin_busy = false;
        n.uuid = wsrep::id();
        n.svc.release(); n.ss.release(); n.locks.release();     // dead incarnation is never touched again
        n.svc.reset(new ServerSvc(n));
        n.locks.reset(new LockMgr(n));
        n.ss.reset(new ServerState(n, *n.svc, n.store.position ? gtid_of(n.store.position) : wsrep::gtid::undefined(),
                                   W->cfg.rb_sync ? wsrep::server_state::rm_sync : wsrep::server_state::rm_async));
        n.ss->set_provider_factory([&n](wsrep::server_state& ss, const std::string&, const std::string&, const wsrep::provider::services&)
        {
            n.prov = new SimProvider(ss, n);
            return std::unique_ptr<wsrep::provider>(wrap_provider ? wrap_provider(ss, n, n.prov) : n.prov);
        });
        n.ss->load_provider("sim", "", wsrep::provider::services());
        SIM_EV("start node " << n.idx << " inc " << n.inc << " pos " << n.store.position << (bootstrap ? " bootstrap" : ""));
        Node* np = &n;
        n.report = 0;
        sim::spawn("main" + std::to_string(n.idx), n.group, [np, bootstrap]
        {
            Node& m = *np;
            if (W->cfg.report)
            {
                const std::string f = "/simfs/n" + std::to_string(m.idx) + "/report.json";
                m.report = new ro::Report(f, 3, simfs::FS->names.count(f));
            }
            sim::spawn("recv" + std::to_string(m.idx), m.group, [np]{ recv_fiber(*np); });
            sim::spawn("rollbacker" + std::to_string(m.idx), m.group, [np]{ rollbacker_fiber(*np); });
            spawn_appliers(m);
            m.init_called = !W->cfg.sst_first;
            if (!W->cfg.sst_first) m.ss->initialized();
            m.want_bootstrap = bootstrap;
            m.booted = 0;
            const uint32_t how = bootstrap ? sim::choose(3, "bootstrap-how") : 0;     // option, address or both
            m.ss->connect("cluster", bootstrap && how != 1 ? "gcomm://" : "gcomm://x", "", bootstrap && how != 2);
            if (W->cfg.sst_first)
            {
                if (m.ss->wait_until_state(wsrep::server_state::s_initializing)) return;
                sim::sleep_us(sim::range(0, 3, "init") * 1000);
                m.init_called = true;
                m.ss->initialized();
            }
        });
    }

    void crash_node(Node& n, const char* why)
    {
        if (!n.up) return;
        SIM_EV("crash node " << n.idx << " at " << n.store.position << ": " << why);
        sim::probe("node-crash");
        // A node which lost a vote does not come back with its state, also if
        // it goes down for another reason before it gave up.
        bool wipe = std::string(why) == "apply failure" || n.inconsistent;
        for (auto& a : n.applying) if (a.second) wipe = true;
        n.up = false;
        n.connected = false;
        n.in_prim = false;
        n.joined = false;
        n.donating = false;
        n.wait_st = false;
        n.st_attempt = 0;
        n.sessions.clear();
        if (wipe) { n.store = Store(); }
        for (auto& j : W->nodes) if (j->donor == n.idx) { j->donor_failed = true; j->misc_wq.wake_all(); }
        sim::kill_group(n.group);
        n.down_wq.wake_all();
        W->recompute_groups("crash");
    }

    // All members of the last primary component are gone: restart it from
    // the most advanced node.
    bool World::bootstrap_prim()
    {
        if (has_prim) return false;
        Node* best = 0;
        bool alive = false;
        for (auto& n : nodes) if (n->up && n->connected && !n->fresh && !n->wait_st) alive = true;
        if (!alive) for (auto& n : nodes) crash_node(*n, "no node with state left");
        if (alive)
        {
            recompute_groups("admin bootstrap", true);
            return true;
        }
        for (auto& n : nodes) if (!n->up && (!best || n->store.position > best->store.position)) best = n.get();
        if (!best) return false;
        const seq_t p = best->store.position;
        SIM_EV("full restart from node " << best->idx << " at " << p);
        sim::probe("full-restart");
        for (auto& t : trxs)
        {
            TrxInfo& ti = t.second;
            if (ti.commit_seqno > p)
            {
                if (ti.xa_remote) ti.claim = C_UNKNOWN;
                SIM_CHECK("C09,C01", "commit-lost", ti.claim != C_COMMITTED,
                          "transaction " << t.first << " reported committed at " << ti.commit_seqno
                          << " but the most advanced node recovered at " << p);
                ti.commit_entries = 0; ti.commit_seqno = 0; ti.lost = true;
            }
        }
        while (last() > p) log.pop_back();
        for (auto i = toi_execs.begin(); i != toi_execs.end(); ) if (i->first.first > p) i = toi_execs.erase(i); else ++i;
        for (auto i = nbo_end_calls.begin(); i != nbo_end_calls.end(); ) if (i->first > p) i = nbo_end_calls.erase(i); else ++i;
        for (auto i = nbo_gaveup.begin(); i != nbo_gaveup.end(); ) if (i->first > p) i = nbo_gaveup.erase(i); else ++i;
        for (auto i = nbo_end_entry.begin(); i != nbo_end_entry.end(); ) if (i->second > p) i = nbo_end_entry.erase(i); else ++i;
        model = p ? *at(p).after : Model();
        prim.clear();
        for (auto& ph : phantoms)
        {
            char buf[32];
            snprintf(buf, sizeof(buf), "phantom-%08d", next_uuid++);
            ph = wsrep::id(std::string(buf));
        }
        for (auto& n : nodes) if (n->store.position > p) violation_internal("restart");
        if (max_claimed > p) max_claimed = p;
        start_node(*best, true);
        return true;
    }
}
