// Simulated provider: total order, certification, monitors, membership,
// state transfer of one node.
#include "world.hpp"
#include <algorithm>

namespace w
{
    PTrx* SimProvider::find(uint64_t id)
    {
        auto i = node.trxs.find(id);
        return i == node.trxs.end() ? 0 : &i->second;
    }
    PTrx& SimProvider::trx(uint64_t id)
    {
        PTrx& p = node.trxs[id];
        p.id = id;
        return p;
    }
    wsrep::ws_meta SimProvider::meta(const Entry& e) const
    {
        return wsrep::ws_meta(gtid_of(e.seqno),
                              wsrep::stid(e.origin, wsrep::transaction_id(e.trx), wsrep::client_id(e.client)),
                              wsrep::seqno(e.depends_on), e.flags);
    }

    // ---- monitor ----------------------------------------------------------
    void SimProvider::advance()
    {
        while (node.cancelled.count(node.last_left + 1))
        {
            ++node.last_left;
            node.cancelled.erase(node.last_left);
        }
        node.mon_wq.wake_all();
        node.q_wq.wake_all();
    }
    void SimProvider::cancel(seq_t s)
    {
        SIM_EV("n" << node.idx << " cancel " << s);
        SIM_CHECK("C02", "cancel-done-position", s > node.last_left && !node.cancelled.count(s) && node.entered != s,
                  "node " << node.idx << " position " << s << " released twice");
        node.cancelled.insert(s);
        advance();
        complete(s);
    }
    // Everything about a position is done (left apply order). Views, isolated
    // operations and dependent write sets wait for this.
    void SimProvider::complete(seq_t s)
    {
        if (s <= node.appl_left) return;
        node.appl_done.insert(s);
        while (node.appl_done.count(node.appl_left + 1)) node.appl_done.erase(++node.appl_left);
        node.mon_wq.wake_all();
    }
    enum P::status SimProvider::enter(seq_t s, PTrx* ip)
    {
        SIM_CHECK("C02", "enter-done-position", s > node.last_left && !node.cancelled.count(s),
                  "node " << node.idx << " enters position " << s << " which is already completed (last "
                  << node.last_left << ")");
        SIM_CHECK("C02", "enter-twice", node.entered != s,
                  "node " << node.idx << " enters position " << s << " twice");
        while (!(node.last_left == s - 1 && !node.paused && node.entered == 0 && !node.inconsistent))
        {
            if (ip && ip->must_abort) return P::error_bf_abort;
            if (s <= node.last_left)
            {
                sim::violation("C02", "position-stolen", "position completed by someone else while waiting for it");
                return P::error_provider_failed;
            }
            node.mon_wq.wait();
        }
        if (ip && ip->must_abort) return P::error_bf_abort;
        node.entered = s;
        SIM_EV("n" << node.idx << " enter " << s);
        return P::success;
    }
    void SimProvider::leave(seq_t s)
    {
        SIM_EV("n" << node.idx << " leave " << s);
        SIM_CHECK("C02", "leave-not-entered", node.entered == s,
                  "node " << node.idx << " leaves position " << s << " but is in " << node.entered);
        node.entered = 0;
        if (node.last_left < s) node.last_left = s;
        advance();
    }

    enum P::status SimProvider::commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        race::scope in_provider(&node);
        sim::yield_point("co_enter");
        const seq_t s = m.seqno().get();
        if (m.seqno().is_undefined() || s < 1 || s > W->last())
        {
            sim::violation("C02", "enter-undefined", "commit order entered with undefined position");
            return P::error_fatal;
        }
        const Entry& e = W->at(s);
        SIM_CHECK("C02,C11,C12", "enter-foreign-position",
                  e.trx == m.transaction_id().get() && e.origin == m.server_id(),
                  "position " << s << " of trx " << e.trx << " entered by trx " << m.transaction_id().get());
        ApplyCtx* c = static_cast<ApplyCtx*>(h.opaque());
        if (c)
        {
            SIM_CHECK("C02", "enter-wrong-context", c->seqno == s,
                      "applier of position " << c->seqno << " enters position " << s);
            return enter(s, 0);
        }
        // local transaction
        PTrx* p = find(h.transaction_id().get());
        SIM_CHECK("C02", "enter-unknown-trx", p != 0 && p->seqno == s,
                  "unknown local trx " << h.transaction_id().get() << " enters position " << s);
        if (!p) return P::error_transaction_missing;
        bool inter = e.cert_ok && !p->replaying;
        enum P::status ret = enter(s, inter ? p : 0);
        p = find(h.transaction_id().get());
        if (ret == P::success && p) { p->entered = true; }
        return ret;
    }

    int SimProvider::commit_order_leave(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                                        const wsrep::mutable_buffer& err)
    {
        race::scope in_provider(&node);
        sim::yield_point("co_leave");
        const seq_t s = m.seqno().get();
        if (m.seqno().is_undefined() || s < 1 || s > W->last())
        {
            sim::violation("C02", "leave-undefined", "commit order left with undefined position");
            return 1;
        }
        const Entry& e = W->at(s);
        SIM_CHECK("C02,C11,C12", "leave-foreign-position",
                  e.trx == m.transaction_id().get() && e.origin == m.server_id(),
                  "position " << s << " of trx " << e.trx << " left by trx " << m.transaction_id().get());
        int ret = 0;
        ApplyCtx* c = static_cast<ApplyCtx*>(h.opaque());
        PTrx* p = c ? 0 : find(h.transaction_id().get());
        // Voting: error which every node gets is confirmed, an error which only
        // this node got is not.
        bool must_err = (e.vote == 1 || e.err_node == node.idx) && c && !c->replay && !e.err_empty;
        if (e.kind == WS && !c) must_err = false;
        if (e.kind == WS && (!e.cert_ok || (e.flags & F::rollback))) must_err = false;
        // fragment and commit of a streaming transaction which is gone is not applied
        if (must_err && e.kind == WS && !(e.flags & F::start_transaction) &&
            !W->at(s - 1).after->live.count(SrKey(e.origin, e.trx))) must_err = false;
        SIM_CHECK("C21", "vote-missing", !must_err || err.size() > 0,
                  "node " << node.idx << " applying position " << s << " failed but no error was given to the provider");
        SIM_CHECK("C21", "vote-spurious", must_err || err.size() == 0 || !c,
                  "node " << node.idx << " position " << s << " was applied but an error was given to the provider");
        if (err.size() > 0)
        {
            sim::probe("vote");
            if (e.err_node == node.idx && e.vote != 1) ret = 1;
        }
        if (p && !(p->flags & F::commit) && p->must_abort && W->cfg.f_fragabort > 0 &&
            sim::fault(W->cfg.f_fragabort, "fragment-abort-at-leave")) ret = 1;
        if (c && !c->replay && apply_fails_here(e) && e.vote != 1) node.inconsistent = true;
        leave(s);
        if (p) { p->left = true; if (!(p->flags & F::commit)) p->frag_left = (ret == 0); }
        return ret;
    }

    int SimProvider::release(wsrep::ws_handle& h)
    {
        sim::yield_point("release");
        PTrx* p = find(h.transaction_id().get());
        if (!p) return 0;
        if (p->frag_left)
        {
            p->frag_left = false;
            complete(p->seqno);
            p->seqno = 0; p->delivered = p->entered = p->left = p->cancelled = false;
            p->data.clear(); p->keys.clear();
            return 0;
        }
        if (p->seqno && !p->left && !p->cancelled)
        {
            if (p->flags & F::commit)
            {
                sim::violation("C02,C04", "position-leaked",
                               "node " + std::to_string(node.idx) + " trx " + std::to_string(p->id) +
                               " released but its position " + std::to_string(p->seqno) + " was never completed");
            }
            else { W->trxs[p->id].frag_cancelled = true; cancel(p->seqno); }
        }
        if (p->seqno) complete(p->seqno);
        node.trxs.erase(h.transaction_id().get());
        h = wsrep::ws_handle();
        return 0;
    }

    // ---- local transactions ---------------------------------------------------
    enum P::status SimProvider::assign_read_view(wsrep::ws_handle& h, const wsrep::gtid*)
    {
        trx(h.transaction_id().get());
        return P::success;
    }
    int SimProvider::append_key(wsrep::ws_handle& h, const wsrep::key& key)
    {
        PTrx& p = trx(h.transaction_id().get());
        if (sim::fault(W->cfg.f_prepare * 0.2, "append-key-fails"))
        {
            for (Session* s : node.sessions) if (s->trx_id == h.transaction_id().get())
                {
                    s->append_failed = true;
                    if (!s->row_append) { s->injected_err = wsrep::e_error_during_commit; sim::probe("commit-key-fails"); }
                }
            return 1;
        }
        K k;
        k.excl = key.type() == wsrep::key::exclusive || key.type() == wsrep::key::update;
        for (size_t i = 0; i < key.size(); ++i)
            k.parts.push_back(std::string(key.key_parts()[i].data(), key.key_parts()[i].size()));
        p.keys.push_back(k);
        return 0;
    }
    enum P::status SimProvider::append_data(wsrep::ws_handle& h, const wsrep::const_buffer& b)
    {
        PTrx& p = trx(h.transaction_id().get());
        if (sim::fault(W->cfg.f_prepare * 0.3, "append-data-fails"))
        {
            const enum P::status st = sim::chance(0.5, "append-status") ? P::error_size_exceeded : P::error_provider_failed;
            for (Session* s : node.sessions) if (s->trx_id == h.transaction_id().get())
                s->injected_err = s->in_prepare_data ? wsrep::e_size_exceeded_error : wsrep::e_error_during_commit;
            return st;
        }
        p.data.append(b.data(), b.size());
        return P::success;
    }

    static enum P::status pick_status()
    {
        static const enum P::status st[] = {
            P::error_connection_failed, P::error_warning, P::error_transaction_missing,
            P::error_size_exceeded, P::error_provider_failed, P::error_not_implemented,
            P::error_not_allowed, P::error_unknown };
        return st[sim::choose(8, "certify-status")];
    }

    // Applying fails on one node only: it does not get a majority for its vote.
    void SimProvider::fail_on_one_node(Entry& e)
    {
        if (sim::fault(W->cfg.f_apply, "apply-fails-on-one-node"))
        {
            std::vector<int> others;
            int up = 0;
            for (auto& n : W->nodes) if (n->up && n->in_prim && n->synced()) { ++up; if (n.get() != &node) others.push_back(n->idx); }
            if (W->err_node >= 0 && W->nodes[size_t(W->err_node)]->inc != W->err_inc) W->err_node = -1;
            if (up > 2 && W->err_node < 0)
            {
                e.err_node = others[sim::choose(uint32_t(others.size()), "err-node")];
                e.err_empty = sim::chance(0.3, "err-empty");
                W->err_node = e.err_node;
                W->err_inc = W->nodes[size_t(e.err_node)]->inc;
            }
        }
    }

    enum P::status SimProvider::certify(wsrep::client_id cid, wsrep::ws_handle& h, int flags,
                                        wsrep::ws_meta& m, const seq_cb_t* cb)
    {
        if (!m.server_id().is_undefined() && !m.ordered()) return by_xid(cid, flags, m);
        const uint64_t id = h.transaction_id().get();
        PTrx& p = trx(id);
        p.client = cid.get();
        h = wsrep::ws_handle(h.transaction_id(), 0);
        sim::yield_point("certify");
        Session* sess = 0;
        for (Session* s : node.sessions) if (s->trx_id == id) sess = s;
        if (!p.must_abort && sim::fault(W->cfg.f_certify, "certify-error"))
        {
            enum P::status st = pick_status();
            // Other errors roll the prepared transaction back, and other
            // nodes hear about it only if the owner lives long enough.
            if (sess && sess->prepared_xa && (flags & F::commit)) st = P::error_connection_failed;
            SIM_EV("n" << node.idx << " inject certify status " << st << " trx " << id);
            sim::note_fault(("certify:" + wsrep::provider::to_string(st)).c_str());
            if (sess) { sess->injected = st; sess->injected_frag = !(flags & F::commit); }
            m = wsrep::ws_meta();
            return st;
        }
        if (sim::chance(W->cfg.p_lag, "certify-lag")) sim::sleep_us(sim::range(1, 20, "us") * 500);
        if (p.must_abort) { m = wsrep::ws_meta(); if (sess) sess->cert_failed = true; return P::error_certification_failed; }
        if (!node.can_replicate())
        {
            m = wsrep::ws_meta();
            sim::probe("certify-nonprim");
            if (sess) { sess->injected = P::error_connection_failed; sess->injected_frag = !(flags & F::commit); }
            return P::error_connection_failed;
        }
        SIM_CHECK("C05,C06", "stale-position", p.seqno == 0 || p.cancelled || p.left,
                  "trx " << id << " certified while its previous position is open");
        Entry e;
        e.kind = WS;
        e.origin = node.uuid;
        e.trx = id;
        e.client = cid.get();
        e.flags = flags;
        e.data = p.data;
        e.keys = p.keys;
        e.last_seen = node.last_left;
        if (sess) e.xid = sess->xid;
        for (auto& o : dec(e.data)) if (o.gap >= 0) e.gaps.insert(std::make_pair(o.t, o.gap));
        p.data.clear(); p.keys.clear();
        p.entered = p.left = p.cancelled = p.delivered = false;
        p.flags = flags;
        fail_on_one_node(e);
        Entry& r = W->append(e);
        const seq_t s = r.seqno;
        const bool ok = r.cert_ok;
        const seq_t dep = r.depends_on;
        p.seqno = s;
        wsrep::ws_meta rm = meta(r);
        SIM_CHECK("C02", "position-callback", !cb || (flags & F::commit), "callback for ordering given with a fragment of transaction " << id);
        if (sess && (flags & F::commit)) ++sess->cb_want;
        if (cb && cb->fn) cb->fn(cb->ctx);
        sim::yield_point("replicated");
        while (!p.delivered && !p.must_abort) node.mon_wq.wait();
        if (ok && W->cfg.wait_dep)
            while (node.appl_left < dep && !p.must_abort) node.mon_wq.wait();
        m = rm;
        if (sess && (flags & F::commit)) sess->expect_lw = s;
        if (p.delivered && !ok)
        {
            if (sess) sess->cert_failed = true;
            if (!(flags & F::commit)) { p.cancelled = true; cancel(s); }
            return P::error_certification_failed;
        }
        if (p.must_abort)
        {
            // outcome of certification unknown to the caller
            while (!p.delivered && !(flags & F::commit)) node.mon_wq.wait();
            if (!(flags & F::commit)) { p.cancelled = true; W->trxs[id].frag_cancelled = true; cancel(s); }
            sim::probe((flags & F::commit) ? "bf-abort-in-certify-commit" : "bf-abort-in-certify-fragment");
            return P::error_bf_abort;
        }
        return P::success;
    }

    // Commit or rollback of a prepared transaction from another session.
    enum P::status SimProvider::by_xid(wsrep::client_id cid, int flags, wsrep::ws_meta& m)
    {
        sim::yield_point("certify-xid");
        if (sim::fault(W->cfg.f_certify, "certify-error") || !node.can_replicate())
        {
            return P::error_connection_failed;
        }
        Entry e;
        e.kind = WS;
        e.origin = m.server_id();
        e.trx = m.transaction_id().get();
        e.client = cid.get();
        e.flags = flags;
        e.last_seen = node.last_left;
        e.by_xid = true;
        Entry& r = W->append(e);
        m = meta(r);
        sim::probe("by-xid");
        return P::success;
    }

    enum P::status SimProvider::bf_abort(wsrep::seqno bf, wsrep::transaction_id victim,
                                         wsrep::client_service&, wsrep::seqno& vs)
    {
        PTrx* p = find(victim.get());
        Node::Bf& b = node.bf[sim::current()];     // of this aborting thread
        ++b.calls;
        b.status = P::success;
        if (!p) return P::success;
        struct set { Node::Bf& b; enum P::status st; ~set() { b.status = st; } } set_ = { b, P::error_not_allowed };
        vs = p->seqno ? wsrep::seqno(p->seqno) : wsrep::seqno::undefined();
        if (p->replaying) return P::error_not_allowed;
        if (p->seqno && (p->flags & F::commit))
        {
            if (p->entered || p->left || p->cancelled) return P::error_not_allowed;
            if (p->seqno < bf.get()) return P::error_not_allowed;
            if (p->delivered && !W->at(p->seqno).cert_ok) return P::error_not_allowed;
        }
        p->must_abort = true;
        set_.st = P::success;
        for (Session* x : node.sessions) if (x->trx_id == p->id) x->bf_hit = p->id;
        node.mon_wq.wake_all();
        SIM_EV("n" << node.idx << " bf abort trx " << p->id << " by " << bf.get());
        return P::success;
    }

    enum P::status SimProvider::rollback(wsrep::transaction_id id)
    {
        if (!node.can_replicate() || (!W->trxs[id.get()].xa && sim::fault(W->cfg.f_rollback, "rollback-event-fails")))
        {
            SIM_EV("n" << node.idx << " rollback event for " << id.get() << " not sent");
            W->trxs[id.get()].rb_unsent = true;
            sim::probe("rollback-event-failed");
            for (Session* s : node.sessions) if (s->fiber == sim::current()) s->rb_failed = true;
            return sim::chance(0.3, "rb-status") ? P::error_provider_failed : P::error_connection_failed;
        }
        Entry e;
        e.kind = WS;
        e.origin = node.uuid;
        e.trx = id.get();
        e.flags = F::rollback | F::pa_unsafe;
        e.last_seen = node.last_left;
        W->append(e);
        return P::success;
    }

    enum P::status SimProvider::replay(const wsrep::ws_handle& h, wsrep::high_priority_service* hps)
    {
        const uint64_t id = h.transaction_id().get();
        PTrx* p = find(id);
        SIM_CHECK("C04", "replay-unordered", p && p->seqno && (p->flags & F::commit) && !p->left && !p->cancelled,
                  "trx " << id << " replayed but it has no open position");
        if (!p || !p->seqno) return P::error_fatal;
        TrxInfo& ti = W->trxs[id];
        ++ti.replays;
        SIM_CHECK("C04", "replayed-twice", ti.replays == 1, "trx " << id << " replayed " << ti.replays << " times");
        p->replaying = true;
        sim::probe("replay");
        const seq_t s = p->seqno;
        while (!(p->delivered && node.last_left == s - 1)) node.mon_wq.wait();
        race::scope in_provider(&node);
        const Entry e = W->at(s);
        if (!e.cert_ok)
        {
            sim::probe("replay-cert-failed");
            p->replaying = false;
            return P::error_certification_failed;
        }
        ApplyCtx c = { s, true, id };
        int ret = hps->apply(wsrep::ws_handle(wsrep::transaction_id(id), &c), meta(e),
                             wsrep::const_buffer(e.data.data(), e.data.size()));
        p = find(id);
        if (p) { p->replaying = false; p->left = node.last_left >= s; }
        if (ret)
        {
            sim::violation("C04,C01", "replay-failed", "replay of certified trx " + std::to_string(id) + " failed");
            return P::error_fatal;
        }
        SIM_CHECK("C04,C02", "replay-position-open", node.last_left >= s,
                  "replay of trx " << id << " succeeded but position " << s << " is not completed");
        return P::success;
    }

    // ---- total order isolation -------------------------------------------------
    enum P::status SimProvider::enter_toi(wsrep::client_id cid, const wsrep::key_array& keys,
                                          const wsrep::const_buffer& buf, wsrep::ws_meta& m, int flags)
    {
        sim::yield_point("enter_toi");
        Session* sess = 0;
        for (Session* s : node.sessions) if (s->cs->id().get() == cid.get()) sess = s;
        const bool nbo_end = !(flags & F::start_transaction);
        const wsrep::ws_meta in = m;
        m = wsrep::ws_meta();
        if (sess)
        {
            ++sess->toi_calls;
            if (sess->toi_calls > 1)
            {
                SIM_CHECK("C11,C12", "toi-retried-after-final-error",
                          sess->toi_last == P::error_certification_failed || sess->toi_last == P::error_connection_failed,
                          "entering isolation retried after " << wsrep::provider::to_string(sess->toi_last));
                SIM_CHECK("C11,C12", "toi-retried-after-deadline", sess->toi_deadline && sim::now() < sess->toi_deadline + 200000,
                          "entering isolation retried after its deadline");
                SIM_CHECK("C11,C12", "toi-retried-after-interrupt",
                          !(sess->interrupted && sim::now() > sess->int_time + 250000),
                          "entering isolation retried after the session was interrupted");
                sim::probe("toi-retry");
            }
        }
        struct last_st { Session* s; enum P::status st; ~last_st() { if (s) { s->toi_last = st; s->toi_ret = sim::now(); } } } ls = { sess, P::error_connection_failed };
        if (sim::fault(W->cfg.f_toi, "toi-error"))
        {
            static const enum P::status st[] = {
                P::error_certification_failed, P::error_connection_failed, P::error_provider_failed,
                P::error_not_allowed, P::error_size_exceeded };
            enum P::status r = st[sim::choose(5, "toi-status")];
            sim::note_fault(("enter_toi:" + wsrep::provider::to_string(r)).c_str());
            if (sess) sess->injected = r;
            ls.st = r;
            return r;
        }
        if (!node.can_replicate())
        {
            if (sess) sess->injected = P::error_connection_failed;
            return P::error_connection_failed;
        }
        seq_t s = 0;
        if (nbo_end)
        {
            const seq_t begin = in.seqno().get();
            SIM_CHECK("C12", "nbo-end-without-begin",
                      !in.seqno().is_undefined() && begin > 0 && begin <= W->last() &&
                      W->at(begin).kind == TOI && !(W->at(begin).flags & F::commit),
                      "end of non-blocking operation does not name the position of its begin: " << in.seqno().get());
            if (begin < 1 || begin > W->last()) return P::error_provider_failed;
            auto& calls = W->nbo_end_calls[begin];
            if (W->nbo_end_entry.count(begin))
            {
                if (sess) sess->injected = P::error_not_allowed;
                ls.st = P::error_not_allowed;
                sim::probe("nbo-end-late");
                return P::error_not_allowed;
            }
            SIM_CHECK("C12", "nbo-end-twice", calls.insert(node.uuid).second,
                      "node " << node.idx << " ends non-blocking operation " << begin << " twice");
            // The end event is ordered once every member takes part in it.
            while (true)
            {
                auto i = W->nbo_end_entry.find(begin);
                bool lost = false;       // ordered after this node was cut off
                if (i != W->nbo_end_entry.end())
                {
                    s = i->second;
                    if (s < node.cursor) lost = false;
                    else if (!node.np_points.empty()) lost = s > node.np_points.back();
                    else if (node.leaving) lost = node.leave_point < s;
                    else lost = !node.in_prim;
                    if (!lost) break;
                }
                if (lost || !node.can_replicate())
                {
                    calls.erase(node.uuid);
                    if (sess) sess->injected = P::error_connection_failed;
                    return P::error_connection_failed;
                }
                bool all = true;
                for (auto& n : W->nodes)
                    {
                    const auto& ms = W->at(begin).after->members;
                    if (n->up && n->connected && n->in_prim && n->st_pos < begin && std::find(ms.begin(), ms.end(), n->uuid) != ms.end() &&
                        !calls.count(n->uuid) && !W->nbo_gaveup[begin].count(n->uuid)) all = false;
                }
                if (all)
                {
                    Entry e;
                    e.kind = TOI;
                    e.origin = W->at(begin).origin;
                    e.trx = W->at(begin).trx;
                    e.client = W->at(begin).client;
                    e.flags = flags | F::isolation;
                    e.last_seen = node.last_left;
                    e.nbo_begin = begin;
                    s = W->append(e).seqno;
                    W->nbo_end_entry[begin] = s;
                    break;
                }
                W->log_wq.wait_for(10000);
            }
        }
        else
        {
            Entry e;
            e.kind = TOI;
            e.origin = node.uuid;
            e.trx = 0;
            e.client = cid.get();
            e.flags = flags | F::isolation;
            e.data.assign(buf.data(), buf.size());
            e.last_seen = node.last_left;
            for (auto& key : keys)
            {
                K k;
                k.excl = true;
                for (size_t i = 0; i < key.size(); ++i)
                    k.parts.push_back(std::string(key.key_parts()[i].data(), key.key_parts()[i].size()));
                e.keys.push_back(k);
            }
            if (sim::fault(W->cfg.f_toi, "toi-cert-fail-ordered")) e.cert_ok = false;
            // Whole operations and begins of non-blocking ones may fail, the
            // end of a non-blocking operation is not applied.
            if (e.cert_ok && sim::chance(0.1, "toi-fails-everywhere")) e.vote = 1;
            else if (e.cert_ok) fail_on_one_node(e);
            s = W->append(e).seqno;
        }
        const Entry r = W->at(s);
        node.local_toi.insert(s);
        node.recv_wq.wake_all();
        sim::yield_point("toi-replicated");
        while (!(node.cursor > s && node.appl_left >= s - 1)) node.mon_wq.wait();
        race::sync(&node);
        enter(s, 0);
        node.toi_open.insert(s);
        m = meta(r);
        if (sess) sess->toi_seqno = s;
        if (!r.cert_ok)
        {
            // Ordered, but without effect anywhere; the reason reported may differ.
            static const enum P::status st[] = { P::error_certification_failed, P::error_connection_failed,
                                                 P::error_provider_failed, P::error_not_allowed };
            const enum P::status f = st[sim::choose(4, "toi-ordered-status")];
            if (sess) sess->injected = f;
            sim::probe("toi-cert-failed");
            ls.st = f;
            return f;
        }
        ls.st = P::success;
        return P::success;
    }

    enum P::status SimProvider::leave_toi(wsrep::client_id cid, const wsrep::ws_meta& m, const wsrep::mutable_buffer& err)
    {
        race::scope in_provider(&node);
        sim::yield_point("leave_toi");
        const seq_t s = m.seqno().get();
        SIM_CHECK("C11,C12", "leave-toi-not-entered", node.toi_open.count(s) == 1,
                  "node " << node.idx << " leaves isolation at " << s << " which it is not in");
        if (!node.toi_open.erase(s)) return P::error_fatal;
        const Entry& e = W->at(s);
        SIM_CHECK("C11,C12", "leave-toi-identity", m.server_id() == e.origin && m.client_id().get() == e.client,
                  "isolation at " << s << " left with other identity than it was entered with");
        SIM_CHECK("C11,C21", "toi-vote-missing", e.vote != 1 || err.size() > 0,
                  "failed isolated operation " << s << " left without error");
        leave(s);
        complete(s);
        for (Session* q : node.sessions)
            if (q->cs->id().get() == cid.get() && q->leave_check)
                SIM_CHECK("C11,C12,C21", "toi-error-lost", std::string(err.data(), err.size()) == q->leave_err,
                          "isolated operation " << s << " left with error '" << std::string(err.data(), err.size())
                          << "' although it ended with '" << q->leave_err << "'");
        const bool lf = sim::fault(W->cfg.f_leave, "leave-toi-error");
        for (Session* q : node.sessions) if (q->cs->id().get() == cid.get()) q->leave_failed = lf;
        return lf ? P::error_provider_failed : P::success;
    }

    // ---- misc ---------------------------------------------------------------------
    std::pair<wsrep::gtid, enum P::status> SimProvider::causal_read(int timeout) const
    {
        race::scope in_provider(&node);
        sim::yield_point("causal");
        if (!node.can_replicate()) return std::make_pair(wsrep::gtid::undefined(), P::error_connection_failed);
        if (sim::fault(W->cfg.f_certify, "causal-error"))
            return std::make_pair(wsrep::gtid::undefined(),
                                  sim::chance(0.5, "x") ? P::error_not_implemented : P::error_connection_failed);
        const seq_t s = W->last();
        sim::usec_t dl = sim::now() + sim::usec_t(timeout) * 1000000;
        while (node.last_left < s)
        {
            if (sim::now() >= dl) return std::make_pair(wsrep::gtid::undefined(), P::error_connection_failed);
            node.mon_wq.wait_for(dl - sim::now());
        }
        return std::make_pair(gtid_of(node.last_left), P::success);
    }
    enum P::status SimProvider::wait_for_gtid(const wsrep::gtid&, int) const { return P::success; }
    wsrep::gtid SimProvider::last_committed_gtid() const { return gtid_of(node.last_left); }

    int SimProvider::desync()
    {
        sim::yield_point("desync");
        if (!node.can_replicate()) return 1;
        ++node.desyncs;
        return 0;
    }
    int SimProvider::resync()
    {
        sim::yield_point("resync");
        SIM_CHECK("C13", "resync-unbalanced", node.desyncs > 0, "resync without desync");
        if (node.desyncs > 0) --node.desyncs;
        if (node.desyncs == 0 && node.in_prim && node.joined) { node.sync_pending = true; node.recv_wq.wake_all(); }
        return 0;
    }
    wsrep::seqno SimProvider::pause()
    {
        sim::yield_point("pause");
        SIM_CHECK("C13", "pause-nested", !node.paused, "provider paused twice");
        node.paused = true;
        while (node.entered) node.mon_wq.wait();
        sim::probe("paused");
        return wsrep::seqno(node.last_left);
    }
    int SimProvider::resume()
    {
        sim::yield_point("resume");
        SIM_CHECK("C13", "resume-unbalanced", node.paused, "resume without pause");
        node.paused = false;
        node.mon_wq.wake_all();
        return 0;
    }

    // ---- group -----------------------------------------------------------------------
    enum P::status SimProvider::connect(const std::string&, const std::string&, const std::string&, bool bootstrap)
    {
        race::scope in_provider(&node);
        Node& n = node;
        SIM_CHECK("C14", "bootstrap-option", bootstrap == n.want_bootstrap, "node " << n.idx << " was asked to " << (n.want_bootstrap ? "bootstrap" : "join")
                  << " but provider is asked to " << (bootstrap ? "bootstrap" : "join"));
        char buf[32];
        snprintf(buf, sizeof(buf), "uuid-%02d-%08d", n.idx % 100, W->next_uuid++ % 100000000);
        n.uuid = wsrep::id(std::string(buf));
        W->uuid_node[n.uuid] = n.idx;
        n.connected = true;
        n.in_prim = false;
        n.fresh = true;
        n.joined = false;
        n.wait_st = false;
        n.leaving = false;
        n.leave_point = -1;
        n.final_done = false;
        n.np_points.clear();
        n.join_view = 0;
        n.st_pos = 0;
        n.trxs.clear();
        n.cancelled.clear();
        n.entered = 0;
        n.donating = false;
        n.sync_pending = false;
        n.cursor = n.store.position + 1;
        n.last_left = n.appl_left = n.store.position;
        n.appl_done.clear();
        W->recompute_groups("connect", bootstrap);
        return P::success;
    }
    int SimProvider::disconnect()
    {
        race::scope in_provider(&node);
        Node& n = node;
        sim::yield_point("disconnect");
        if (!n.connected || n.leaving) return 0;
        n.leaving = true;
        W->prim.erase(std::remove(W->prim.begin(), W->prim.end(), n.uuid), W->prim.end());
        if (n.in_prim) n.leave_point = W->last();
        else n.leave_point = n.np_points.empty() ? n.cursor - 1 : n.np_points.back();
        n.connected = false;
        n.in_prim = false;
        n.joined = false;
        n.sync_pending = false;
        n.donating = false;
        SIM_EV("node " << n.idx << " leaves after " << n.leave_point);
        W->recompute_groups("leave");
        n.recv_wq.wake_all();
        return 0;
    }

    void recv_fiber(Node& n)
    {
        while (true)
        {
            if (n.fresh && n.in_prim && n.join_view)
            {
                n.fresh = false;
                n.queue.push_back(Ev{EV_CONNECT, n.join_view, 0, 0});
                n.q_wq.wake_all();
                if (n.store.position + 1 != n.join_view)
                {
                    n.wait_st = true;
                    n.st_done = false;
                    n.queue.push_back(Ev{EV_JOIN_ST, n.join_view, 1, 0});
                    n.q_wq.wake_all();
                    while (!n.st_done) n.recv_wq.wait();
                    n.wait_st = false;
                }
                continue;
            }
            seq_t bound = n.cursor - 1;
            if (n.wait_st || n.fresh) bound = n.cursor - 1;
            else if (!n.np_points.empty()) bound = n.np_points.front();
            else if (n.leave_point >= 0) bound = n.leave_point;
            else if (n.in_prim) bound = W->last();
            if (n.cursor <= bound)
            {
                if (sim::chance(W->cfg.p_lag, "recv-lag")) { sim::sleep_us(sim::range(1, 10, "us") * 1000); continue; }
                const seq_t s = n.cursor++;
                const Entry& e = W->at(s);
                SIM_EV("n" << n.idx << " recv " << s);
                if (e.kind == WS && e.origin == n.uuid && !(e.flags & F::rollback) && !e.by_xid)
                {
                    PTrx* p = n.prov->find(e.trx);
                    if (p && p->seqno == s) p->delivered = true;
                    else if (!n.cancelled.count(s) && s > n.last_left)
                    {
                        // local transaction is gone but its position is open
                        n.queue.push_back(Ev{EV_ENTRY, s, 0, 0});
                    }
                    n.mon_wq.wake_all();
                }
                else if (e.kind == TOI && (n.local_toi.count(s) || (!e.cert_ok) || (e.origin == n.uuid && (e.flags & F::start_transaction))
                                           || (!(e.flags & F::start_transaction) && W->nbo_end_calls[e.nbo_begin].count(n.uuid))))
                {
                    const bool mine = (e.origin == n.uuid && (e.flags & F::start_transaction)) ||
                        (!(e.flags & F::start_transaction) && W->nbo_end_calls[e.nbo_begin].count(n.uuid));
                    if (!mine && !e.cert_ok) n.prov->cancel(s);
                    n.mon_wq.wake_all();
                }
                else
                {
                    n.queue.push_back(Ev{EV_ENTRY, s, 0, 0});
                }
                n.q_wq.wake_all();
                sim::yield_point("recv");
                continue;
            }
            if (!n.np_points.empty() && n.cursor > n.np_points.front())
            {
                n.np_points.pop_front();
                n.queue.push_back(Ev{EV_NONPRIM, 0, 0, n.cursor - 1});
                n.q_wq.wake_all();
                if (n.in_prim && n.np_points.empty() && n.join_view > n.cursor &&
                    sim::chance(0.5, "rejoin-st"))
                {
                    n.wait_st = true;
                    n.st_done = false;
                    n.queue.push_back(Ev{EV_JOIN_ST, n.join_view, 0, 0});
                    while (!n.st_done) n.recv_wq.wait();
                    n.wait_st = false;
                }
                continue;
            }
            if (n.leave_point >= 0 && n.cursor > n.leave_point)
            {
                n.leave_point = -1;
                n.queue.push_back(Ev{EV_FINAL, 0, 0, n.cursor - 1});
                n.q_wq.wake_all();
                continue;
            }
            if (n.sync_pending && n.in_prim && n.joined && !n.donating && n.cursor > W->last())
            {
                n.sync_pending = false;
                n.queue.push_back(Ev{EV_SYNC, 0, 0, n.cursor - 1});
                n.q_wq.wake_all();
                continue;
            }
            n.recv_wq.wait();
        }
    }

    enum P::status SimProvider::run_applier(wsrep::high_priority_service* h)
    {
        Hps& hps = *static_cast<Hps*>(h);
        Node& n = node;
        ++n.appliers_running;
        while (true)
        {
            while ((n.queue.empty() || n.barrier) && !n.final_done) n.q_wq.wait();
            if (n.final_done) break;
            Ev ev = n.queue.front();
            n.queue.pop_front();
            const bool bar = ev.kind != EV_ENTRY;
            if (bar) n.barrier = true;
            else ++n.in_flight;
            if (bar)
            {
                // unordered event: everything before it must be done first
                while (n.in_flight || (ev.kind != EV_DONATE && ev.kind != EV_CONNECT && ev.kind != EV_JOIN_ST &&
                                       n.appl_left < ev.upto)) n.mon_wq.wait();
            }
            process(ev, hps);
            if (bar) n.barrier = false;
            else --n.in_flight;
            n.q_wq.wake_all();
            n.mon_wq.wake_all();
            if (hps.must_exit() || n.final_done) break;
        }
        --n.appliers_running;
        n.q_wq.wake_all();
        n.misc_wq.wake_all();
        return P::success;
    }

    bool SimProvider::apply_fails_here(const Entry& e) const
    {
        if (!e.cert_ok || (e.flags & F::rollback) || e.kind == VIEW) return false;
        const bool gone = e.kind == WS && !(e.flags & F::start_transaction) &&
            !W->at(e.seqno - 1).after->live.count(SrKey(e.origin, e.trx));
        const bool nbo = e.kind == TOI && !(e.flags & F::start_transaction);
        return !gone && !nbo && (e.vote == 1 || e.err_node == node.idx);
    }
    void SimProvider::apply_entry(const Entry& e, Hps& hps)
    {
        ApplyCtx* c = new ApplyCtx{ e.seqno, false, e.trx };
        while (node.appl_left < e.depends_on || node.inconsistent) node.mon_wq.wait();
        race::sync(&node);
        sim::yield_point("apply");
        Entry d(e);
        if (e.kind == WS && !e.cert_ok) d.flags |= F::rollback;
        const uint64_t me = sim::fiber_id(sim::current());
        node.applying[me] = false;
        int ret = hps.apply(wsrep::ws_handle(wsrep::transaction_id(e.trx), c), meta(d),
                            wsrep::const_buffer(d.data.data(), d.data.size()));
        const bool rb_failed = node.applying[me];
        node.applying.erase(me);
        SIM_EV("n" << node.idx << " applied " << e.seqno << " ret=" << ret);
        if (rb_failed)
        {
            SIM_CHECK("C21", "apply-error-lost", ret != 0, "node " << node.idx << " position " << e.seqno
                      << ": an operation of the applier failed but applying reports success");
            crash_node(node, "apply failure");
            sim::yield_point("dead");
            return;
        }
        complete(e.seqno);
        // Expected result of applying.
        const bool fails = apply_fails_here(e);      // apply error was injected here
        bool confirmed = fails && e.vote == 1 && !e.err_empty;
        if (!fails)
        {
            SIM_CHECK("C21,C02,C06", "apply-spurious-error", ret == 0,
                      "node " << node.idx << " position " << e.seqno << " flags " << e.flags
                      << " applied without error but applier reports failure " << ret);
        }
        else if (confirmed)
        {
            sim::probe("apply-error-confirmed");
            SIM_CHECK("C21", "apply-confirmed-error-reported", ret == 0,
                      "node " << node.idx << " position " << e.seqno
                      << ": error was confirmed by voting but applier reports failure");
        }
        else
        {
            sim::probe("apply-error");
            SIM_CHECK("C21", "apply-error-lost", ret != 0,
                      "node " << node.idx << " position " << e.seqno
                      << ": apply error not confirmed by voting but applier reports success");
        }
        SIM_CHECK("C21,C02,C11", "apply-position-open", node.last_left >= e.seqno,
                  "node " << node.idx << " position " << e.seqno << " flags " << e.flags
                  << " applied (ret " << ret << ") but its position is not completed");
        if (ret != 0 || fails) node.check_after_error(e);
        if (ret != 0)
        {
            crash_node(node, "apply failure");
            sim::yield_point("dead");
        }
    }

    void SimProvider::deliver_view(const Entry& e, Hps& hps)
    {
        race::scope in_provider(&node);
        while (node.appl_left < e.seqno - 1) node.mon_wq.wait();
        enter(e.seqno, 0);
        const bool member = std::find(e.members.begin(), e.members.end(), node.uuid) != e.members.end();
        SIM_EV("n" << node.idx << " on_view " << e.seqno << " member=" << member);
        try
        {
            server_state_.on_view(make_view(e, node.uuid), &hps);
        }
        catch (const wsrep::runtime_error& err)
        {
            SIM_EV("n" << node.idx << " on_view failed: " << err.what());
            SIM_CHECK("C08,C14", "view-failed", node.leaving || !node.connected,
                      "view delivery failed: " << err.what());
        }
        node.view_check(e);
        leave(e.seqno);
        complete(e.seqno);
        if (member && e.seqno >= node.join_view && node.in_prim)
        {
            node.joined = true;
            node.sync_pending = true;
            node.recv_wq.wake_all();
        }
    }

    void spawn_sst(Node& joiner, bool rejoin, bool fresh);

    void SimProvider::process(const Ev& ev, Hps& hps)
    {
        race::scope in_provider(&node);
        Node& n = node;
        switch (ev.kind)
        {
        case EV_ENTRY:
        {
            const Entry e = W->at(ev.seqno);
            if (e.kind == VIEW) deliver_view(e, hps);
            else apply_entry(e, hps);
            break;
        }
        case EV_CONNECT:
            SIM_EV("n" << n.idx << " on_connect " << ev.seqno);
            server_state_.on_connect(make_view(W->at(ev.seqno), n.uuid));
            break;
        case EV_NONPRIM:
        {
            SIM_EV("n" << n.idx << " nonprim view");
            std::vector<wsrep::view::member> ms;
            ms.push_back(wsrep::view::member(n.uuid, "n", "a"));
            wsrep::view v(wsrep::gtid::undefined(), wsrep::seqno::undefined(), wsrep::view::non_primary, 0, 0, 1, ms);
            server_state_.on_view(v, &hps);
            sim::probe("nonprim-view");
            break;
        }
        case EV_FINAL:
        {
            SIM_EV("n" << n.idx << " final view");
            bool disc = sim::chance(0.3, "final-disc");
            wsrep::view v(wsrep::gtid::undefined(), wsrep::seqno::undefined(),
                          disc ? wsrep::view::disconnected : wsrep::view::non_primary, 0, -1, 1,
                          std::vector<wsrep::view::member>());
            server_state_.on_view(v, &hps);
            n.final_check();
            n.final_done = true;
            n.q_wq.wake_all();
            break;
        }
        case EV_SYNC:
            SIM_EV("n" << n.idx << " on_sync");
            server_state_.on_sync();
            n.misc_wq.wake_all();
            break;
        case EV_JOIN_ST:
        {
            SIM_EV("n" << n.idx << " state transfer");
            server_state_.prepare_for_sst();
            spawn_sst(n, ev.arg == 0, true);
            // as the real provider, the receiving thread waits for the end of SST
            while (!n.st_done) n.misc_wq.wait();
            n.recv_wq.wake_all();
            break;
        }
        case EV_DONATE:
        {
            Node& j = *W->nodes[size_t(ev.arg)];
            SIM_EV("n" << n.idx << " donate to " << j.idx);
            const int attempt = int(ev.upto);
            if (j.st_attempt != attempt) { n.donating = false; break; }      // joiner is gone
            if (!n.in_prim || !n.joined || !n.donating) { j.donor_failed = true; j.misc_wq.wake_all(); n.donating = false; break; }
            n.donate_to = j.idx;
            n.donate_attempt = attempt;
            if (server_state_.start_sst("req", gtid_of(ev.seqno), j.st_bypass))
            {
                SIM_EV("n" << n.idx << " start_sst failed");
                n.donating = false;
                n.sync_pending = true;
                n.recv_wq.wake_all();
                if (j.st_attempt == attempt) j.donor_failed = true;
                j.misc_wq.wake_all();
            }
            break;
        }
        }
    }

    enum P::status SimProvider::sst_sent(const wsrep::gtid& g, int err)
    {
        SIM_EV("n" << node.idx << " sst_sent err=" << err);
        ++node.sst_sent_calls;
        node.sst_sent_err = err;
        node.sst_sent_gtid = g.seqno().get();
        if (node.donating)
        {
            node.donating = false;
            if (node.in_prim) { node.sync_pending = true; node.recv_wq.wake_all(); }
        }
        return P::success;
    }
    enum P::status SimProvider::sst_received(const wsrep::gtid& g, int err)
    {
        race::scope in_provider(&node);
        Node& n = node;
        SIM_EV("n" << n.idx << " sst_received " << g.seqno().get() << " err=" << err);
        ++n.sst_received_calls;
        SIM_CHECK("C15", "sst-received-twice", n.sst_received_calls == 1, "result of one state transfer reported twice");
        if (err) { n.sst_received_err = err; SIM_CHECK("C15", "sst-failed-position", g.is_undefined(), "failed state transfer reported a position"); return P::success; }
        SIM_CHECK("C15", "sst-position", !g.is_undefined() && g.seqno().get() == n.store.position,
                  "state transfer reported position " << g.seqno().get() << ", recovered is " << n.store.position);
        if (!n.connected) return P::error_connection_failed;
        if (!n.st_bypass)
        {
            n.cursor = n.store.position + 1;
            n.last_left = n.appl_left = n.store.position;
            n.appl_done.clear();
            n.cancelled.clear();
        }
        if (n.store.position >= n.join_view)
        {
            n.joined = true;
            n.sync_pending = true;
        }
        if (!n.st_bypass) n.st_pos = n.store.position;
        n.mon_wq.wake_all();
        return P::success;
    }
}
