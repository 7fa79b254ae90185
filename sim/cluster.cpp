// Client sessions, fault schedule and end of run checks of the cluster world.
#include "world.hpp"
#include "report.hpp"
#include <algorithm>
#include <chrono>

namespace w
{
    typedef wsrep::transaction T;
    typedef wsrep::client_state CS;

    void violation_internal(const char* what)
    {
        sim::fatal_violation("internal", what);
    }

    Session::Session(Node& n) : node(n), svc(n), cs(0)
    {
        cs = new Cs(n, *n.ss, svc, ++W->next_client, CS::m_local);
        svc.cs = cs;
        svc.s = this;
        cs->session = this;
    }
    void Session::interrupt()
    {
        interrupted = true;
        int_time = sim::now();
        wq.wake_all();
        node.locks->wq.wake_all();
    }
    void Session::reset_trx()
    {
        injected = P::success;
        injected_frag = false;
        injected_err = wsrep::e_success;
        cert_failed = rb_failed = conn_failed = stmt_refused = dbms_error = false;
        unit_count = 0;
        frag_expect_pos = 0;
        hold_rows = false;
        no_stream_stmt = false;
        will_replays = 0;
        replay_trx = 0;
        explicit_xa = prepared_xa = xa_rollback = xa_broken = false;
        xid.clear();
    }

    void Session::lw_check(const char* what)
    {
        const wsrep::gtid& g = cs->last_written_gtid();
        const seq_t v = g.is_undefined() ? 0 : g.seqno().get();
        SIM_CHECK("C19", "last-written-backwards", v >= lw,
                  "session " << cs->id().get() << " last written position went from " << lw << " to " << v);
        SIM_CHECK("C19", "last-written", v == expect_lw || cs->transaction().active(),
                  "session " << cs->id().get() << " after " << what << " reports last written " << v
                  << ", its latest write took position " << expect_lw);
        lw = v;
    }

    void Session::after_stmt()
    {
        const uint64_t id = cur;
        const bool active = cs->transaction().active();
        cs->after_statement();
        SIM_CHECK("C16,C03", "abort-not-reported", !(id && active && bf_hit == id && !xid.size() && !cs->transaction().active() && !W->model.committed.count(id)) ||
                  cs->current_error() != wsrep::e_success,
                  "transaction " << id << " was aborted, its statement ends without error");
    }

    // One client command through all hooks, then what the client sees.
    void Session::command(bool silent, std::function<void()> body)
    {
        const uint64_t open_trx = cur;
        const bool was_active = cs->transaction().active();
        in_cmd = true;
        sim::yield_point("command");
        if (sim::chance(0.15, "acquire-first"))
        {
            cs->wait_rollback_complete_and_acquire_ownership();
            SIM_CHECK("C17", "command-during-rollback", !cs->rb_active && cs->state() == CS::s_exec,
                      "session " << cs->id().get() << " acquired while its transaction is rolled back in background");
            set_ctx(cs);
            sim::probe("ownership-acquired-before-command");
            sim::yield_point("acquired");
        }
        int r = cs->before_command(silent);
        ctx_check(cs, "begin of command");
        SIM_CHECK("C17", "command-during-rollback", !cs->rb_active,
                  "session " << cs->id().get() << " starts a command while its transaction is rolled back in background");
        SIM_CHECK("C16", "stale-error", r || silent || cs->current_error() == wsrep::e_success,
                  "session " << cs->id().get() << " new command starts with error " << wsrep::to_string(cs->current_error()));
        SIM_CHECK("C16,C03", "silent-abort", !(r && !silent && open_trx && !xid.size()) || cs->current_error() == wsrep::e_deadlock_error,
                  "transaction " << open_trx << " was aborted but next command reports "
                  << wsrep::to_string(cs->current_error()));
        SIM_CHECK("C16", "command-refused", !r || (was_active && (bf_hit || xid.size())),
                  "command refused although no transaction of the session was aborted");
        if (r && !silent && xid.size()) dbms_error = true;
        if ((r == 0 || (xa_rollback && cs->transaction().active())) && !silent && body)
        {
            if (cs->before_statement() == 0 || xa_rollback)
            {
                stmt_done = false;
                body();
                if (stmt_done) { }
                else if (cs->transaction().active() || sim::chance(0.3, "after-stmt")) after_stmt();
            }
            else
                SIM_CHECK("C16", "statement-refused", bf_hit && bf_hit == open_trx,
                          "statement refused although transaction was not aborted");
        }
        ctx_check(cs, "end of command");
        cs->after_command_before_result();
        ctx_check(cs, "result of command");
        const enum wsrep::client_error err = cs->current_error();
        const enum P::status st = cs->current_error_status();
        if (!silent)
        {
            const bool commit = open_trx == 0 ? cur == 0 : (W->trxs[open_trx].commit_requested);
            result(err, st, commit);
        }
        lw_check("command");
        sim::yield_point("result");
        cs->after_command_after_result();
        SIM_CHECK("C19", "causal-leftover", cs->sync_wait_gtid().is_undefined(), "causal position kept after command");
        SIM_CHECK("C16", "idle-state", cs->state() == CS::s_idle, "session is not idle after its command");
        SIM_CHECK("C11,C12,C13", "idle-mode", cs->mode() == CS::m_local, "session is idle in mode " << cs->mode());
        in_cmd = false;
        if (!quit) interrupted = false;
    }

    // Verdict as seen by the client.
    void Session::result(enum wsrep::client_error err, enum P::status st, bool)
    {
        if (!cur) return;
        if (xid.size()) { xa_result(err, st); return; }
        TrxInfo& ti = W->trxs[cur];
        const T& t = cs->transaction();
        const bool active = t.active() && t.id().get() == cur;
        if (err == wsrep::e_success && !dbms_error)
        {
            if (ti.commit_requested)
            {
                ti.claim = C_COMMITTED;
                SIM_EV("n" << node.idx << " trx " << cur << " committed");
                SIM_CHECK("C01,C16", "false-commit", !ti.wrote || W->model.committed.count(cur),
                          "client was told that transaction " << cur << " committed but it is not in the replication order");
                SIM_CHECK("C01,C16", "commit-not-local", !ti.wrote || node.store.committed.count(cur),
                          "client was told that transaction " << cur << " committed but node " << node.idx << " does not have it");
                SIM_CHECK("C03,C04", "abort-lost", !ti.bf_won || ti.replays == 1 || !ti.wrote,
                          "transaction " << cur << " was aborted, yet it committed without replay");
                SIM_CHECK("C04", "replay-missing", !ti.replay_wanted || ti.replays == 1,
                          "transaction " << cur << " was announced for replay but replayed " << ti.replays << " times");
                SIM_CHECK("C16", "transaction-open", !active, "transaction " << cur << " still open after commit");
                if (ti.replays) sim::probe("replayed-commit");
                W->max_claimed = std::max(W->max_claimed, ti.commit_seqno);
                cur = 0;
            }
            else
            {
                SIM_CHECK("C16,C01", "success-after-rollback", active || !ti.wrote,
                          "statement of transaction " << cur << " reported success but the transaction is gone");
                if (!active) cur = 0;
            }
            return;
        }
        // failure
        if (err != wsrep::e_success) check_cause(err, st);
        SIM_CHECK("C16", "error-but-open", !active, "client was told that transaction " << cur << " failed but it is still open");
        if (active) return;
        ti.claim = C_FAILED;
        SIM_EV("n" << node.idx << " trx " << cur << " failed " << wsrep::to_string(err));
        SIM_CHECK("C01,C16", "false-failure", !W->model.committed.count(cur),
                  "client was told that transaction " << cur << " failed but it is committed at " << ti.commit_seqno);
        SIM_CHECK("C17,C03,C02", "locks-after-rollback", !cs->se.active && cs->se.locks.empty() && cs->se.mdl.empty(),
                  "rolled back transaction " << cur << " still holds locks");
        cur = 0;
    }

    void Session::check_cause(enum wsrep::client_error err, enum P::status st)
    {
        {
            std::set<int> ok;
            bool only_dl = true;
            if (bf_hit == cur) ok.insert(wsrep::e_deadlock_error);
            if (cert_failed) ok.insert(wsrep::e_deadlock_error);
            if (injected != P::success)
            {
                if (injected_frag)
                {
                    ok.insert(injected == P::error_size_exceeded ? wsrep::e_size_exceeded_error : wsrep::e_deadlock_error);
                }
                else
                {
                    ok.insert(wsrep::e_error_during_commit);
                    SIM_CHECK("C16", "error-status", err != wsrep::e_error_during_commit || st == injected || injected_err != wsrep::e_success || stmt_refused,
                              "commit of " << cur << " failed in provider with " << wsrep::provider::to_string(injected)
                              << " but client sees " << wsrep::provider::to_string(st));
                }
                only_dl = false;
            }
            if (stmt_refused) { ok.insert(wsrep::e_error_during_commit); only_dl = false; }
            if (injected_err != wsrep::e_success) { ok.insert(injected_err); only_dl = false; }
            if (conn_failed || !node.connected) ok.insert(wsrep::e_append_fragment_error);
            if (int_time) ok.insert(wsrep::e_interrupted_error);
            if (rb_failed) { ok.insert(wsrep::e_deadlock_error); ok.insert(wsrep::e_error_during_commit); }
            (void)only_dl;
            SIM_CHECK("C16,C03", "wrong-error", ok.count(err) || (dbms_error && ok.empty()),
                      "transaction " << cur << " failed with " << wsrep::to_string(err) << " status "
                      << wsrep::provider::to_string(st) << " without a cause for it (bf " << (bf_hit == cur)
                      << " cert " << cert_failed << " injected " << injected << "/" << injected_frag << "/" << injected_err << ")");
            if (bf_hit == cur) sim::probe("client-deadlock");
        }
    }

    void Session::streaming_setup()
    {
        if (sim::chance(W->cfg.p_stream, "stream"))
        {
            static const enum wsrep::streaming_context::fragment_unit u[] = {
                wsrep::streaming_context::bytes, wsrep::streaming_context::row, wsrep::streaming_context::statement };
            static const size_t sz[3][4] = { { 1, 12, 30, 60 }, { 1, 1, 2, 3 }, { 1, 1, 2, 2 } };
            const uint32_t k = sim::choose(3, "unit");
            stream_unit = int(k);
            stream_size = sz[k][sim::choose(4, "fsize")];
            int r = cs->enable_streaming(u[k], stream_size);
            SIM_CHECK("C05", "enable-streaming", r == 0, "streaming could not be enabled");
        }
        else
        {
            stream_size = 0;
            if (cs->transaction().streaming_context().fragment_size()) cs->disable_streaming();
        }
    }
    bool Session::begin()
    {
        reset_trx();
        bf_hit = 0;
        cleaned = false;
        int_time = interrupted ? int_time : 0;
        trx_id = ++W->next_trx;
        cur = trx_id;
        TrxInfo& ti = W->trxs[cur];
        ti.id = cur; ti.node = node.idx; ti.inc = node.inc;
        binlog.clear();
        held.clear();
        streaming_setup();
        if (sim::chance(0.3, "hold-rows")) hold_rows = true;
        cs->start_transaction(wsrep::transaction_id(trx_id));
        cs->se.begin(&node, cs, false, false);
        if (W->cfg.f_prepare > 0 && stream_size && sim::fault(W->cfg.f_prepare, "not-streamable-commit")) no_stream_stmt = true;
        SIM_EV("n" << node.idx << " c" << cs->id().get() << " begin " << cur << " unit " << stream_unit << " size " << stream_size);
        return true;
    }
    // Is a fragment due at this point? Mirrors the documented granularity.
    bool Session::step_expect(int unit)
    {
        nothing_step = false;
        if (!stream_size) return false;
        const bool stmt = stream_unit == 2;
        if ((unit == 2) != stmt) return false;
        const size_t bytes = binlog.size() + held.size() - frag_expect_pos;
        if (stream_unit == 0) unit_count = bytes;
        else ++unit_count;
        if (bytes == 0) return false;
        if (unit_count >= stream_size)
        {
            unit_count = 0;
            if (binlog.size() == frag_expect_pos) { sim::probe("nothing-to-replicate"); nothing_step = true; return false; }
            frag_expect_pos = binlog.size();
            return true;
        }
        return false;
    }

    void Session::do_rollback()
    {
        if (cs->transaction().active() && cs->transaction().state() != T::s_aborted)
        {
            sim::yield_point("rollback");
            cs->before_rollback();
            cs->se.rollback();
            cs->after_rollback();
            cs->se.end();
        }
    }

    int Session::row_step()
    {
        TrxInfo& ti = W->trxs[cur];
        const int before = ti.frags;
        const bool expect = step_expect(1);
        const int ret = cs->after_row();
        SIM_CHECK("C05", "fragment-cadence", ret != 0 || ti.frags - before == (expect ? 1 : 0),
                  "trx " << cur << " row step replicated " << (ti.frags - before) << " fragments, expected "
                  << expect << " (unit " << stream_unit << " size " << stream_size << ")");
        SIM_CHECK("C05,C16", "row-error", ret == 0 || expect || nothing_step, "trx " << cur << " row step failed without replicating");
        return ret;
    }
    int Session::statement()
    {
        TrxInfo& ti = W->trxs[cur];
        if (W->cfg.p_causal > 0.1 && sim::chance(W->cfg.p_causal / 3, "causal-in-trx"))
        {
            // wait before the statement of an open transaction
            const seq_t floor = W->max_claimed;
            if (cs->sync_wait(1)) cs->reset_error();
            else
            {
                const wsrep::gtid& g = cs->sync_wait_gtid();
                SIM_CHECK("C19", "causal-read", !g.is_undefined() && g.seqno().get() >= floor && node.last_left >= g.seqno().get(),
                          "causal read returned " << g.seqno().get() << " but position " << floor << " was committed before");
                sim::probe("causal-read-in-transaction");
            }
        }
        if (sim::chance(0.08, "stream-change") && !xid.size())
        {
            const bool streaming = cs->transaction().is_streaming();
            if (streaming && sim::chance(0.4, "unit-change"))
            {
                static const enum wsrep::streaming_context::fragment_unit u[] = {
                    wsrep::streaming_context::bytes, wsrep::streaming_context::row, wsrep::streaming_context::statement };
                int r = cs->enable_streaming(u[(stream_unit + 1) % 3], 1);
                SIM_CHECK("C05", "unit-changed-in-stream", r != 0 &&
                          cs->transaction().streaming_context().fragment_unit() == u[stream_unit] &&
                          cs->transaction().streaming_context().fragment_size() == stream_size,
                          "fragment unit changed inside a streaming transaction");
                sim::probe("unit-change-refused");
            }
            else if (stream_size)
            {
                stream_size = 1 + sim::choose(3, "new-size");
                cs->enable_streaming(cs->transaction().streaming_context().fragment_unit(), stream_size);
                sim::probe("fragment-size-change");
            }
        }
        const uint32_t rows = 1 + sim::choose(3, "rows");
        const int t = int(sim::choose(uint32_t(W->cfg.tables), "table"));
        int ret = 0;
        const int stmt_frags = ti.frags;
        const size_t stmt_log = binlog.size(), stmt_full = ti.full.size();
        const std::string stmt_held = held;
        const auto stmt_writes = cs->se.writes;
        const auto stmt_locks = cs->se.locks;
        const bool stmt_wrote = ti.wrote;
        SIM_CHECK("C05", "statement-fragments", cs->transaction().fragments_certified_for_statement() == 0,
                  "trx " << cur << " statement starts with fragments already counted for it");
        for (uint32_t i = 0; i < rows && !ret; ++i)
        {
            if (hold_rows && ti.wrote && sim::chance(0.3, "idle-row"))
            {
                // row left as it was; an event may have been opened but cannot be replicated yet
                if (sim::chance(0.7, "event-opened")) held += "C ";
                ret = row_step();
                sim::probe("idle-row");
                if (ret)
                {
                    if (sim::chance(0.5, "row-rollback") && !(xid.size() && cs->transaction().is_streaming())) do_rollback();
                    break;
                }
            }
            Op o;
            o.t = xid.size() || (W->cfg.p_xa > 0 && sim::chance(0.5, "xa-table")) ? 50 : t;
            o.r = int(sim::choose(uint32_t(W->cfg.rows), "row"));
            o.val = int64_t(++W->next_val);
            if (sim::chance(W->cfg.p_gap, "gap")) o.gap = int(sim::choose(2, "gapno"));
            sim::yield_point("row");
            int r = cs->se.write(o, true);
            if (r)
            {
                SIM_EV("n" << node.idx << " trx " << cur << " row write " << r);
                SIM_CHECK("C05", "statement-fragments", cs->transaction().state() != T::s_executing ||
                          cs->transaction().fragments_certified_for_statement() == size_t(ti.frags - stmt_frags),
                          "trx " << cur << " replicated " << (ti.frags - stmt_frags) << " fragments in the statement but the session counts "
                          << cs->transaction().fragments_certified_for_statement());
                if (r == 2 && cs->transaction().state() == T::s_executing && !flushing && sim::chance(0.7, "statement-rollback") &&
                    cs->transaction().fragments_certified_for_statement() == 0)
                {
                    // the statement fails and is undone, transaction goes on
                    binlog.resize(stmt_log);
                    held = stmt_held;
                    ti.full.resize(stmt_full);
                    ti.wrote = stmt_wrote;
                    cs->se.writes = stmt_writes;
                    // (locks without changes must not stay with prepared transaction: other nodes do not know about them)
                    if (xid.size() || sim::chance(0.5, "release-locks")) node.locks->keep_rows(cs->se, stmt_locks);
                    sim::probe("statement-rollback");
                    break;
                }
                dbms_error = true;
                if (r == 2) sim::probe("lock-timeout");
                ret = 1;
                if (r != 1 || sim::chance(0.5, "se-rollback")) { if (!xid.size() || !cs->transaction().is_streaming()) do_rollback(); }
                break;
            }
            // value read under the row lock
            auto j = node.store.rows.find(std::make_pair(o.t, o.r));
            o.old = j == node.store.rows.end() ? 0 : j->second;
            for (auto& q : dec(binlog)) if (q.t == o.t && q.r == o.r) o.old = q.val;
            const std::vector<std::string> kp = key_parts(o.t, o.r);
            const wsrep::key key(make_key(kp));
            wsrep::key_array keys;
            keys.push_back(key);
            const std::vector<std::string> kp2 = key_parts(o.t, 100 + o.r);
            const bool two = sim::chance(0.3, "append-keys");
            if (two) keys.push_back(make_key(kp2));         // (secondary index)
            append_failed = false;
            row_append = true;
            ret = two ? cs->append_keys(keys) : cs->append_key(key);
            row_append = false;
            SIM_CHECK("C16", "append-key-error", bool(ret) == append_failed, "failure to append a key is not told to caller");
            if (ret)
            {
                dbms_error = true;
                do_rollback();
                sim::probe("append-key-failed");
                break;
            }
            binlog += held + enc(o);
            ti.full += held + enc(o);
            held.clear();
            ti.wrote = true;
            ret = row_step();
            if (ret)
            {
                if (sim::chance(0.5, "row-rollback") && !(xid.size() && cs->transaction().is_streaming())) do_rollback();
            }
        }
        if (ret == 0 && stream_size && stream_unit == 2)
        {
            // statement unit: replicated by after_statement()
            frag_now = step_expect(2);
            frags_before = ti.frags;
            const uint64_t id = cur;
            stmt_done = true;
            after_stmt();
            const bool alive = cs->transaction().active() && cs->transaction().id().get() == id && cs->transaction().state() == T::s_executing;
            if (alive)
                SIM_CHECK("C05", "fragment-cadence", W->trxs[id].frags - frags_before == (frag_now ? 1 : 0),
                          "trx " << id << " statement replicated " << (W->trxs[id].frags - frags_before)
                          << " fragments, expected " << frag_now << " (size " << stream_size << ")");
        }
        return ret;
    }

    int Session::do_commit()
    {
        TrxInfo& ti = W->trxs[cur];
        ti.commit_requested = true;
        const uint64_t id = cur;
        if (!ti.wrote)
        {
            do_rollback();
            return 0;
        }
        if (no_stream_stmt && cs->transaction().is_streaming()) stmt_refused = true;
        int ret = 0;
        const P::seq_cb_t cb = { this, [](void* ctx) { ++static_cast<Session*>(ctx)->cb_calls; } };
        cb_given = sim::chance(0.3, "seq-callback");
        cb_calls = cb_want = 0;
        if (W->cfg.two_pc)
        {
            ret = cb_given ? cs->before_prepare(&cb) : cs->before_prepare();
            if (!ret)
            {
                if (sim::chance(W->cfg.p_slowprep, "se-prepare-slow")) sim::sleep_us(1000 * sim::range(1, 12, "se-prepare-ms"));
                else sim::yield_point("se-prepare");
                ret = cs->after_prepare();
            }
            if (!ret && sim::chance(W->cfg.p_slowprep, "group-commit-wait")) sim::sleep_us(1000 * sim::range(1, 12, "group-commit-ms"));
        }
        // storage engine notices the abort before anything is committed
        if (!ret && cs->transaction().state() == T::s_must_abort && sim::chance(0.5, "abort-noticed")) { ret = 1; sim::probe("abort-noticed"); }
        if (!ret) ret = cb_given ? cs->before_commit(&cb) : cs->before_commit();
        SIM_CHECK("C02", "position-callback", !W->seq_cb || cb_calls == (cb_given && !xid.size() ? cb_want : 0) || xid.size(),
                  "transaction " << id << ": callback for ordering called " << cb_calls << " times, expected " << cb_want);
        if (cb_calls) sim::probe("position-callback");
        cb_given = false;
        if (!ret)
        {
            const seq_t s = cs->transaction().ws_meta().seqno().get();
            cs->se.commit(s, id);
            ret = cs->ordered_commit();
            if (!ret) ret = cs->after_commit();
            cs->se.end();
            SIM_CHECK("C02,C01", "ordered-commit-failed", ret == 0, "transaction " << id << " failed after it was ordered");
            return 0;
        }
        if (!(xid.size() && cs->transaction().state() == T::s_prepared)) do_rollback();
        return ret;
    }

    void Session::think()
    {
        sim::usec_t us = 1;
        if (sim::chance(W->cfg.p_think, "think")) us = 1000 * sim::range(1, 30, "think-ms");
        wq.wait_for(us);
        if (!W->cfg.rb_sync && cs->transaction().active() && cs->transaction().state() == T::s_must_abort &&
            sim::chance(0.8, "async-wake"))
        {
            sim::probe("async-rollback");
            command(true, nullptr);
        }
        if (sim::chance(W->cfg.p_silent, "silent")) { sim::probe("silent-command"); command(true, nullptr); }
    }

    void Session::transaction()
    {
        const uint32_t stmts = 1 + sim::choose(4, "stmts");
        for (uint32_t i = 0; i < stmts; ++i)
        {
            command(false, [&]
            {
                if (!cur) begin();
                statement();
            });
            if (!cur) return;
            if (quit && sim::chance(0.5, "quit-now")) return;
            think();
            if (sim::chance(W->cfg.p_close, "close-mid-trx")) { quit = true; return; }
        }
        if (sim::chance(W->cfg.p_rollback, "rollback"))
        {
            command(false, [&] { dbms_error = true; do_rollback(); });
        }
        else command(false, [&] { do_commit(); });
    }

    void Session::close_session()
    {
        const uint64_t id = cur;
        sim::yield_point("close");
        cs->close();
        SIM_CHECK("C17", "close-during-rollback", !cs->rb_active, "session closed while its transaction is rolled back in background");
        if (prepared_xa && cs->transaction().active()) { cs->xa_detach(); sim::probe("xa-detach-close"); }
        SIM_CHECK("C17,C16", "close-open-transaction", !cs->transaction().active(), "transaction open after session close");
        cs->cleanup();
        cs->se.end();
        if (id && xid.size())
        {
            TrxInfo& ti = W->trxs[id];
            ti.xa_attached = false;
            if (!ti.xa_prepared && ti.claim == C_UNKNOWN) { ti.claim = C_FAILED; ti.xa_verdict = 2; }
        }
        if (id && !xid.size())
        {
            TrxInfo& ti = W->trxs[id];
            if (ti.claim == C_UNKNOWN && !ti.commit_requested)
            {
                ti.claim = C_FAILED;
                SIM_CHECK("C01", "ghost-commit", !W->model.committed.count(id), "transaction " << id << " of closed session committed");
            }
        }
        lw_check("close");
        closed = true;
        --node.open_sessions;
        node.sessions.erase(std::remove(node.sessions.begin(), node.sessions.end(), this), node.sessions.end());
        cs->destroy("closed session");
        node.misc_wq.wake_all();
    }

    std::vector<std::string> key_parts(int t, int r)
    {
        std::vector<std::string> p;
        p.push_back(t >= 50 ? "x" : "d" + std::to_string(t % 2));
        p.push_back(std::to_string(t));
        if (r >= 0) p.push_back(std::to_string(r));
        return p;
    }
    wsrep::key make_key(const std::vector<std::string>& parts)
    {
        wsrep::key key(wsrep::key::exclusive);
        for (auto& p : parts) key.append_key_part(p.data(), p.size());
        return key;
    }

    // ---- total order isolation ------------------------------------------------
    static std::chrono::time_point<wsrep::clock> deadline_of(sim::usec_t us)
    {
        if (!us) return std::chrono::time_point<wsrep::clock>();
        return std::chrono::time_point<wsrep::clock>(std::chrono::nanoseconds(int64_t(us) * 1000));
    }
    static void check_toi_failure(Session& s, const char* what)
    {
        Cs* cs = s.cs;
        const enum P::status last = s.toi_last;
        const bool retryable = last == P::error_certification_failed || last == P::error_connection_failed;
        SIM_CHECK("C11,C12", "toi-not-retried",
                  !(retryable && s.toi_deadline && sim::now() < s.toi_deadline && !s.interrupted),
                  what << " gave up although its deadline was not reached");
        const bool phase2 = std::string(what) == "phase two";
        const enum wsrep::client_error e = cs->current_error();
        bool ok = false;
        // the deadline is looked at once the call has returned (and the pause before a retry is over)
        const bool late = s.toi_deadline && s.toi_ret + (retryable ? 300000 : 0) >= s.toi_deadline;
        const bool maybe_late = s.toi_deadline && sim::now() >= s.toi_deadline;
        const bool timeout = e == wsrep::e_timeout_error, other = e == wsrep::e_error_during_commit && cs->current_error_status() == last;
        if (last == P::error_certification_failed && !phase2) ok = e == wsrep::e_deadlock_error && cs->current_error_status() == last;
        else if (last == P::error_provider_failed && phase2) ok = e == wsrep::e_interrupted_error;
        else if (late) ok = timeout;
        else if (maybe_late) ok = timeout || other;
        else ok = other;
        SIM_CHECK("C11,C12,C16", "toi-error", ok,
                  what << " failed in provider with " << wsrep::provider::to_string(last) << (late ? " after deadline" : "")
                  << " but client sees " << wsrep::to_string(e) << "/" << wsrep::provider::to_string(cs->current_error_status()));
        SIM_CHECK("C11,C12", "toi-mode-after-failure", cs->mode() == CS::m_local && !cs->in_toi(),
                  "session is in mode " << cs->mode() << " after " << what << " failed");
        SIM_CHECK("C11,C12", "toi-left-open", !s.toi_seqno || !s.node.toi_open.count(s.toi_seqno),
                  "position " << s.toi_seqno << " was assigned but not released after " << what << " failed");
        sim::probe("toi-failed");
    }
    static void toi_prepare(Session& s)
    {
        s.toi_calls = 0;
        s.toi_seqno = 0;
        s.toi_last = P::success;
        s.injected = P::success;
        s.toi_deadline = sim::chance(0.6, "toi-deadline") ? sim::now() + 1000 * sim::range(1, 3000, "toi-wait") : 0;
    }
    void Session::toi()
    {
        command(false, [&]
        {
            Ddl d;
            d.t = int(sim::choose(uint32_t(W->cfg.tables), "table"));
            d.val = int64_t(++W->next_val);
            d.trunc = sim::chance(0.3, "trunc");
            const std::string data = enc(d);
            std::vector<std::string> kp = key_parts(d.t);
            if (sim::chance(0.1, "toi-database")) kp.resize(1);
            const wsrep::key key(make_key(kp));
            wsrep::key_array keys;
            keys.push_back(key);
            toi_prepare(*this);
            in_toi = true;
            int ret = cs->enter_toi_local(keys, wsrep::const_buffer(data.data(), data.size()), deadline_of(toi_deadline));
            if (ret == 0)
            {
                const seq_t s = toi_seqno;
                SIM_CHECK("C11", "toi-mode", cs->mode() == CS::m_toi && cs->in_toi() && cs->toi_meta().seqno().get() == s &&
                          node.toi_open.count(s), "session is not in isolation after entering it");
                const bool fail = W->at(s).vote == 1;
                node.exec_toi(cs, d, s, fail);
                wsrep::mutable_buffer err;
                if (fail) err.push_back(std::string("toi error"));
                leave_err.assign(err.data(), err.size());
                leave_check = true;
                int r = cs->leave_toi_local(err);
                leave_check = false;
                (void)r;
                SIM_CHECK("C11", "toi-not-left", !node.toi_open.count(s) && cs->mode() == CS::m_local && !cs->in_toi(),
                          "isolation at " << s << " not left");
                expect_lw = s;
                if (fail) { cs->reset_error(); }
            }
            else
            {
                check_toi_failure(*this, "isolation");
            }
            in_toi = false;
        });
    }

    // ---- non-blocking operations -----------------------------------------------
    static int end_nbo(Session& s, bool one, bool fail)
    {
        wsrep::mutable_buffer err;
        if (fail || sim::chance(0.2, "nbo-err")) err.push_back(std::string("nbo error"));
        s.leave_err.assign(err.data(), err.size());
        s.leave_check = true;
        const int r = one ? s.cs->end_nbo_phase_one(err) : s.cs->end_nbo_phase_two(err);
        s.leave_check = false;
        SIM_CHECK("C12,C16", "nbo-end-result", s.leave_failed ? r && s.cs->current_error() == wsrep::e_error_during_commit &&
                  s.cs->current_error_status() == P::error_provider_failed : !r && s.cs->current_error() == wsrep::e_success,
                  "end of phase " << (one ? "one" : "two") << (s.leave_failed ? " failed" : " succeeded") << " in provider but returned " << r << " and client sees "
                  << wsrep::to_string(s.cs->current_error()) << "/" << wsrep::provider::to_string(s.cs->current_error_status()));
        return r;
    }
    static void nbo_phase_two(Session& s, const wsrep::key_array& keys, seq_t begin)
    {
        Cs* cs = s.cs;
        toi_prepare(s);
        const wsrep::id me = s.node.uuid;
        int ret = cs->begin_nbo_phase_two(keys, deadline_of(s.toi_deadline));
        if (ret == 0)
        {
            const seq_t e = s.toi_seqno;
            SIM_CHECK("C12", "nbo-mode", cs->mode() == CS::m_nbo && cs->in_toi() && cs->toi_meta().seqno().get() == e && e > begin,
                      "session is not in phase two after entering it");
            sim::yield_point("nbo-end");
            s.node.store.position = e;
            s.node.commit_check(e, "nbo end");
            end_nbo(s, false, false);
            sim::probe("nbo-ended");
        }
        else
        {
            W->nbo_gaveup[begin].insert(me);
            W->log_wq.wake_all();
            check_toi_failure(s, "phase two");
            sim::probe("nbo-phase-two-failed");
        }
        SIM_CHECK("C12", "nbo-mode-after", cs->mode() == CS::m_local && !cs->in_toi(),
                  "session is in mode " << cs->mode() << " after non-blocking operation");
        SIM_CHECK("C12", "nbo-meta-left", cs->toi_meta().gtid().is_undefined(),
                  "session still refers to isolated position " << cs->toi_meta().seqno().get() << " after it");
        SIM_CHECK("C12", "nbo-left-open", !s.toi_seqno || !s.node.toi_open.count(s.toi_seqno),
                  "end phase at " << s.toi_seqno << " is still open");
    }
    void Session::nbo()
    {
        command(false, [&]
        {
            Ddl d;
            d.t = 60;
            d.val = int64_t(++W->next_val);
            const std::string data = enc(d);
            const std::vector<std::string> kp = key_parts(60);
            const wsrep::key key(make_key(kp));
            wsrep::key_array keys;
            keys.push_back(key);
            toi_prepare(*this);
            int ret = cs->begin_nbo_phase_one(keys, wsrep::const_buffer(data.data(), data.size()), deadline_of(toi_deadline));
            if (ret)
            {
                check_toi_failure(*this, "phase one");
                return;
            }
            const seq_t b = toi_seqno;
            SIM_CHECK("C12", "nbo-mode", cs->mode() == CS::m_nbo && cs->in_toi() && cs->toi_meta().seqno().get() == b &&
                      node.toi_open.count(b), "session is not in phase one after entering it");
            sim::yield_point("nbo-begin");
            node.store.position = b;
            node.commit_check(b, "nbo begin");
            ret = end_nbo(*this, true, W->at(b).vote == 1);
            SIM_CHECK("C12", "nbo-phase-one-open", !node.toi_open.count(b) && !cs->in_toi() &&
                      cs->mode() == CS::m_nbo,
                      "phase one of non-blocking operation " << b << " not ended properly");
            sim::probe("nbo");
            sim::sleep_us(1000 * sim::range(1, 20, "nbo-work"));
            if (ret) cs->reset_error();
            nbo_phase_two(*this, keys, b);
        });
    }
    int Hps::apply_nbo_begin(const wsrep::ws_meta& m, const wsrep::const_buffer&, wsrep::mutable_buffer& err)
    {
        const seq_t b = m.seqno().get();
        SIM_CHECK("C12", "nbo-outside-turn", node.entered == b, "begin of non-blocking operation applied outside of its turn");
        node.store.position = b;
        node.commit_check(b, "nbo begin");
        const Entry& e = W->at(b);
        if (e.vote == 1 || e.err_node == node.idx)
        {
            // The operation does not start here, so it is not ended either.
            W->nbo_gaveup[b].insert(node.uuid);
            W->log_wq.wake_all();
            if (!e.err_empty) err.push_back("nbo error " + std::to_string(b));
            sim::probe("nbo-begin-fails");
            return 1;
        }
        Node* n = &node;
        const wsrep::ws_meta meta = m;
        ++n->open_sessions;
        Session* s = new Session(*n);
        n->sessions.push_back(s);
        s->fiber = sim::spawn("nbo" + std::to_string(n->idx), n->group, [n, s, meta]
        {
            s->cs->open(s->cs->id());
            s->cs->before_command();
            s->cs->enter_nbo_mode(meta);
            SIM_CHECK("C12", "nbo-mode", s->cs->mode() == CS::m_nbo, "applier session is not in NBO mode");
            sim::sleep_us(1000 * sim::range(1, 30, "nbo-work"));
            const std::vector<std::string> kp = key_parts(60);
            const wsrep::key key(make_key(kp));
            wsrep::key_array keys;
            keys.push_back(key);
            nbo_phase_two(*s, keys, meta.seqno().get());
            s->cs->after_command_before_result();
            s->cs->after_command_after_result();
            s->lw_known = false;
            s->close_session();
        });
        return 0;
    }

    // ---- other commands ------------------------------------------------------------
    void Session::rsu()
    {
        command(false, [&]
        {
            int ret = cs->begin_rsu(1);
            if (ret)
            {
                SIM_CHECK("C13", "rsu-mode", cs->mode() == CS::m_local, "session not in normal mode after failed begin of RSU");
                return;
            }
            SIM_CHECK("C13", "rsu-not-paused", node.paused && node.desyncs > 0 && cs->mode() == CS::m_rsu,
                      "rolling upgrade runs but the node is not paused and desynced");
            sim::sleep_us(1000 * sim::range(1, 10, "rsu-work"));
            SIM_CHECK("C13", "rsu-not-paused", node.paused && node.desyncs > 0, "node was resumed during rolling upgrade");
            ret = cs->end_rsu();
            SIM_CHECK("C13", "rsu-mode", cs->mode() == CS::m_local, "session not in normal mode after end of RSU");
            sim::probe("rsu");
        });
    }
    void Session::causal()
    {
        const seq_t before = W->max_claimed;
        command(false, [&]
        {
            for (int again = 0; ; ++again) {
            const seq_t floor = W->max_claimed;
            int ret = cs->sync_wait(1);
            if (ret == 0)
            {
                if (again) sim::probe("causal-read-again");
                const wsrep::gtid& g = cs->sync_wait_gtid();
                SIM_CHECK("C19", "causal-read", !g.is_undefined() && g.seqno().get() >= floor && node.last_left >= g.seqno().get(),
                          "causal read returned " << g.seqno().get() << " but position " << floor << " was committed before");
                sim::probe("causal-read");
            }
            else
            {
                SIM_CHECK("C19", "causal-error", cs->current_error() == wsrep::e_timeout_error ||
                          cs->current_error() == wsrep::e_not_supported_error, "failed causal read reports " << wsrep::to_string(cs->current_error()));
                SIM_CHECK("C19", "causal-failed-position", again || cs->sync_wait_gtid().is_undefined(), "failed causal read reports a position");
                sim::probe("causal-read-failed");
            }
            if (ret || again == 2 || !sim::chance(0.3, "causal-again")) break;
            sim::sleep_us(1000 * sim::range(1, 20, "causal-ms"));
            }
        });
        (void)before;
    }

    // ---- XA -----------------------------------------------------------------------
    wsrep::xid mkxid(const std::string& x) { return wsrep::xid(1, long(x.size()), 0, x.c_str()); }
    std::string xid_of(uint64_t trx) { return "x" + std::to_string(trx); }
    static bool model_prepared(uint64_t trx)
    {
        for (auto& l : W->model.live) if (l.first.second == trx && l.second.prepared) return true;
        return false;
    }
    void Session::xa_result(enum wsrep::client_error err, enum P::status st)
    {
        TrxInfo& ti = W->trxs[cur];
        const T& t = cs->transaction();
        const bool active = t.active() && t.id().get() == cur;
        const bool ok = err == wsrep::e_success && !dbms_error;
        SIM_EV("n" << node.idx << " xa " << cur << " result " << wsrep::to_string(err) << " ok " << ok << " active " << active
               << " explicit " << explicit_xa << " prepared " << prepared_xa);
        if (err != wsrep::e_success) check_cause(err, st);
        dbms_error = false;
        if (ti.xa_prepared)
        {
            // decision
            if (ok && ti.xa_verdict == 1 && !explicit_xa)
            {
                ti.claim = C_COMMITTED;
                SIM_CHECK("C10", "xa-false-commit", W->model.committed.count(cur), "client was told that prepared transaction " << cur << " committed but it did not");
                SIM_CHECK("C10", "xa-open", !active, "committed XA transaction " << cur << " still open");
                sim::probe("xa");
                cur = 0;
                return;
            }
            if ((ok || (!active && !prepared_xa)) && ti.xa_verdict == 2 && !explicit_xa)
            {
                ti.claim = C_FAILED;
                SIM_CHECK("C10", "xa-open", !active, "rolled back XA transaction " << cur << " still open");
                sim::probe("xa");
                cur = 0;
                return;
            }
            if (!active && !model_prepared(cur) && ti.xa_verdict != 2)
            {
                SIM_CHECK("C10", "xa-lost", injected != P::success || injected_err != wsrep::e_success || cert_failed,
                          "prepared transaction " << cur << " is gone without a decision");
                ti.claim = C_FAILED;
                SIM_CHECK("C10", "xa-false-failure", !W->model.committed.count(cur), "client was told that commit of prepared transaction " << cur << " failed but it is committed");
                ti.xa_verdict = 2;
                cur = 0;
            }
            return;
        }
        if (prepared_xa)
        {
            SIM_CHECK("C10,C16", "xa-prepare-result", ok, "prepare of " << cur << " succeeded but client sees " << wsrep::to_string(err));
            SIM_CHECK("C10", "xa-prepare-lost", model_prepared(cur), "client was told that transaction " << cur << " is prepared but it is not");
            ti.xa_prepared = true;
            sim::probe("xa-prepared");
            return;
        }
        if (!explicit_xa)
        {
            SIM_CHECK("C10,C16", "xa-failed-open", !active, "failed XA transaction " << cur << " still open");
            SIM_CHECK("C10", "xa-false-failure", !W->model.committed.count(cur), "client was told that " << cur << " failed but it is committed");
            SIM_CHECK("C17,C10", "locks-after-rollback", !cs->se.active && cs->se.locks.empty() && cs->se.mdl.empty(),
                      "rolled back transaction " << cur << " still holds locks");
            ti.claim = C_FAILED;
            ti.xa_verdict = 2;
            cur = 0;
            return;
        }
        if (!ok) xa_broken = true;
    }

    void Session::xa_rollback_cmd()
    {
        TrxInfo& ti = W->trxs[cur];
        ti.xa_verdict = 2;
        xa_rollback = true;
        command(false, [&]
        {
            stmt_done = true;
            do_rollback();
            explicit_xa = prepared_xa = false;
            after_stmt();
        });
        if (cur && !explicit_xa) { ti.claim = C_FAILED; cur = 0; }
        xa_rollback = false;
    }

    void Session::xa_prepare()
    {
        command(false, [&]
        {
            held.clear();
            binlog += "P ";
            W->trxs[cur].full += "P ";
            if (no_stream_stmt && cs->transaction().is_streaming()) stmt_refused = true;
            int ret = cs->before_prepare();
            if (!ret)
            {
                if (sim::chance(W->cfg.p_slowprep, "se-prepare-slow")) sim::sleep_us(1000 * sim::range(1, 12, "se-prepare-ms"));
                else sim::yield_point("se-prepare");
                ret = cs->after_prepare();
            }
            stmt_done = true;
            if (!ret)
            {
                prepared_xa = true;
                after_stmt();
                if (cs->transaction().state() == T::s_aborted) { prepared_xa = false; dbms_error = true; sim::probe("xa-aborted-in-prepare"); }
            }
            else
            {
                dbms_error = true;
                do_rollback();
                explicit_xa = false;
                after_stmt();
            }
        });
    }

    int Session::xa_by_xid(const std::string& x, bool commit)
    {
        trx_id = ++W->next_trx;
        cs->start_transaction(wsrep::transaction_id(trx_id));
        int ret = commit ? cs->commit_by_xid(mkxid(x)) : cs->rollback_by_xid(mkxid(x));
        W->trxs[std::stoull(x.substr(1))].xa_remote = true;
        if (ret)
        {
            SIM_CHECK("C10,C16", "xa-decision-error", cs->current_error() != wsrep::e_success, "decision failed without error");
            dbms_error = true;
            cs->before_rollback();
            cs->after_rollback();
        }
        return ret;
    }

    // XA COMMIT or ROLLBACK of the transaction prepared by this session
    void Session::xa_finish()
    {
        TrxInfo& ti = W->trxs[cur];
        for (int k = 0; k < 6; ++k)
        {
            think();
            if (quit) return;
            if (sim::chance(W->cfg.p_close, "xa-close")) { quit = true; return; }
            if (!ti.xa_verdict) ti.xa_verdict = sim::chance(W->cfg.p_rollback, "xa-rollback") ? 2 : 1;
            SIM_EV("n" << node.idx << " xa " << cur << " finishes with verdict " << ti.xa_verdict);
            xa_rollback = ti.xa_verdict == 2;
            command(false, [&]
            {
                const uint64_t id = cur;
                if (!cs->transaction().active())
                {
                    // taken over by an applier
                    sim::probe("xa-decide-after-replay");
                    if (!node.ss->find_streaming_applier(mkxid(xid))) { quit = true; return; }
                    explicit_xa = prepared_xa = false;
                    const int ret = xa_by_xid(xid, ti.xa_verdict == 1);
                    if (ret == 0) ti.commit_requested = true;
                    else if (cs->current_error_status() == P::success) injected_err = wsrep::e_error_during_commit; // applier closed at disconnect
                    else injected = P::error_connection_failed;
                    stmt_done = true;
                    after_stmt();
                    if (ret) explicit_xa = prepared_xa = true;
                    return;
                }
                if (ti.xa_verdict == 2)
                {
                    stmt_done = true;
                    do_rollback();
                    explicit_xa = prepared_xa = false;
                    after_stmt();
                    return;
                }
                ti.commit_requested = true;
                int ret = cs->before_commit();
                stmt_done = true;
                if (!ret)
                {
                    const seq_t s = cs->transaction().ws_meta().seqno().get();
                    cs->se.commit(s, id);
                    ret = cs->ordered_commit();
                    if (!ret) ret = cs->after_commit();
                    cs->se.end();
                    SIM_CHECK("C10,C02", "ordered-commit-failed", ret == 0, "transaction " << id << " failed after it was ordered");
                    explicit_xa = prepared_xa = false;
                }
                else if (cs->transaction().state() == T::s_prepared) sim::probe("xa-commit-retry");
                else
                {
                    do_rollback();
                    explicit_xa = prepared_xa = false;
                }
                after_stmt();
                if (cs->current_error() != wsrep::e_success && model_prepared(id))
                {
                    if (cs->transaction().state() == T::s_prepared || node.ss->find_streaming_applier(mkxid(xid))) explicit_xa = prepared_xa = true;
                    else
                    {
                        SIM_CHECK("C10", "xa-lost", injected != P::success || injected_err != wsrep::e_success || cert_failed,
                                  "prepared transaction " << id << " was rolled back without a decision");
                        ti.xa_verdict = 2; // the rollback event may be pending
                        dbms_error = true;
                        sim::probe("xa-commit-rollback");
                    }
                }
            });
            xa_rollback = false;
            if (!cur || quit) return;
        }
        quit = true;
    }

    void Session::xa()
    {
        const uint32_t stmts = 1 + sim::choose(3, "stmts");
        for (uint32_t i = 0; i < stmts; ++i)
        {
            command(false, [&]
            {
                if (!cur)
                {
                    begin();
                    xid = xid_of(cur);
                    explicit_xa = true;
                    W->trxs[cur].xa = W->trxs[cur].xa_attached = true;
                    cs->assign_xid(mkxid(xid));
                }
                if (statement()) dbms_error = true;
            });
            if (!cur) return;
            if (xa_broken) { xa_rollback_cmd(); return; }
            if (quit) return;
            think();
            if (sim::chance(W->cfg.p_close, "close-mid-trx")) { quit = true; return; }
        }
        if (sim::chance(W->cfg.p_rollback * 0.5, "rollback")) { xa_rollback_cmd(); return; }
        xa_prepare();
        if (!cur) return;
        if (!W->trxs[cur].xa_prepared) { if (explicit_xa) xa_rollback_cmd(); return; }
        xa_finish();
    }

    // Decision about a prepared transaction which no session owns.
    void Session::xa_decide(uint64_t id)
    {
        TrxInfo& ti = W->trxs[id];
        if (!ti.xa_verdict) ti.xa_verdict = sim::chance(0.4, "xa-rollback") ? 2 : 1;
        ti.xa_node = node.idx;
        ti.xa_inc = node.inc;
        reset_trx();
        bf_hit = 0;
        int ret = 1;
        command(false, [&] { ret = xa_by_xid(xid_of(id), ti.xa_verdict == 1); });
        ti.xa_node = -1;
        SIM_EV("n" << node.idx << " xa " << id << " decision " << ti.xa_verdict << " -> " << ret);
        if (ret) { sim::probe("xa-decision-failed"); return; }
        if (ti.xa_verdict == 1)
        {
            ti.claim = C_COMMITTED;
            SIM_CHECK("C10", "xa-false-commit", W->model.committed.count(id), "client was told that prepared transaction " << id << " committed but it did not");
        }
        else
        {
            if (ti.claim == C_UNKNOWN) ti.claim = C_FAILED;
            SIM_CHECK("C10", "xa-false-rollback", !W->model.committed.count(id) && !model_prepared(id), "client was told that prepared transaction " << id << " was rolled back but it was not");
        }
        sim::probe("xa");
        sim::probe("xa-by-xid");
    }
    static bool xa_decidable(Node& n, uint64_t id)
    {
        TrxInfo& ti = W->trxs[id];
        if (!ti.xa || !model_prepared(id)) return false;
        Node& o = *W->nodes[size_t(ti.node)];
        if (ti.xa_attached && o.up && o.inc == ti.inc) return false;
        if (ti.xa_node >= 0)
        {
            Node& d = *W->nodes[size_t(ti.xa_node)];
            if (d.up && d.inc == ti.xa_inc) return false;
        }
        wsrep::high_priority_service* sa = n.ss->find_streaming_applier(mkxid(xid_of(id)));
        return sa && sa->transaction().state() == T::s_prepared;
    }
    bool Session::xa_decide_any()
    {
        std::vector<uint64_t> c;
        for (auto& l : W->model.live) if (l.second.prepared) c.push_back(l.first.second);
        if (c.empty()) return false;
        const uint64_t id = c[sim::choose(uint32_t(c.size()), "xa-which")];
        if (!xa_decidable(node, id)) return false;
        if (W->trxs[id].xa_node >= 0 || !model_prepared(id)) return false; // decided meanwhile
        xa_decide(id);
        return true;
    }

    void Session::run()
    {
        cs->open(cs->id());
        expect_lw = 0;
        lw = 0;
        for (int i = 0; i < W->cfg.trx && !quit && !W->stopping; ++i)
        {
            if (W->cfg.p_xa > 0 && sim::chance(0.3, "xa-decide") && xa_decide_any()) { }
            else if (sim::chance(W->cfg.p_causal, "causal")) causal();
            else if (sim::chance(W->cfg.p_toi, "toi")) toi();
            else if (sim::chance(W->cfg.p_nbo, "nbo")) nbo();
            else if (sim::chance(W->cfg.p_rsu, "rsu")) rsu();
            else if (sim::chance(W->cfg.p_ro, "ro"))
            {
                command(false, [&] { begin(); cs->se.active = true; });
                if (cur) { think(); command(false, [&] { do_commit(); }); }
            }
            else if (sim::chance(W->cfg.p_xa, "xa")) xa();
            else transaction();
            if (cur && !quit && xid.size()) quit = true;
            if (cur && !quit) { SIM_EV("client gives up on " << cur); command(false, [&] { dbms_error = true; do_rollback(); }); }
            if (quit) break;
            think();
        }
        close_session();
    }

    // ---- supervisor -------------------------------------------------------------------
    static void spawn_session(Node& n)
    {
        Session* s = new Session(n);
        n.sessions.push_back(s);
        ++n.open_sessions;
        s->fiber = sim::spawn("client" + std::to_string(n.idx) + "." + std::to_string(n.session_count++), n.group, [s]{ s->run(); });
    }

    static void phantom_fiber(int count)
    {
        for (int k = 0; k < count; ++k)
        {
            const wsrep::id me = W->phantoms[0];    // restarts as another member
            sim::sleep_us(1000 * sim::range(1, 30, "phantom"));
            if (!W->has_prim) continue;
            const bool sr = sim::chance(W->cfg.p_stream, "ph-sr");
            const int frags = sr ? int(1 + sim::choose(3, "ph-frags")) : 0;
            const uint64_t trx = ++W->next_trx;
            bool started = false;
            for (int f = 0; f <= frags; ++f)
            {
                if (f) sim::sleep_us(1000 * sim::range(1, 20, "phantom"));
                const SrKey key(me, trx);
                if (!W->has_prim || W->phantoms[0] != me) break;
                if (started && !W->model.live.count(key)) break;
                Entry e;
                e.kind = WS;
                e.origin = me;
                e.trx = trx;
                e.client = 9999;
                e.phantom = true;
                e.last_seen = W->last();
                e.flags = (started ? 0 : int(F::start_transaction)) | (f == frags ? int(F::commit) : 0);
                if (f == frags && started) e.flags |= F::pa_unsafe;
                if (f == frags && started && sim::chance(0.3, "ph-rollback")) e.flags = F::rollback | F::pa_unsafe;
                else
                {
                    std::set<std::pair<int,int>> held;
                    for (auto& l : W->model.live) if (l.first != key) for (auto& o : l.second.ops) held.insert(std::make_pair(o.t, o.r));
                    const uint32_t n = 1 + sim::choose(2, "ph-ops");
                    for (uint32_t i = 0; i < n; ++i)
                    {
                        Op o;
                        o.t = int(sim::choose(uint32_t(W->cfg.tables), "table"));
                        o.r = int(sim::choose(uint32_t(W->cfg.rows), "row"));
                        if (held.count(std::make_pair(o.t, o.r))) continue;
                        o.val = int64_t(++W->next_val);
                        o.old = W->model.rows.count(std::make_pair(o.t, o.r)) ? W->model.rows[std::make_pair(o.t, o.r)] : 0;
                        if (started) for (auto& q : W->model.live[key].ops) if (q.t == o.t && q.r == o.r) o.old = q.val;
                        for (auto& q : dec(e.data)) if (q.t == o.t && q.r == o.r) o.old = q.val;
                        e.data += enc(o);
                        K kk;
                        kk.excl = true;
                        kk.parts = key_parts(o.t, o.r);
                        e.keys.push_back(kk);
                    }
                    if (e.data.empty()) { if (!started) break; if (f < frags) continue; }
                    if (f == frags && started)
                        for (auto& q : W->model.live[key].ops)
                        {
                            K kk;
                            kk.excl = false;
                            kk.parts = key_parts(q.t);
                            e.keys.push_back(kk);
                        }
                    if (sim::fault(W->cfg.f_apply, "apply-fails-everywhere")) e.vote = 1;
                }
                W->append(e);
                sim::probe("phantom");
                started = true;
            }
            // never leave a streaming transaction open
            while (!W->has_prim) sim::sleep_us(10000);
            if (W->model.live.count(SrKey(me, trx)))
            {
                Entry e;
                e.kind = WS; e.origin = me; e.trx = trx; e.phantom = true;
                e.flags = F::rollback | F::pa_unsafe;
                e.last_seen = W->last();
                W->append(e);
            }
        }
    }

    static bool all_sessions_done()
    {
        for (auto& n : W->nodes) if (n->up && n->open_sessions > 0) return false;
        return true;
    }

    // Node housekeeping: restart crashed nodes, restore primary component,
    // let clients in.
    static void supervise(bool clients)
    {
        for (auto& np : W->nodes)
        {
            Node& n = *np;
            if (!n.up)
            {
                n.serving = false;
                n.open_sessions = 0;
                if (!n.restart_due) { n.restart_due = true; n.down_at = sim::now() + 1000 * sim::range(1, 60, "restart"); }
                if (sim::now() >= n.down_at && W->has_prim) { n.restart_due = false; n.component = 0; start_node(n, false); }
                continue;
            }
            n.restart_due = false;
            if (n.synced() && !n.serving && !n.leaving && !n.admin_busy)
            {
                n.serving = true;
                if (clients && n.rounds < 4 && !W->stopping)
                {
                    ++n.rounds;
                    for (int k = 0; k < W->cfg.clients; ++k) spawn_session(n);
                }
            }
        }
        sim::usec_t& lost = W->prim_lost_at;
        if (W->has_prim || W->nodes.empty()) lost = 0;
        else if (!lost) lost = sim::now();
        else if (sim::now() - lost > 40000)
        {
            lost = 0;
            for (auto& n : W->nodes) n->component = 0;
            W->bootstrap_prim();
        }
    }

    // Leave the cluster and come back, as administrator would do.
    static void leave_and_return(Node& n)
    {
        n.admin_busy = true;
        Node* np = &n;
        sim::spawn("admin" + std::to_string(n.idx), n.group, [np]
        {
            Node& n = *np;
            SIM_EV("admin disconnects node " << n.idx);
            sim::probe("disconnect");
            n.ss->disconnect();
            for (Session* s : n.sessions) { s->quit = true; s->interrupt(); }
            while (n.open_sessions > 0) n.misc_wq.wait_for(10000);
            while (!(n.st() == wsrep::server_state::s_disconnected && n.appliers_alive == 0)) n.misc_wq.wait_for(10000);
            while (!n.rb_queue.empty() || n.rb_busy) n.misc_wq.wait_for(10000);
            SIM_CHECK("C06,C09,C17", "appliers-left", n.sr_appliers == 0, "node " << n.idx << " has " << n.sr_appliers << " streaming appliers after disconnect");
            SIM_CHECK("C09,C17", "sessions-after-disconnect", n.locks->x.empty(), "locks left behind after disconnect");
            sim::sleep_us(1000 * sim::range(1, 50, "away"));
            while (!W->has_prim) sim::sleep_us(10000);
            n.final_done = false;
            n.queue.clear(); n.in_flight = 0; n.barrier = false;
            n.serving = false;
            n.recovered = false;
            n.component = 0;
            spawn_appliers(n);
            n.want_bootstrap = false;
            n.ss->connect("cluster", "gcomm://x", "", false);
            n.admin_busy = false;
            sim::probe("reconnect");
        });
    }

    static int up_joined()
    {
        int k = 0;
        for (auto& n : W->nodes) if (n->up && n->in_prim && n->joined && n->synced()) ++k;
        return k;
    }

    static void nemesis()
    {
        Cfg& c = W->cfg;
        int crashes = c.crashes, parts = c.partitions, discs = c.disconnects;
        while (crashes + parts + discs > 0)
        {
            sim::sleep_us(1000 * sim::range(1, 60, "nemesis"));
            const uint32_t what = sim::choose(3, "nemesis-what");
            if (what == 0 && crashes > 0)
            {
                --crashes;
                if (c.full_crash && sim::chance(0.3, "crash-all"))
                {
                    if (up_joined() == int(W->nodes.size()))
                    {
                        sim::note_fault("crash-all");
                        for (auto& n : W->nodes) crash_node(*n, "all");
                    }
                    continue;
                }
                Node& n = *W->nodes[sim::choose(uint32_t(W->nodes.size()), "victim")];
                // keep a quorum of up to date nodes unless full restart is allowed
                if (n.up && (up_joined() > 2 || (c.full_crash && up_joined() > 1) || !n.joined))
                {
                    sim::note_fault("crash");
                    crash_node(n, "nemesis");
                }
            }
            else if (what == 1 && parts > 0)
            {
                --parts;
                if (up_joined() < int(W->nodes.size())) { sim::sleep_us(30000); continue; }
                sim::note_fault("partition");
                // no majority anywhere in some of them: the same members form the next primary component
                if (sim::chance(0.3, "split-all")) { for (auto& n : W->nodes) n->component = n->idx; sim::note_fault("partition-all"); }
                else for (auto& n : W->nodes) n->component = int(sim::choose(2, "side"));
                W->recompute_groups("partition");
                sim::sleep_us(1000 * sim::range(1, 80, "partition-time"));
                for (auto& n : W->nodes) n->component = 0;
                W->recompute_groups("heal");
                if (!W->has_prim) W->bootstrap_prim();
            }
            else if (what == 2 && discs > 0)
            {
                --discs;
                Node& n = *W->nodes[sim::choose(uint32_t(W->nodes.size()), "victim")];
                if (n.up && n.synced() && !n.donating && n.in_prim && n.joined && !n.admin_busy && up_joined() > 2)
                {
                    sim::note_fault("disconnect");
                    leave_and_return(n);
                }
            }
        }
    }
    static void killer()
    {
        while (!W->stopping)
        {
            sim::sleep_us(1000 * sim::range(5, 60, "kill"));
            Node& n = *W->nodes[sim::choose(uint32_t(W->nodes.size()), "node")];
            if (!n.up || n.sessions.empty()) continue;
            Session* s = n.sessions[sim::choose(uint32_t(n.sessions.size()), "session")];
            if (sim::fault(W->cfg.f_interrupt, "interrupt-session") && s->in_cmd)
            {
                SIM_EV("interrupt session " << s->cs->id().get());
                s->interrupt();
            }
        }
    }

    template <class Pred> static bool wait_for(sim::usec_t us, bool clients, Pred p)
    {
        const sim::usec_t end = sim::now() + us;
        while (!p())
        {
            if (sim::now() >= end) return false;
            sim::sleep_us(5000);
            if (W->booted) supervise(clients);
        }
        return true;
    }

    static std::string status()
    {
        std::ostringstream os;
        os << "log end " << W->last() << " prim " << W->has_prim;
        for (auto& n : W->nodes)
        {
            os << "; n" << n->idx << " up=" << n->up << " left=" << n->last_left << " entered=" << n->entered << " sessions=" << n->open_sessions
               << " queue=" << n->queue.size() << " inflight=" << n->in_flight;
            if (n->up && n->ss) os << " state=" << wsrep::to_c_string(n->st());
            for (Session* s : n->sessions) os << " c" << s->cs->id().get() << ":" << wsrep::to_string(s->cs->transaction().state()) << "/" << wsrep::to_c_string(s->cs->state()) << "/trx" << s->cur;
        }
        return os.str();
    }

    // Everything prepared and not decided is prepared on every node and can be
    // decided from any of them.
    static void xa_final()
    {
        bool ok = wait_for(20000000, false, []
        {
            for (auto& n : W->nodes) if (n->last_left < W->last() || n->replaying) return false;
            return true;
        });
        SIM_CHECK("C02,*", "order-stalled", ok, "replication order is not completed on all nodes: " << status());
        std::vector<uint64_t> ids;
        for (auto& l : W->model.live) if (l.second.prepared) ids.push_back(l.first.second);
        for (uint64_t id : ids)
        {
            TrxInfo& ti = W->trxs[id];
            ti.xa_attached = false;
            ti.xa_node = -1;
            if (!model_prepared(id)) continue;
            for (auto& n : W->nodes)
                SIM_CHECK("C10", "xa-not-prepared", xa_decidable(*n, id) || ti.xa_verdict == 2,
                          "node " << n->idx << " does not have prepared transaction " << id << " of node " << ti.node);
            Node& n = *W->nodes[sim::choose(uint32_t(W->nodes.size()), "xa-node")];
            if (!xa_decidable(n, id)) continue;
            ++n.open_sessions;
            Session* s = new Session(n);
            n.sessions.push_back(s);
            sim::fiber* f = s->fiber = sim::spawn("xa" + std::to_string(n.idx), n.group, [s, id]
            {
                s->cs->open(s->cs->id());
                s->xa_decide(id);
                s->close_session();
            });
            ok = wait_for(20000000, false, [&] { return sim::fiber_done(f); });
            SIM_CHECK("C10,*", "session-stuck", ok, "decision does not finish: " << status());
            sim::probe("xa-final-decision");
        }
    }

    static void final_phase()
    {
        W->stopping = true;
        W->no_new_faults = true;
        sim::stop_faults();
        for (auto& n : W->nodes) n->component = 0;
        W->recompute_groups("final heal");
        bool ok = wait_for(20000000, false, []
        {
            for (auto& n : W->nodes) if (!n->up || !n->synced() || n->admin_busy || !n->joined || n->open_sessions > 0) return false;
            return true;
        });
        SIM_CHECK("C14,C02,C08,C09,C15,*", "cluster-not-restored", ok, "nodes did not get back in sync after faults stopped: " << status());
        if (W->cfg.p_xa > 0) xa_final();
        // One more transaction on every node: everything pending must be flushed by it.
        W->cfg.p_stream = 0;
        W->cfg.p_rollback = W->cfg.p_close = W->cfg.p_silent = W->cfg.p_gap = 0;
        for (auto& np : W->nodes)
        {
            Node* n = np.get();
            ++n->open_sessions;
            Session* s = new Session(*n);
            n->sessions.push_back(s);
            s->flushing = true;
            s->fiber = sim::spawn("flush" + std::to_string(n->idx), n->group, [s, n]
            {
                s->cs->open(s->cs->id());
                bool done = false;
                for (int k = 0; k < 50 && !done; ++k)
                {
                    if (k) sim::sleep_us(10000);
                    s->command(false, [&] { s->begin(); W->cfg.tables = 1; s->statement(); });
                    if (!s->cur) continue;
                    const uint64_t id = s->cur;
                    s->command(false, [&] { s->do_commit(); });
                    done = W->trxs[id].claim == C_COMMITTED;
                }
                SIM_CHECK("C02,C03,C07,*", "no-progress", done, "node " << n->idx << " cannot commit after faults stopped");
                s->close_session();
            });
        }
        ok = wait_for(20000000, false, [] { return all_sessions_done(); });
        SIM_CHECK("C02,C03,C04,C17,*", "session-stuck", ok, "session does not finish after faults stopped: " << status());
        ok = wait_for(20000000, false, []
        {
            for (auto& n : W->nodes) if (!n->quiescent()) return false;
            return true;
        });
        SIM_CHECK("C02,*", "order-stalled", ok, "replication order is not completed on all nodes: " << status());
        for (auto& np : W->nodes)
        {
            Node& n = *np;
            const seq_t e = W->last();
            n.commit_check(e, "end of run");
            SIM_CHECK("C01,C02", "store-position", n.store.position == e || W->at(e).kind == VIEW || !W->at(e).cert_ok || W->at(e).nbo_begin,
                      "node " << n.idx << " recorded position " << n.store.position << " at end, log ends at " << e);
            for (auto& f : n.store.frags)
            {
                const bool live = W->model.live.count(f.first);
                SIM_CHECK("C06,C08,C07", "fragments-left", live, "node " << n.idx << " stores fragments of finished transaction "
                          << f.first.second << " at the end of the run");
            }
            SIM_CHECK("C02,C06,C17", "locks-left", n.locks->x.empty() || !W->model.live.empty(), "node " << n.idx << " has locks left at the end of the run: "
                      << n.locks->x.begin()->first);
            SIM_CHECK("C04", "replayers-left", n.replaying == 0, "node " << n.idx << " counts " << n.replaying << " replayers at the end");
            SIM_CHECK("C06,C17", "appliers-left", n.sr_appliers <= int(W->model.live.size()), "node " << n.idx << " has " << n.sr_appliers
                      << " streaming appliers at the end of the run, " << W->model.live.size() << " streaming transactions are open");
            SIM_CHECK("C06", "storage-left", n.storage_open == 0, "node " << n.idx << " has open storage services");
            SIM_CHECK("C11,C12", "toi-left", n.toi_open.empty(), "node " << n.idx << " is inside isolation at the end of the run");
            SIM_CHECK("C13", "paused-at-end", !n.paused && n.desyncs == 0, "node " << n.idx << " is paused or desynced at the end of the run");
        }
        for (auto& l : W->model.live)
            SIM_CHECK("C07,C08,C10", "streaming-left", false,
                      "streaming transaction " << l.first.second << " is still open in the cluster but its session is gone");
        for (auto& t : W->trxs)
        {
            const TrxInfo& ti = t.second;
            if (ti.claim == C_COMMITTED && ti.wrote)
                SIM_CHECK("C01,C09", "commit-lost", W->model.committed.count(t.first), "committed transaction " << t.first << " lost");
            if (ti.claim == C_FAILED)
                SIM_CHECK("C01", "failed-committed", !W->model.committed.count(t.first), "failed transaction " << t.first << " is committed");
            if (ti.claim != C_UNKNOWN)
                SIM_CHECK("C04", "replay-lost", !ti.replay_wanted || ti.replays == 1 || ti.xa,
                          "transaction " << t.first << " announced for replay but replayed " << ti.replays << " times");
        }
        for (auto& e : W->toi_execs)
            SIM_CHECK("C11", "toi-executed-twice", e.second == 1, "isolated operation " << e.first.first << " executed "
                      << e.second << " times on node " << e.first.second);
        sim::state_hash(sim::hash_str(W->model.rows_str()));
    }

    static double pick(const std::vector<double>& v, const char* tag) { return v[sim::choose(uint32_t(v.size()), tag)]; }

    Cfg draw_cfg(const std::string& p)
    {
        if (p == "C23")
        {
            static const char* const mix[] = { "C01", "C03", "C04", "C06", "C08", "C10", "C11", "C12", "C13", "C14", "C17", "C19", "C21" };
            return draw_cfg(mix[sim::choose(13, "mix")]);
        }
        // every property is also looked at in the neighbourhood of the others
        if (p != "C18" && p != "C22" && sim::chance(0.12, "other-profile"))
        {
            static const char* const mix[] = { "C01", "C03", "C04", "C06", "C08", "C10", "C11", "C12", "C13", "C17", "C19", "C21" };
            return draw_cfg(mix[sim::choose(12, "mix")]);
        }
        Cfg c;
        auto any = [&](std::initializer_list<const char*> l) { for (auto x : l) if (p == x) return true; return false; };
        c.nodes = any({"C08", "C09", "C15", "C14", "C18"}) ? 3 : int(2 + sim::choose(2, "nodes"));
        c.appliers = int(1 + sim::choose(3, "appliers"));
        c.clients = int(1 + sim::choose(3, "clients"));
        c.trx = int(1 + sim::choose(4, "trx"));
        c.tables = int(1 + sim::choose(2, "tables"));
        c.rows = int(1 + sim::choose(6, "rows"));
        if (c.rows == 6) c.rows = 24;          // conflicts mostly below certification
        c.p_stream = pick({0, 0.4, 0.8}, "p_stream");
        c.p_toi = pick({0, 0, 0.1, 0.3}, "p_toi");
        c.p_gap = pick({0, 0.3, 0.7}, "p_gap");
        c.p_rollback = pick({0.1, 0.3}, "p_rb");
        c.p_close = pick({0, 0.05, 0.15}, "p_close");
        c.p_silent = pick({0, 0.1, 0.3}, "p_silent");
        c.p_think = pick({0.1, 0.4, 0.8}, "p_think");
        c.p_lag = pick({0.05, 0.2, 0.5}, "p_lag");
        c.sst_first = sim::chance(0.5, "sst_first");
        c.rb_sync = !sim::chance(0.3, "rb_async");
        c.two_pc = sim::chance(0.4, "two_pc");
        c.replay_same_cs = sim::chance(0.3, "same_cs");
        c.storage_globals = !sim::chance(0.25, "storage-globals");
        c.wait_dep = sim::chance(0.5, "wait_dep");
        // faults: half of the runs are free of them
        const bool faulty = sim::chance(0.6, "faulty");
        if (any({"C05", "C06", "C07", "C08", "C09"})) c.p_stream = pick({0.5, 0.8, 1}, "p_stream2");
        if (any({"C11"})) c.p_toi = pick({0.3, 0.6}, "p_toi2");
        if (any({"C10"})) { c.p_xa = pick({0.5, 0.9}, "p_xa"); c.p_gap = pick({0.3, 0.7}, "p_gap2"); c.p_close = pick({0.05, 0.2, 0.4}, "p_close2"); c.rows = c.rows == 24 ? 24 : c.rows + 3; }
        if (any({"C12"})) { c.p_nbo = pick({0.3, 0.6}, "p_nbo"); c.trx = 2; }
        if (any({"C13"})) { c.p_rsu = 0.3; }
        if (any({"C19"})) { c.p_causal = 0.3; c.p_toi = pick({0.1, 0.3}, "p_toi2"); }
        if (any({"C21"})) { c.phantom = true; c.f_apply = pick({0.1, 0.3}, "f_apply"); c.nodes = 3; }
        else if (!any({"C10", "C18", "C22"}) && sim::chance(any({"C06", "C02"}) ? 0.2 : 0.08, "apply-faults")) { c.phantom = true; c.f_apply = pick({0.1, 0.3}, "f_apply2"); c.nodes = 3; }
        else if (any({"C01", "C02", "C06", "C08"})) c.phantom = sim::chance(0.3, "phantom");
        if (any({"C03", "C04", "C17"})) { c.rows = c.rows == 24 ? 24 : int(1 + sim::choose(3, "rows2")); c.clients = int(2 + sim::choose(2, "clients2")); }
        if (any({"C03", "C04"})) { c.two_pc = sim::chance(0.6, "two_pc2"); c.p_slowprep = pick({0.1, 0.6}, "p_slowprep"); }
        if (any({"C04"})) c.p_stream = pick({0, 0.4, 0.9}, "p_stream3");
        if (any({"C04"})) { c.p_lag = pick({0.3, 0.6}, "p_lag2"); c.p_gap = 0.7; if (sim::chance(0.6, "rows3")) c.rows = 24; }
        if (c.rows == 24 && c.p_gap > 0) c.p_gap = 0.9;
        if (any({"C17"})) { c.rb_sync = true; c.p_think = 0.8; }
        if (faulty)
        {
            c.f_certify = pick({0, 0.05, 0.15}, "f_certify");
            c.f_rollback = pick({0, 0.2, 0.6}, "f_rollback");
            c.f_interrupt = pick({0, 0.3}, "f_interrupt");
            c.f_storage = pick({0, 0.03, 0.1}, "f_storage");
            c.f_prepare = pick({0, 0.05}, "f_prepare");
            c.f_toi = pick({0, 0.1, 0.4}, "f_toi");
            c.f_leave = pick({0, 0.2}, "f_leave");
            c.f_fragabort = pick({0, 0.5}, "f_fragabort");
            c.f_sst = pick({0, 0.1}, "f_sst");
            if (any({"C18"})) c.f_fs = pick({0, 0.1, 0.4}, "f_fs");
            if (c.nodes == 3 || any({"C01"}))
            {
                c.crashes = int(sim::choose(any({"C01", "C06", "C08", "C09", "C15", "C18"}) ? 4 : 2, "crashes"));
                c.partitions = int(sim::choose(any({"C07", "C08", "C14"}) ? 4 : 2, "partitions"));
                c.disconnects = int(sim::choose(any({"C08", "C09", "C14", "C18"}) ? 3 : 2, "disconnects"));
                c.full_crash = c.f_apply == 0 && sim::chance(0.3, "full_crash");
            }
        }
        c.report = any({"C18"});
        if (c.report) { c.trx = 1; c.clients = 1; }
        return c;
    }

    void cluster_scenario(const std::string& profile)
    {
        W = new World();
        W->cfg = draw_cfg(profile);
        Cfg& c = W->cfg;
        sim::set_preempt(pick({0.05, 0.2, 0.5}, "preempt"), pick({0, 0.001, 0.01, 0.05}, "preempt-bb"));
        sim::allow_spurious(pick({0, 0, 0.05}, "spurious"));
        if (c.report) { ro::reset_reports(); simfs::FS->p_fault = c.f_fs; }
        for (int i = 0; i < c.nodes; ++i) W->nodes.push_back(std::unique_ptr<Node>(new Node(i)));
        if (c.phantom) W->phantoms.push_back(wsrep::id(std::string("phantom-00000001")));
        start_node(*W->nodes[0], true);
        bool ok = wait_for(10000000, false, [] { return W->nodes[0]->synced(); });
        SIM_CHECK("C14,*", "bootstrap", ok, "bootstrap node does not get synced: " << status());
        for (auto& n : W->nodes) if (n->idx) start_node(*n, false);
        W->booted = true;
        ok = wait_for(20000000, true, []
        {
            for (auto& n : W->nodes) if (!n->synced()) return false;
            return true;
        });
        SIM_CHECK("C14,C15,*", "join", ok, "nodes do not get synced: " << status());
        sim::probe("cluster-up");
        sim::fiber* nem = sim::spawn("nemesis", 0, nemesis);
        if (c.f_interrupt > 0) sim::spawn("killer", 0, killer);
        sim::fiber* ph = c.phantom ? sim::spawn("phantom", 0, [&c]{ phantom_fiber(3 + c.trx); }) : 0;
        ok = wait_for(60000000, true, [&] { return sim::fiber_done(nem) && all_sessions_done() && (!ph || sim::fiber_done(ph)); });
        SIM_CHECK("C02,C03,C04,C17,*", "stuck", ok, "workload does not finish: " << status());
        final_phase();
    }
}
