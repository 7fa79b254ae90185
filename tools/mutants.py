# Sensitivity experiment: one-site changes to the library, each with the property it breaks.
# (id, property, file, old, new)  -- "old" must occur exactly once unless (old, n) picks the n-th.
T="src/transaction.cpp"; C="src/client_state.cpp"; S="src/server_state.cpp"; X="include/wsrep/streaming_context.hpp"
M=[
("t-sr-replay", "C04", T, "            if (certified())\n            {\n                state(lock, s_must_replay);\n            }\n            else\n            {\n                if (is_streaming())",
                          "            if (certified() && not is_streaming())\n            {\n                state(lock, s_must_replay);\n            }\n            else\n            {\n                if (is_streaming())"),
("t-rbq-connfail", "C07", T, "            if (status)\n            {\n                lock.unlock();\n                client_state_.server_state_.queue_rollback_event(id_);",
                             "            if (status && status != wsrep::provider::error_connection_failed)\n            {\n                lock.unlock();\n                client_state_.server_state_.queue_rollback_event(id_);"),
("t-logpos-generated", "C05", T, "streaming_context_.set_log_position(log_position);", "streaming_context_.set_log_position(client_service_.bytes_generated());"),
("t-counter-late-reset", "C05", T, "        streaming_context_.reset_unit_counter();\n        ret = certify_fragment(lock);", "        ret = certify_fragment(lock);\n        if (ret) streaming_context_.reset_unit_counter();"),
("t-replay-frags", "C06", T, "            lock.unlock();\n            client_service_.remove_fragments();\n            lock.lock();\n            streaming_context_.cleanup();", "            streaming_context_.cleanup();"),
("t-ordered-release", "C02", T, "        if (ordered())\n        {\n            ret = release_commit_order(lock);", "        if (ordered() && certified())\n        {\n            ret = release_commit_order(lock);"),
("t-immutable-sticky", "C03", T, "    is_bf_immutable_ = false;\n    debug_log_state(\"cleanup_leave\");", "    debug_log_state(\"cleanup_leave\");"),
("t-immutable-never-local", "C03", T, "    if (ret == 0 && state() == s_committing)\n    {\n        is_bf_immutable_ = true;", "    if (ret == 0 && state() == s_committing && client_state_.mode() == wsrep::client_state::m_local)\n    {\n        is_bf_immutable_ = true;"),
("t-toi-abort-cert-frag", "C06", T, "    if (is_streaming() && bf_aborted_in_total_order_)", "    if (is_streaming() && bf_aborted_in_total_order_ && state() == s_aborting && bf_abort_client_state_ == wsrep::client_state::s_exec)"),
("t-certified-frag-noshow", "C07", T, "                streaming_context_.certified();\n                ret = 1;\n                error = wsrep::e_deadlock_error;\n                break;", "                ret = 1;\n                error = wsrep::e_deadlock_error;\n                break;"),
("t-sr-rb-twice", "C07", T, "        streaming_context_.rolled_back(id_);", "        if (bf_aborted()) streaming_context_.rolled_back(id_);"),
("t-rb-inprogress", "C07", T, "    while (streaming_rollback_in_progress_)\n        client_state_.cond_.wait(lock);", "    if (streaming_rollback_in_progress_)\n        client_state_.cond_.wait(lock);"),
("t-pending-not-sent-fragment", "C07", T, "    enum wsrep::provider::status status(\n        client_state_.server_state_.send_pending_rollback_events());\n    if (status)\n    {\n        wsrep::log_warning()\n            << \"Failed to replicate pending rollback events: \"\n            << status << \" (\"\n            << wsrep::provider::to_string(status) << \")\";\n        lock.lock();", "    enum wsrep::provider::status status(is_streaming() ? wsrep::provider::success :\n        client_state_.server_state_.send_pending_rollback_events());\n    if (status)\n    {\n        wsrep::log_warning()\n            << \"Failed to replicate pending rollback events: \"\n            << status << \" (\"\n            << wsrep::provider::to_string(status) << \")\";\n        lock.lock();"),
("t-lastwritten-committed", "C19", T, "    if (ordered())\n    {\n        client_state_.update_last_written_gtid", "    if (ordered() && state() == s_committed)\n    {\n        client_state_.update_last_written_gtid"),
("t-lastwritten-cert", "C19", T, "    if (ordered())\n    {\n        client_state_.update_last_written_gtid", "    if (ordered() && certified())\n    {\n        client_state_.update_last_written_gtid"),
("t-must-replay-success", "C04", T, "            // must be replayed.\n            state(lock, s_must_replay);\n            break;", "            // must be replayed.\n            client_state_.override_error(wsrep::e_deadlock_error);\n            state(lock, s_must_replay);\n            break;"),
("t-aborted-noerror", "C16", T, "        if (bf_aborted() && client_state_.current_error() == wsrep::e_success &&\n            !client_service_.is_xa_rollback())", "        if (bf_aborted() && client_state_.current_error() == wsrep::e_success &&\n            certified() && !client_service_.is_xa_rollback())"),
("t-pa-unsafe-drop", "C05", T, "        flags(flags() & ~wsrep::provider::flag::start_transaction);\n        flags(flags() & ~wsrep::provider::flag::pa_unsafe);", "        flags(flags() & ~wsrep::provider::flag::pa_unsafe);"),
("t-sr-keys", "C02", T, "        if (!is_xa())\n        {\n            append_sr_keys_for_commit();\n        }\n        pa_unsafe(true);", "        if (!is_xa())\n        {\n            append_sr_keys_for_commit();\n        }"),
("t-release-frag-stored", "C06", T, "                else\n                {\n                    streaming_context_.stored(sr_ws_meta.seqno());\n                }", "                else if (streaming_context_.fragments().empty())\n                {\n                    streaming_context_.stored(sr_ws_meta.seqno());\n                }"),
("t-bg-rollback-flag", "C17", T, "                state(lock, s_aborting);\n                client_state_.set_rollbacker_active(true);", "                state(lock, s_aborting);\n                if (not is_streaming()) client_state_.set_rollbacker_active(true);"),
("c-close-nowait", "C17", C, "    while (mode_ == m_local && is_rollbacker_active()) {\n        cond_.wait(lock);\n    }", "    if (mode_ == m_local && is_rollbacker_active()) {\n        cond_.wait(lock);\n    }"),
("c-close-streaming-nowait", "C17", C, "    while (mode_ == m_local && is_rollbacker_active()) {", "    while (mode_ == m_local && is_rollbacker_active() && !transaction_.is_streaming()) {"),
("c-wait-if", "C17", C, "    while (is_rollbacker_active())\n    {\n        cond_.wait(lock);\n    }", "    if (is_rollbacker_active())\n    {\n        cond_.wait(lock);\n    }"),
("c-sync-nonotify", "C17", C, "    set_rollbacker_active(false);\n    cond_.notify_all();", "    set_rollbacker_active(false);"),
("c-toi-leave-first", "C11", C, "            status == wsrep::provider::error_connection_failed)\n        {\n            ::usleep(300000);", "            status == wsrep::provider::error_connection_failed ||\n            status == wsrep::provider::error_size_exceeded)\n        {\n            ::usleep(300000);"),
("c-toi-leave-only-cert", "C11", C, "        if (status != wsrep::provider::success &&\n            not poll_meta.gtid().is_undefined())", "        if (status == wsrep::provider::error_certification_failed &&\n            not poll_meta.gtid().is_undefined())"),
("c-toi-pollmeta", "C11", C, "            poll_meta = wsrep::ws_meta();\n        }\n        if (status", "        }\n        if (status"),
("c-toi-interrupted", "C11", C, "           not timed_out &&\n           not client_service_.interrupted(lock));", "           not timed_out);"),
("c-toi-lastwritten", "C19", C, "    if (toi_meta_.gtid().is_undefined() == false)\n    {\n        update_last_written_gtid(toi_meta_.gtid());\n    }", "    if (toi_meta_.gtid().is_undefined() == false && mode_ != m_local)\n    {\n        update_last_written_gtid(toi_meta_.gtid());\n    }"),
("c-toi-err-swallow", "C11", C, "    auto ret = (provider().leave_toi(id_, toi_meta_, err) == provider::success ? 0 : 1);", "    auto ret = (provider().leave_toi(id_, toi_meta_, wsrep::mutable_buffer()) == provider::success ? 0 : 1);"),
("c-nbo-mode", "C12", C, "    if (ret)\n    {\n        mode(lock, m_local);\n        nbo_meta_ = wsrep::ws_meta();\n    }", "    if (ret && not timed_out)\n    {\n        mode(lock, m_local);\n        nbo_meta_ = wsrep::ws_meta();\n    }"),
("c-nbo-end-err", "C12", C, "        provider().leave_toi(id_, toi_meta_, err));\n    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n    int ret;\n    switch (status)\n    {\n    case wsrep::provider::success:\n        ret = 0;\n        break;\n    default:\n        override_error(e_error_during_commit, status);\n        ret = 1;\n        break;\n    }\n    toi_meta_ = wsrep::ws_meta();\n    toi_mode_ = m_undefined;\n    nbo_meta_",
   "        provider().leave_toi(id_, toi_meta_, err));\n    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n    int ret;\n    switch (status)\n    {\n    case wsrep::provider::success:\n        ret = 0;\n        break;\n    default:\n        override_error(e_error_during_commit, status);\n        return 1;\n    }\n    toi_meta_ = wsrep::ws_meta();\n    toi_mode_ = m_undefined;\n    nbo_meta_"),
("c-syncwait-gtid", "C19", C, "    case wsrep::provider::success:\n        sync_wait_gtid_ = result.first;", "    case wsrep::provider::success:\n        if (sync_wait_gtid_.is_undefined()) sync_wait_gtid_ = result.first;"),
("c-syncwait-keep", "C19", C, "    keep_command_error_ = false;\n    sync_wait_gtid_ = wsrep::gtid::undefined();\n", "    keep_command_error_ = false;\n"),
("s-orphan-member", "C08", S, "            (equal_consecutive_views ||\n             not current_view_.is_member(", "            (equal_consecutive_views &&\n             not current_view_.is_member("),
("s-orphan-equal-only-clients", "C08", S, "            (equal_consecutive_views ||\n             not current_view_.is_member(", "            (not current_view_.is_member("),
("s-orphan-nofrags", "C08", S, "            if (adopt_error == 0)\n            {\n                high_priority_service.remove_fragments(ws_meta);", "            if (adopt_error)\n            {\n                high_priority_service.remove_fragments(ws_meta);"),
("s-recovered-flag", "C09", S, "    streaming_appliers_recovered_ = false;\n}", "}"),
("s-disconnect-skip", "C09", S, "    if (hps)\n    {\n        close_transactions_at_disconnect(*hps);\n    }\n    state(lock, s_disconnected);", "    if (hps && state_ != s_disconnecting)\n    {\n        close_transactions_at_disconnect(*hps);\n    }\n    state(lock, s_disconnected);"),
("s-sst-norecover", "C09", S, "        lock.lock();\n        recover_streaming_appliers_if_not_recovered(lock, cs);\n        lock.unlock();\n    }\n\n    enum provider::status const retval(provider().sst_received", "    }\n\n    enum provider::status const retval(provider().sst_received"),
("s-convert-noconv", "C09", S, "    if (state(lock) != s_disconnected)\n    {\n        if (streaming_applier->adopt", "    if (state(lock) == s_synced || state(lock) == s_donor || state(lock) == s_joined)\n    {\n        if (streaming_applier->adopt"),
("s-rbq-pop", "C07", S, "        if (status)\n        {\n            return status;\n        }\n        rollback_event_queue_.pop_front();", "        rollback_event_queue_.pop_front();\n        if (status)\n        {\n            return status;\n        }"),
("s-rbq-sync", "C07", S, "    enum wsrep::provider::status status(send_pending_rollback_events(lock));\n    if (status)\n    {\n        // TODO", "    enum wsrep::provider::status status(wsrep::provider::success);\n    if (status)\n    {\n        // TODO"),
("s-toi-voteerr", "C21", S, "        int const vote_err(provider.commit_order_leave(ws_handle, ws_meta,err));", "        int const vote_err(provider.commit_order_leave(ws_handle, ws_meta, wsrep::mutable_buffer()));"),
("s-resolve", "C21", S, "    if (vote) return vote_err;\n    return", "    if (vote) return 0;\n    return"),
("s-resolve2", "C21", S, "    if (vote) return vote_err;\n    return vote_err != 0 ? vote_err : apply_err;", "    if (vote) return vote_err;\n    return vote_err;"),
("s-apply-norb", "C21", S, "                ret = ret || high_priority_service.log_dummy_write_set(\n                    ws_handle, ws_meta, err);\n                ret = resolve", "                wsrep::mutable_buffer no_error;\n                ret = ret || high_priority_service.log_dummy_write_set(\n                    ws_handle, ws_meta, no_error);\n                ret = resolve"),
("s-applyfrag-discard", "C21", S, "            discard_streaming_applier(server_state,\n                                      high_priority_service,\n                                      streaming_applier,\n                                      ws_meta);\n            ret = resolve", "            ret = resolve"),
("s-applyfrag-adopt", "C21", S, "                ret = ret || (streaming_applier->adopt_apply_error(err), 0);\n                ret = ret || streaming_applier->remove_fragments(ws_meta);\n                ret = ret || streaming_applier->commit(ws_handle, ws_meta);\n                ret = ret || (streaming_applier->after_apply(), 0);\n            }", "                ret = ret || streaming_applier->remove_fragments(ws_meta);\n                ret = ret || streaming_applier->commit(ws_handle, ws_meta);\n                ret = ret || (streaming_applier->after_apply(), 0);\n            }"),
("s-rbfrag-outoforder", "C02", S, "                if (ws_meta.ordered())\n                {\n                    wsrep::mutable_buffer no_error;", "                if (ws_meta.ordered() && server_state.state() == wsrep::server_state::s_synced)\n                {\n                    wsrep::mutable_buffer no_error;"),
("s-commitfrag-removal", "C06", S, "            ret = ret || streaming_applier->remove_fragments(ws_meta);\n\n            streaming_applier->debug_crash(", "            if (trx.streaming_context().fragments().size() > 1)\n                ret = ret || streaming_applier->remove_fragments(ws_meta);\n\n            streaming_applier->debug_crash("),
("s-apply-append", "C06", S, "            ret = high_priority_service.append_fragment_and_commit(\n                ws_handle, ws_meta, data, xid);", "            ret = data.size() ? high_priority_service.append_fragment_and_commit(\n                ws_handle, ws_meta, data, xid) : 0;"),
("s-pause-noblock", "C13", S, "    while (pause_count_ > 0)\n    {\n        cond_.wait(lock);\n    }", "    if (pause_count_ > 0)\n    {\n        cond_.wait(lock);\n    }"),
("s-resume-nonotify", "C13", S, "    --pause_count_;\n    cond_.notify_all();", "    --pause_count_;"),
("s-desync-count", "C13", S, "    if (ret)\n    {\n        --desync_count_;\n    }", "    if (ret < 0)\n    {\n        --desync_count_;\n    }"),
("s-dap-flag", "C13", S, "        desynced_on_pause_ = desync_successful;", "        desynced_on_pause_ = true;"),
("s-rar-flag", "C13", S, "        desynced_on_pause_ = false;\n        resume();", "        resume();\n        desynced_on_pause_ = false;"),
("c-rsu-noresync", "C13", C, "        wsrep::log_warning() << \"RSU failed due to pending transactions\";\n        server_state_.resync();", "        wsrep::log_warning() << \"RSU failed due to pending transactions\";"),
("c-rsu-order", "C13", C, "        wsrep::log_warning() << \"Failed to pause provider\";\n        server_state_.resync();\n        return 1;", "        wsrep::log_warning() << \"Failed to pause provider\";\n        return 1;"),
("s-joined-position", "C15", S, "        if (gtid.seqno() >= connected_gtid().seqno())", "        if (gtid.seqno() <= connected_gtid().seqno())"),
("s-joined-always", "C15", S, "    if (state(lock) < s_joined &&\n        view.state_id().seqno() >= connected_gtid().seqno())", "    if (state(lock) < s_joined)"),
("s-bogus-gtid", "C15", S, "                v.state_id().seqno() > gtid.seqno())\n            {\n                /* Since", "                v.state_id().seqno() > gtid.seqno() + 1)\n            {\n                /* Since"),
("s-sst-fail-recv", "C15", S, "        provider_->sst_received(wsrep::gtid::undefined(), -EINTR);\n", ""),
("s-sst-start-fail", "C15", S, "        return_from_donor_state(lock);\n        ret = 1;", "        ret = 1;"),
("s-donor-force", "C15", S, "    if (state(lock) == s_donor)\n    {\n        state(lock, s_joined);\n    }", "    if (state(lock) != s_synced)\n    {\n        state(lock, s_joined);\n    }"),
("s-waiter-hold", "C14", S, "    while (state_waiters_[state_])\n    {\n        cond_.wait(lock);\n    }", "    if (state_waiters_[state_])\n    {\n        cond_.wait(lock);\n    }"),
("s-waiter-nohold", "C14", S, "    while (state_waiters_[state_])\n    {\n        cond_.wait(lock);\n    }", ""),
("s-waiter-nonotify", "C14", S, "    --state_waiters_[state];\n    cond_.notify_all();\n}", "    --state_waiters_[state];\n}"),
("s-waiter-count", "C14", S, "          --state_waiters_[state];\n            throw", "            throw"),
("s-interrupt", "C14", S, "        if (state != s_disconnecting && state != s_disconnected\n            && (state_ == s_disconnecting || state_ == s_disconnected)", "        if (state != s_disconnecting && state != s_disconnected\n            && (state_ == s_disconnected)"),
("s-final-id", "C14", S, "    state(lock, s_disconnected);\n    id_ = wsrep::id::undefined();", "    state(lock, s_disconnected);"),
("s-onsync-disc", "C14", S, "        if (state_ != s_synced && state_ != s_disconnecting)\n        {\n            state(lock, s_synced);", "        if (state_ != s_synced)\n        {\n            state(lock, s_synced);"),
("s-hist-order", "C14", S, "    state_hist_.push_back(state_);\n    server_service_.log_state_change(state_, state);\n    state_ = state;\n    cond_.notify_all();\n    while (state_waiters_[state_])\n    {\n        cond_.wait(lock);\n    }", "    state_hist_.push_back(state_);\n    const enum wsrep::server_state::state prev(state_);\n    state_ = state;\n    cond_.notify_all();\n    while (state_waiters_[state_])\n    {\n        cond_.wait(lock);\n    }\n    server_service_.log_state_change(prev, state);"),
]
