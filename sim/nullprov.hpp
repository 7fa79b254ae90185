// Provider which does nothing: base of scripted providers.
#pragma once
#include "wsrep/provider.hpp"
#include "wsrep/gtid.hpp"
struct NullProvider : wsrep::provider
{
    explicit NullProvider(wsrep::server_state& ss) : wsrep::provider(ss) { }
    enum status connect(const std::string&, const std::string&, const std::string&, bool) WSREP_OVERRIDE { return success; }
    int disconnect() WSREP_OVERRIDE { return 0; }
    int capabilities() const WSREP_OVERRIDE { return 0; }
    int desync() WSREP_OVERRIDE { return 0; }
    int resync() WSREP_OVERRIDE { return 0; }
    wsrep::seqno pause() WSREP_OVERRIDE { return wsrep::seqno(0); }
    int resume() WSREP_OVERRIDE { return 0; }
    enum status run_applier(wsrep::high_priority_service*) WSREP_OVERRIDE { return success; }
    int start_transaction(wsrep::ws_handle&) WSREP_OVERRIDE { return 0; }
    enum status assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) WSREP_OVERRIDE { return success; }
    int append_key(wsrep::ws_handle&, const wsrep::key&) WSREP_OVERRIDE { return 0; }
    enum status append_data(wsrep::ws_handle&, const wsrep::const_buffer&) WSREP_OVERRIDE { return success; }
    enum status certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) WSREP_OVERRIDE { return success; }
    enum status bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) WSREP_OVERRIDE { return success; }
    enum status rollback(wsrep::transaction_id) WSREP_OVERRIDE { return success; }
    enum status commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE { return success; }
    int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) WSREP_OVERRIDE { return 0; }
    int release(wsrep::ws_handle&) WSREP_OVERRIDE { return 0; }
    enum status replay(const wsrep::ws_handle&, wsrep::high_priority_service*) WSREP_OVERRIDE { return success; }
    enum status enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) WSREP_OVERRIDE { return success; }
    enum status leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) WSREP_OVERRIDE { return success; }
    std::pair<wsrep::gtid, enum status> causal_read(int) const WSREP_OVERRIDE { return std::make_pair(wsrep::gtid(), success); }
    enum status wait_for_gtid(const wsrep::gtid&, int) const WSREP_OVERRIDE { return success; }
    wsrep::gtid last_committed_gtid() const WSREP_OVERRIDE { return wsrep::gtid(); }
    enum status sst_sent(const wsrep::gtid&, int) WSREP_OVERRIDE { return success; }
    enum status sst_received(const wsrep::gtid&, int) WSREP_OVERRIDE { return success; }
    enum status enc_set_key(const wsrep::const_buffer&) WSREP_OVERRIDE { return success; }
    std::vector<status_variable> status() const WSREP_OVERRIDE { return std::vector<status_variable>(); }
    void reset_status() WSREP_OVERRIDE { }
    std::string options() const WSREP_OVERRIDE { return std::string(); }
    enum status options(const std::string&) WSREP_OVERRIDE { return success; }
    enum status set_node_isolation(enum node_isolation) WSREP_OVERRIDE { return success; }
    std::string name() const WSREP_OVERRIDE { return "opt"; }
    std::string version() const WSREP_OVERRIDE { return "0"; }
    std::string vendor() const WSREP_OVERRIDE { return "sim"; }
    void* native() const WSREP_OVERRIDE { return 0; }
};
