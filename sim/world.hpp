// Model of everything around wsrep-lib in a cluster: replicated group log,
// reference model, provider, durable storage, lock manager, sessions.
#pragma once
#include "core.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/key.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/transaction.hpp"
#include "wsrep/view.hpp"
#include "wsrep/xid.hpp"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace ro { struct Report; }
namespace w
{
    typedef int64_t seq_t;
    typedef wsrep::provider::flag F;
    typedef wsrep::provider P;

    // ---- payload ---------------------------------------------------------
    struct Op
    {
        int t = 0, r = 0;
        int64_t old = 0, val = 0;
        int gap = -1;
    };
    std::string enc(const Op&);
    std::vector<Op> dec(const std::string&);
    struct Ddl { int t = 0; int64_t val = 0; bool trunc = false; };
    std::string enc(const Ddl&);
    Ddl dec_ddl(const std::string&);

    typedef std::pair<wsrep::id, uint64_t> SrKey;   // origin, trx id

    // ---- certification keys ------------------------------------------------
    struct K { std::vector<std::string> parts; bool excl; };
    bool keys_conflict(const std::vector<K>& a, const std::vector<K>& b);

    // ---- reference model ---------------------------------------------------
    struct Entry;
    struct SrTrx
    {
        std::vector<Op> ops;
        std::map<seq_t, std::string> frags;
        std::set<int> tables;
        bool prepared = false;
        std::string xid;
    };
    struct Model
    {
        std::map<std::pair<int, int>, int64_t> rows;
        std::map<int, int64_t> tver;
        std::map<SrKey, SrTrx> live;
        std::vector<wsrep::id> members;
        std::set<uint64_t> committed;      // trx ids
        std::set<seq_t> nbo_open;
        void apply(const Entry&);
        std::string rows_str() const;
        void apply_ops(const std::vector<Op>&, const Entry&);
    };

    enum Kind { WS, TOI, VIEW };
    struct Entry
    {
        seq_t seqno = 0;
        Kind kind = WS;
        wsrep::id origin;
        uint64_t trx = 0, client = 0;
        int flags = 0;
        std::string data;
        std::vector<K> keys;
        std::set<std::pair<int,int>> gaps;
        seq_t last_seen = 0, depends_on = 0;
        bool cert_ok = true;
        bool barrier = false;
        std::vector<wsrep::id> members;
        std::shared_ptr<const Model> after;
        seq_t nbo_begin = 0;
        int vote = 0;              // 0 none, 1 fails everywhere (confirmed)
        int err_node = -1;         // fails on this node only (vote lost)
        bool err_empty = false;    // apply error without error message
        bool by_xid = false;
        std::string xid;
        bool phantom = false;
    };

    // ---- configuration of one run (drawn from the decision stream) ----------
    struct Cfg
    {
        int nodes = 3, appliers = 2, clients = 2, trx = 3;
        int tables = 2, rows = 4;
        double p_stream = 0.4, p_toi = 0, p_gap = 0.3, p_rollback = 0.15;
        double p_xa = 0, p_nbo = 0, p_rsu = 0, p_causal = 0.05, p_ro = 0.05;
        double p_close = 0.05, p_silent = 0.1, p_think = 0.3;
        bool sst_first = true, rb_sync = true, two_pc = false;
        bool storage_globals = true;
        bool replay_same_cs = false, wait_dep = true;
        bool phantom = false;
        double f_certify = 0, f_rollback = 0, f_interrupt = 0, f_storage = 0;
        double f_prepare = 0, f_apply = 0, f_toi = 0, f_leave = 0, f_adopt = 0;
        double f_fragabort = 0;
        int crashes = 0, partitions = 0, disconnects = 0, donors = 0, admin = 0;
        double p_slowprep = 0.1, p_lag = 0.1;
        double p_sst = 0.5;
        bool full_crash = false;
        double f_sst = 0;
        bool report = false;
        double f_fs = 0;
    };

    // ---- durable storage of a node -------------------------------------------
    struct Frag { std::string data; int flags = 0; std::string xid; };
    struct Store
    {
        std::map<std::pair<int, int>, int64_t> rows;
        std::map<int, int64_t> tver;
        std::map<SrKey, std::map<seq_t, Frag>> frags;
        seq_t position = 0;
        wsrep::view view;
        std::map<uint64_t, seq_t> committed;     // trx id -> seqno
    };

    struct Node;
    struct SeTrx;
    struct Cs;

    // ---- storage engine locks ---------------------------------------------------
    struct LockMgr
    {
        explicit LockMgr(Node& n) : node(n), wq("locks") { }
        Node& node;
        std::map<std::string, SeTrx*> x;              // row and gap locks
        std::map<int, std::set<SeTrx*>> mdl_s;
        std::map<int, SeTrx*> mdl_x;
        std::map<int, int> mdl_x_pending;
        sim::wait_queue wq;
        // 0 ok, 1 aborted, 2 timeout
        int lock(SeTrx&, const std::string& res);
        int mdl_shared(SeTrx&, int t);
        void mdl_excl(SeTrx&, int t, seq_t toi_seqno);
        void release_rows(SeTrx&);
        void keep_rows(SeTrx&, const std::set<std::string>&);
        void release_mdl(SeTrx&);
        bool try_abort(SeTrx& victim, seq_t bf_seqno, bool total_order, std::function<bool()> still);
        void bf_stall(sim::usec_t since, const std::string& what);
    };

    struct SeTrx
    {
        Node* node = 0;
        Cs* cs = 0;
        bool active = false;
        uint64_t ord = 0;
        bool hp = false;               // brute force applier
        bool streaming = false;        // streaming applier
        seq_t bf_seqno = 0;
        std::map<std::pair<int, int>, int64_t> writes;
        std::set<std::string> locks;
        std::set<int> mdl;
        std::vector<std::pair<SrKey, seq_t>> frag_remove;
        std::vector<SrKey> frag_remove_all;
        std::vector<std::pair<SrKey, std::pair<seq_t, Frag>>> frag_add;
        bool has_changes() const
        { return !writes.empty() || !frag_remove.empty() || !frag_add.empty() || !frag_remove_all.empty(); }
        void begin(Node*, Cs*, bool hp_, bool streaming_);
        int64_t read(int t, int r) const;
        int write(const Op&, bool use_gap);
        void commit(seq_t seqno, uint64_t trx);      // atomic, durable
        void rollback();                             // undo, release row locks
        void end();                                  // release table locks
        void take(SeTrx&);
    };

    // ---- client state with its own mutex ---------------------------------------
    struct CsSync { explicit CsSync(bool hp) : m(hp ? "applier client state" : "client state") { } sim::mutex m; sim::cond c; };
    struct Cs : private CsSync, public wsrep::client_state
    {
        Cs(Node& n, wsrep::server_state& ss, wsrep::client_service& svc,
           uint64_t id, enum mode mode)
            : CsSync(mode == wsrep::client_state::m_high_priority)
            , wsrep::client_state(CsSync::m, CsSync::c, ss, svc, wsrep::client_id(id), mode)
            , node(n), se() { se.node = &n; se.cs = this; }
        ~Cs() { }
        Node& node;
        SeTrx se;
        struct Session* session = 0;
        struct Hps* hps = 0;
        bool rb_active = false;     // queued to or running in rollbacker
        // A DBMS does not destroy a session which another thread of it aborts.
        int pins = 0;
        const char* dead = 0;
        void destroy(const char* what)
        {
            dead = what;
            race::sync(this);
            if (!pins) race::destroyed(this, sizeof(*this), what);
        }
        struct pin
        {
            Cs* c;
            explicit pin(Cs* p) : c(p) { ++c->pins; }
            ~pin() { race::sync(c); if (!--c->pins && c->dead) race::destroyed(c, sizeof(*c), c->dead); }
            pin(const pin&) = delete; void operator=(const pin&) = delete;
        };
        sim::mutex& mtx() { return CsSync::m; }
    };

    // The session the running thread works for (a DBMS keeps this in thread
    // local storage), set and reset by store_globals() and reset_globals().
    inline void set_ctx(Cs* cs) { sim::local() = cs; }
    inline Cs* ctx() { return static_cast<Cs*>(sim::local()); }
    void ctx_check(const Cs* cs, const char* what);

    struct ClientSvc : wsrep::client_service
    {
        explicit ClientSvc(Node& n) : node(n) { }
        Node& node;
        Cs* cs = 0;
        struct Session* s = 0;
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const WSREP_OVERRIDE;
        void reset_globals() WSREP_OVERRIDE { set_ctx(0); }
        void store_globals() WSREP_OVERRIDE;
        int prepare_data_for_replication() WSREP_OVERRIDE;
        void cleanup_transaction() WSREP_OVERRIDE;
        bool statement_allowed_for_streaming() const WSREP_OVERRIDE;
        size_t bytes_generated() const WSREP_OVERRIDE;
        int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) WSREP_OVERRIDE;
        int remove_fragments() WSREP_OVERRIDE;
        int bf_rollback() WSREP_OVERRIDE;
        void emergency_shutdown() WSREP_OVERRIDE;
        void will_replay() WSREP_OVERRIDE;
        void signal_replayed() WSREP_OVERRIDE;
        enum wsrep::provider::status replay() WSREP_OVERRIDE;
        enum wsrep::provider::status replay_unordered() WSREP_OVERRIDE;
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>&) WSREP_OVERRIDE;
        enum wsrep::provider::status commit_by_xid() WSREP_OVERRIDE;
        bool is_explicit_xa() WSREP_OVERRIDE;
        bool is_prepared_xa() WSREP_OVERRIDE;
        bool is_xa_rollback() WSREP_OVERRIDE;
        void debug_sync(const char*) WSREP_OVERRIDE { sim::yield_point("dsync"); }
        void debug_crash(const char*) WSREP_OVERRIDE { sim::yield_point("dcrash"); }
        void notify_state_change() WSREP_OVERRIDE;
    };

    struct Hps : wsrep::high_priority_service
    {
        Hps(Node& n, bool streaming, Cs* replay_for = 0, bool same_cs = false);
        Node& node;
        ClientSvc svc;
        Cs* cs;
        bool streaming, replaying, same_cs, adopted_error;
        bool released;
        std::pair<wsrep::id, wsrep::transaction_id> key;    // last transaction
        Cs* orig;
        wsrep::xid orig_xid;
        void shutdown();
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE;
        int next_fragment(const wsrep::ws_meta&) WSREP_OVERRIDE;
        const wsrep::transaction& transaction() const WSREP_OVERRIDE { return cs->transaction(); }
        int adopt_transaction(const wsrep::transaction&) WSREP_OVERRIDE;
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) WSREP_OVERRIDE;
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::const_buffer&, const wsrep::xid&) WSREP_OVERRIDE;
        int remove_fragments(const wsrep::ws_meta&) WSREP_OVERRIDE;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE;
        int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) WSREP_OVERRIDE;
        int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) WSREP_OVERRIDE;
        void after_apply() WSREP_OVERRIDE;
        void store_globals() WSREP_OVERRIDE { set_ctx(cs); cs->store_globals(); }
        void reset_globals() WSREP_OVERRIDE { set_ctx(0); }
        void switch_execution_context(wsrep::high_priority_service&) WSREP_OVERRIDE { }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer&) WSREP_OVERRIDE;
        void adopt_apply_error(wsrep::mutable_buffer&) WSREP_OVERRIDE;
        bool is_replaying() const WSREP_OVERRIDE { return replaying; }
        bool op_fails(const char* what);
        int start(const wsrep::ws_handle&, const wsrep::ws_meta&);
        void debug_crash(const char*) WSREP_OVERRIDE { sim::yield_point("dcrash"); }
        int apply_ops(seq_t seqno, const std::vector<Op>&, bool use_gap, int fail_at);
    };

    struct StorageSvc : wsrep::storage_service
    {
        explicit StorageSvc(Node& n);
        Node& node;
        ClientSvc svc;
        Cs* cs;
        SrKey key;
        Frag frag;
        int start_transaction(const wsrep::ws_handle&) WSREP_OVERRIDE;
        void adopt_transaction(const wsrep::transaction&) WSREP_OVERRIDE;
        int append_fragment(const wsrep::id&, wsrep::transaction_id, int, const wsrep::const_buffer&, const wsrep::xid&) WSREP_OVERRIDE;
        int update_fragment_meta(const wsrep::ws_meta&) WSREP_OVERRIDE;
        int remove_fragments() WSREP_OVERRIDE;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE;
        void store_globals() WSREP_OVERRIDE;
        void reset_globals() WSREP_OVERRIDE { set_ctx(0); }
        bool requires_globals() const WSREP_OVERRIDE;
        void shutdown();
    };

    struct ServerSvc : wsrep::server_service
    {
        explicit ServerSvc(Node& n) : node(n) { }
        Node& node;
        wsrep::storage_service* storage_service(wsrep::client_service&) WSREP_OVERRIDE;
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) WSREP_OVERRIDE;
        void release_storage_service(wsrep::storage_service*) WSREP_OVERRIDE;
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) WSREP_OVERRIDE;
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) WSREP_OVERRIDE;
        void release_high_priority_service(wsrep::high_priority_service*) WSREP_OVERRIDE;
        void background_rollback(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&) WSREP_OVERRIDE;
        void bootstrap() WSREP_OVERRIDE;
        void log_message(enum wsrep::log::level, const char*) WSREP_OVERRIDE { }
        void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) WSREP_OVERRIDE { }
        void log_view(wsrep::high_priority_service*, const wsrep::view&) WSREP_OVERRIDE;
        void recover_streaming_appliers(wsrep::client_service&) WSREP_OVERRIDE;
        void recover_streaming_appliers(wsrep::high_priority_service&) WSREP_OVERRIDE;
        void recover();
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) WSREP_OVERRIDE;
        wsrep::gtid get_position(wsrep::client_service&) WSREP_OVERRIDE;
        void set_position(wsrep::client_service&, const wsrep::gtid&) WSREP_OVERRIDE;
        void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state) WSREP_OVERRIDE;
        bool sst_before_init() const WSREP_OVERRIDE;
        std::string sst_request() WSREP_OVERRIDE;
        int start_sst(const std::string&, const wsrep::gtid&, bool) WSREP_OVERRIDE;
        int wait_committing_transactions(int) WSREP_OVERRIDE;
        void debug_sync(const char*) WSREP_OVERRIDE { sim::yield_point("dsync"); }
    };

    struct SsSync { SsSync() : m("server state") { } sim::mutex m; sim::cond c; };
    struct ServerState : private SsSync, public wsrep::server_state
    {
        ServerState(Node& n, ServerSvc& svc, const wsrep::gtid& pos, enum rollback_mode rm);
        sim::mutex& mtx() { return SsSync::m; }
    };

    // ---- provider ------------------------------------------------------------------
    struct PTrx
    {
        uint64_t id = 0, client = 0;
        std::vector<K> keys;
        std::string data;
        bool must_abort = false;
        seq_t seqno = 0;
        int flags = 0;
        bool delivered = false;
        bool entered = false, left = false, cancelled = false, replaying = false;
        bool replayed = false, in_certify = false;
        bool frag_left = false;
        seq_t read_view = -1;
    };
    struct ApplyCtx { seq_t seqno; bool replay; uint64_t trx; };

    enum EvKind { EV_ENTRY, EV_NONPRIM, EV_FINAL, EV_CONNECT, EV_SYNC, EV_JOIN_ST, EV_DONATE };
    struct Ev { EvKind kind; seq_t seqno; int arg; seq_t upto; };

    struct SimProvider : wsrep::provider
    {
        SimProvider(wsrep::server_state& ss, Node& n) : wsrep::provider(ss), node(n) { }
        Node& node;
        enum status connect(const std::string&, const std::string&, const std::string&, bool) WSREP_OVERRIDE;
        int disconnect() WSREP_OVERRIDE;
        int capabilities() const WSREP_OVERRIDE { return 0; }
        int desync() WSREP_OVERRIDE;
        int resync() WSREP_OVERRIDE;
        wsrep::seqno pause() WSREP_OVERRIDE;
        int resume() WSREP_OVERRIDE;
        enum status run_applier(wsrep::high_priority_service*) WSREP_OVERRIDE;
        int start_transaction(wsrep::ws_handle&) WSREP_OVERRIDE { return 0; }
        enum status assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) WSREP_OVERRIDE;
        int append_key(wsrep::ws_handle&, const wsrep::key&) WSREP_OVERRIDE;
        enum status append_data(wsrep::ws_handle&, const wsrep::const_buffer&) WSREP_OVERRIDE;
        enum status certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) WSREP_OVERRIDE;
        enum status bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) WSREP_OVERRIDE;
        enum status rollback(wsrep::transaction_id) WSREP_OVERRIDE;
        enum status commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE;
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) WSREP_OVERRIDE;
        int release(wsrep::ws_handle&) WSREP_OVERRIDE;
        enum status replay(const wsrep::ws_handle&, wsrep::high_priority_service*) WSREP_OVERRIDE;
        enum status enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) WSREP_OVERRIDE;
        enum status leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) WSREP_OVERRIDE;
        std::pair<wsrep::gtid, enum status> causal_read(int) const WSREP_OVERRIDE;
        enum status wait_for_gtid(const wsrep::gtid&, int) const WSREP_OVERRIDE;
        wsrep::gtid last_committed_gtid() const WSREP_OVERRIDE;
        enum status sst_sent(const wsrep::gtid&, int) WSREP_OVERRIDE;
        enum status sst_received(const wsrep::gtid&, int) WSREP_OVERRIDE;
        enum status enc_set_key(const wsrep::const_buffer&) WSREP_OVERRIDE { return success; }
        std::vector<status_variable> status() const WSREP_OVERRIDE { return std::vector<status_variable>(); }
        void reset_status() WSREP_OVERRIDE { }
        std::string options() const WSREP_OVERRIDE { return ""; }
        enum status options(const std::string&) WSREP_OVERRIDE { return success; }
        enum status set_node_isolation(enum node_isolation) WSREP_OVERRIDE { return success; }
        std::string name() const WSREP_OVERRIDE { return "sim"; }
        std::string version() const WSREP_OVERRIDE { return "0"; }
        std::string vendor() const WSREP_OVERRIDE { return "sim"; }
        void* native() const WSREP_OVERRIDE { return 0; }
        // internals
        PTrx& trx(uint64_t id);
        PTrx* find(uint64_t id);
        enum status enter(seq_t seqno, PTrx* interruptible);
        void leave(seq_t seqno);
        void cancel(seq_t seqno);
        void complete(seq_t seqno);
        void advance();
        wsrep::ws_meta meta(const Entry&) const;
        enum status by_xid(wsrep::client_id, int flags, wsrep::ws_meta&);
        void process(const Ev&, Hps&);
        bool apply_fails_here(const Entry&) const;
        void fail_on_one_node(Entry& e);
        void apply_entry(const Entry&, Hps&);
        void deliver_view(const Entry&, Hps&);
    };

    struct Session;
    // One incarnation of a node process plus its durable Store.
    struct Node
    {
        Node(int i) : idx(i), mon_wq("monitor"), q_wq("applyq"), rb_wq("rollbacker"), replay_wq("replayers"), recv_wq("recv"), misc_wq("misc"), down_wq("down") { }
        int idx;
        int inc = 0;
        int group = 0;             // fiber group
        bool up = false;           // process running
        Store store;
        wsrep::id uuid;
        std::unique_ptr<ServerSvc> svc;
        std::unique_ptr<ServerState> ss;
        SimProvider* prov = 0;
        std::unique_ptr<LockMgr> locks;

        // group side
        int component = 0;
        bool connected = false;    // member of group (prim or not)
        bool in_prim = false;      // member of current primary component
        seq_t cursor = 1;          // next entry to receive
        std::deque<seq_t> np_points;   // positions after which a non-primary view comes
        bool donating = false;
        seq_t leave_point = -1;        // final view after this position
        bool joined = false;       // provider has full state, may replicate
        bool sync_pending = false;
        seq_t join_view = 0;       // VIEW which admitted this connection
        bool wait_st = false;      // waiting for state transfer
        bool st_done = false;
        seq_t st_pos = 0;
        bool need_connect_ev = false;
        bool fresh = false;        // connecting (not yet delivered join)
        bool final_pending = false;
        bool leaving = false;

        // monitors
        seq_t last_left = 0;
        std::set<seq_t> cancelled, appl_done;
        seq_t appl_left = 0;
        seq_t entered = 0;
        bool paused = false;
        bool failing = false;          // apply failed, vote pending
        bool inconsistent = false;     // lost a vote, going down
        std::map<uint64_t, bool> applying;   // threads applying, and whether a rollback failed there
        bool may_fail(const char* what);
        int desyncs = 0;
        sim::wait_queue mon_wq, q_wq, rb_wq, replay_wq, recv_wq, misc_wq, down_wq;
        std::deque<Ev> queue;
        int in_flight = 0;
        bool barrier = false;
        int appliers_running = 0;
        bool final_done = false;

        std::map<uint64_t, PTrx> trxs;
        std::map<uint64_t, std::string> xid_of_trx;
        std::deque<Cs*> rb_queue;
        int replaying = 0;
        bool main_initialized = false;
        bool sst_running = false;
        int storage_open = 0;
        std::vector<Session*> sessions;
        bool synced() const;
        enum wsrep::server_state::state st() const { return static_cast<enum wsrep::server_state::state>(last_state); }
        bool quiescent() const;
        std::string id_str() const;
        bool can_replicate() const { return up && connected && in_prim && joined && !leaving && !failing; }
        std::set<seq_t> toi_open, local_toi;
        bool donor_failed = false, st_bypass = false;
        int sst_sent_calls = 0, sst_sent_err = 0, sst_received_calls = 0, sst_received_err = 0;
        seq_t sst_sent_gtid = 0;
        void check_after_error(const Entry&);
        void view_check(const Entry&);
        void final_check();
        void commit_check(seq_t seqno, const char* what);
        void frag_check(seq_t seqno, const char* tags, const char* what);
        bool clean_frags();
        void purge_known(seq_t);
        std::set<SrKey> sa_aborted;    // survives restart
        std::set<SrKey> adopt_failed;  // survives restart
        bool rb_busy = false;          // rollbacker works for a streaming applier
        int sr_appliers = 0;           // streaming appliers created and not released
        std::map<SrKey, seq_t> early_removed;
        int exec_toi(Cs*, const Ddl&, seq_t, bool fail);
        void storage_fault(uint64_t trx, enum wsrep::client_error);
        struct Bf { int calls = 0; enum wsrep::provider::status status = wsrep::provider::success; };
        std::map<sim::fiber*, Bf> bf;  // abort in progress, by aborting thread
        uint64_t se_ord = 0;
        bool recovered = false, snap_ready = false;
        int donor = -1, donate_to = -1;
        int st_attempt = 0, donate_attempt = 0;   // current state transfer (unique)
        bool want_bootstrap = false, init_called = false;
        int booted = 0;
        int last_state = 0;
        int appliers_alive = 0;
        int session_count = 0;
        int open_sessions = 0;
        int rounds = 0;            // how many times sessions were started
        bool serving = false;      // accepts sessions
        sim::usec_t down_at = 0;
        bool restart_due = false;
        bool admin_busy = false;
        Store snap;
        ro::Report* report = 0;    // status report of this incarnation
    };

    enum Claim { C_UNKNOWN, C_COMMITTED, C_FAILED };
    struct TrxInfo
    {
        uint64_t id = 0;
        int node = 0;
        int inc = 0;
        Claim claim = C_UNKNOWN;
        std::string full;             // data generated by the transaction
        std::string replicated;       // concatenated fragment + commit data
        int frags = 0;
        int rollback_events = 0;
        int commit_entries = 0;
        seq_t commit_seqno = 0;
        bool replay_wanted = false;
        int replays = 0;
        bool bf_won = false;
        bool commit_requested = false;
        bool xa = false;
        bool xa_attached = false;      // a session owns the prepared transaction
        bool xa_prepared = false;      // client was told that it is prepared
        int xa_verdict = 0;            // 1 commit, 2 rollback
        int xa_node = -1, xa_inc = 0;  // decision is being sent from here
        bool xa_remote = false;        // decided by xid: commit is done by applier after the client got its result
        bool wrote = false;
        bool frag_cancelled = false;
        bool lost = false;
        bool rb_unsent = false;
    };

    struct World
    {
        Cfg cfg;
        std::vector<std::unique_ptr<Node>> nodes;
        std::deque<Entry> log;             // log[i].seqno == i + 1
        Model model;                       // after last entry
        std::vector<wsrep::id> prim;       // members of current / last primary view
        bool has_prim = false;
        std::map<uint64_t, TrxInfo> trxs;
        uint64_t next_trx = 1, next_client = 1;
        uint64_t next_val = 1;
        bool seq_cb = true;                // provider supports the callback for ordering
        int err_node = -1, err_inc = 0;    // node on which applying is going to fail
        int next_uuid = 1, next_attempt = 1;
        std::map<wsrep::id, int> uuid_node;
        std::vector<wsrep::id> phantoms;
        seq_t max_claimed = 0;             // highest seqno reported committed to a client
        sim::wait_queue log_wq{"log"};
        bool stopping = false, booted = false;
        sim::usec_t prim_lost_at = 0;
        bool no_new_faults = false;
        seq_t nbo_wait = 0;
        std::map<seq_t, std::set<wsrep::id>> nbo_end_calls;   // nodes taking part in the end event
        std::map<seq_t, std::set<wsrep::id>> nbo_gaveup;      // nodes which failed to take part
        std::map<seq_t, seq_t> nbo_end_entry;
        std::map<std::pair<seq_t, int>, int> toi_execs;
        Entry& at(seq_t s) { return log[size_t(s - 1)]; }
        seq_t last() const { return seq_t(log.size()); }
        Entry& append(Entry e);
        void recompute_groups(const std::string& why, bool force_view = false);
        bool bootstrap_prim();
        Node* node_of(const wsrep::id& id);
    };
    extern World* W;
    // Certification key: database, table [, row]
    std::vector<std::string> key_parts(int t, int r = -1);
    wsrep::key make_key(const std::vector<std::string>& parts);     // (parts must stay)
    extern const char* const group_uuid_bytes;
    wsrep::id group_id();
    wsrep::gtid gtid_of(seq_t);
    wsrep::view make_view(const Entry&, const wsrep::id& own);
    void recv_fiber(Node&);
    // check C22: puts the adapter of C providers between library and provider
    extern wsrep::provider* (*wrap_provider)(wsrep::server_state&, Node&, SimProvider*);
    void start_node(Node&, bool bootstrap);
    void crash_node(Node&, const char* why);
    void spawn_appliers(Node&);
    void violation_internal(const char*);
    wsrep::xid mkxid(const std::string&);
    std::string xid_of(uint64_t trx);
    Cfg draw_cfg(const std::string& profile);
    void cluster_scenario(const std::string& profile);
    void control_scenario(const std::string& profile);

    // Client session: program + oracle of one connection.
    struct Session
    {
        Session(Node& n);
        Node& node;
        ClientSvc svc;
        Cs* cs;
        sim::fiber* fiber = 0;
        bool interrupted = false;
        std::string binlog;
        uint64_t trx_id = 0;
        std::string xid;
        bool explicit_xa = false, prepared_xa = false, xa_rollback = false;
        bool no_stream_stmt = false;
        bool open = false;
        bool in_cmd = false;
        enum wsrep::provider::status injected = wsrep::provider::success;
        bool injected_frag = false;
        enum wsrep::client_error injected_err = wsrep::e_success;
        seq_t expect_lw = 0;
        bool closed = false;
        bool dbms_error = false;
        std::string dbms_error_str;
        int stream_unit = 0; size_t stream_size = 0;
        size_t unit_count = 0;
        size_t frag_expect_pos = 0;
        bool frag_now = false;         // fragment expected in this step
        int frags_before = 0;
        int toi_calls = 0;
        seq_t toi_seqno = 0;
        uint64_t bf_hit = 0;
        uint64_t last_trx = 0;
        uint64_t replay_trx = 0;
        bool cleaned = false;
        int will_replays = 0;
        sim::wait_queue wq{"session"};
        // client side view
        uint64_t cur = 0;              // transaction the client believes to be open
        bool cert_failed = false, rb_failed = false, conn_failed = false, stmt_refused = false;
        bool in_toi = false;
        sim::usec_t int_time = 0;      // when the session was interrupted
        sim::usec_t toi_deadline = 0;
        enum wsrep::provider::status toi_last = wsrep::provider::success;
        sim::usec_t toi_ret = 0;
        bool leave_failed = false;
        bool cb_given = false; int cb_calls = 0, cb_want = 0;   // callback of the caller, see provider::seq_cb
        bool leave_check = false;            // the next leave of isolation must carry leave_err
        std::string leave_err;
        seq_t lw = 0;                  // last written position seen
        bool lw_known = true;
        bool stmt_done = false;
        bool quit = false;             // told to close
        void interrupt();
        void run();
        void command(bool silent, std::function<void()> body);
        void result(enum wsrep::client_error, enum wsrep::provider::status, bool commit);
        bool begin();
        int statement();
        int do_commit();
        void do_rollback();
        void transaction();
        void toi();
        void nbo();
        void rsu();
        void causal();
        void xa();
        void xa_prepare();
        void xa_finish();
        void xa_rollback_cmd();
        void xa_decide(uint64_t trx);
        bool xa_decide_any();
        int xa_by_xid(const std::string& x, bool commit);
        void xa_result(enum wsrep::client_error, enum wsrep::provider::status);
        void check_cause(enum wsrep::client_error, enum wsrep::provider::status);
        bool xa_broken = false;        // XA transaction needs an explicit rollback
        void think();
        void close_session();
        void lw_check(const char*);
        void reset_trx();
        void streaming_setup();
        bool step_expect(int unit);
        void after_stmt();
        int row_step();
        std::string held;              // generated but not yet part of a complete event
        bool hold_rows = false, append_failed = false, nothing_step = false, row_append = false, in_prepare_data = false, flushing = false;
    };
}
