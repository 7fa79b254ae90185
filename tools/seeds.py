# Planted changes: id, property, what each needs in order to manifest, edits, demonstration.
T="src/transaction.cpp"; C="src/client_state.cpp"; S="src/server_state.cpp"
INC="include/wsrep/"
CM="P::flag::commit"; ST="P::flag::start_transaction"
SEEDS=[]
def seed(id,prop,needs,breaks,edits,demo): SEEDS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))

seed("rollback-event-lost-on-disconnect","C07",
 "A streaming transaction is rolled back while the connection to the cluster is down, and the same session or another one replicates again after reconnecting.",
 "The rollback event of a streaming transaction is not queued if the provider reports a connection failure, so the other nodes never learn that the transaction rolled back.",
 [(T,"            if (status)\n            {\n                lock.unlock();\n                client_state_.server_state_.queue_rollback_event(id_);",
     "            // The members left behind clean up on configuration change if\n            // the connection is gone.\n            if (status && status != wsrep::provider::error_connection_failed)\n            {\n                lock.unlock();\n                client_state_.server_state_.queue_rollback_event(id_);")],
r'''
using namespace kit;
static void demo()
{
    one o;
    int calls = 0;
    o.ss.prov().on_rollback = [&](wsrep::transaction_id) { return ++calls == 1 ? P::error_connection_failed : P::success; };
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    EXPECT(o.tc.is_streaming());
    o.cc.before_rollback(); o.cc.after_rollback();
    o.cc.after_statement();
    o.cc.after_command_before_result(); o.cc.after_command_after_result();
    // Connection is back: the next write set must be preceded by the lost rollback event.
    o.cc.before_command(); o.cc.before_statement();
    o.cc.start_transaction(wsrep::transaction_id(2));
    o.cc.before_commit(); o.cc.ordered_commit(); o.cc.after_commit(); o.cc.after_statement();
    int n = 0;
    for (auto i : o.ss.prov().rollback_ids) n += i == 1;
    EXPECT(n == 2);
}
''')

seed("replay-certfail-leaves-fragments","C06",
 "A streaming transaction is BF aborted during the certification of its last fragment, goes to replay, and the replay ends in certification failure.",
 "Fragments of the failed transaction stay in the streaming log of the originating node.",
 [(T,"            lock.unlock();\n            client_service_.remove_fragments();\n            lock.lock();\n            streaming_context_.cleanup();",
     "            // Fragment storage is cleaned up when the rollback is applied.\n            streaming_context_.cleanup();")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    EXPECT(o.svc.fs.rows.size() == 1);
    o.ss.prov().replay_result_ = P::error_certification_failed;
    o.ss.prov().on_certify = [&](wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta& m)
    { o.cc.bf_abort(wsrep::seqno(5)); m = meta(6, "1", 1, 0); return P::error_bf_abort; };
    auto before = o.svc.fs.rows;
    EXPECT(o.cc.before_commit() != 0);
    EXPECT(o.tc.state() == wsrep::transaction::s_must_replay);
    // The transaction rolls back, and with it the removal of its fragments.
    o.cc.before_rollback(); o.svc.fs.rows = before; o.cc.after_rollback();
    EXPECT(o.cc.after_statement() == 1);
    EXPECT(o.cc.current_error() == wsrep::e_deadlock_error);
    EXPECT(o.svc.fs.rows.empty());
}
''')

seed("replayed-commit-reported-as-deadlock","C04",
 "A BF abort arrives after the write set has been certified and before the client takes its mutex back, and the replay then commits.",
 "The transaction is committed by replay in the whole cluster but the client is told that it failed with a deadlock.",
 [(T,"            // must be replayed.\n            state(lock, s_must_replay);\n            break;",
     "            // must be replayed.\n            state(lock, s_must_replay);\n            if (is_streaming())\n            {\n                client_state_.override_error(wsrep::e_deadlock_error);\n            }\n            break;")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    o.cc.on_sync = [&](const char* p) { if (std::string(p) == "wsrep_after_certification") o.cc.bf_abort(wsrep::seqno(7)); };
    EXPECT(o.cc.before_commit() != 0);
    EXPECT(o.tc.state() == wsrep::transaction::s_must_replay);
    o.cc.on_sync = nullptr;
    o.cc.before_rollback(); o.cc.after_rollback();
    EXPECT(o.cc.after_statement() == 0);
    EXPECT(o.tc.state() == wsrep::transaction::s_committed);
    EXPECT(o.cc.current_error() == wsrep::e_success);
}
''')

seed("immutable-flag-kept-for-next","C03",
 "A second transaction in the same session, after one that reached the commit section, conflicts with an ordered write set.",
 "The flag which makes a committing transaction immune to BF abort is left set, so later transactions of the session cannot be BF aborted and block appliers.",
 [(T,"    xid_.clear();\n    is_bf_immutable_ = false;\n","    xid_.clear();\n    is_bf_immutable_ = is_bf_immutable_ && client_state_.mode() == wsrep::client_state::m_local;\n")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.before_commit() == 0);
    EXPECT(o.cc.ordered_commit() == 0);
    EXPECT(o.cc.after_commit() == 0);
    EXPECT(o.cc.after_statement() == 0);
    EXPECT(o.cc.before_statement() == 0);
    o.cc.start_transaction(wsrep::transaction_id(2));
    EXPECT(o.cc.bf_abort(wsrep::seqno(10)));
    if (o.tc.state() == wsrep::transaction::s_must_abort) { o.cc.before_rollback(); o.cc.after_rollback(); o.cc.after_statement(); }
}
''')

seed("certfail-keeps-commit-order","C02",
 "Certification of a local write set fails after the write set has got a position in the total order.",
 "The commit order slot of the failed write set is never passed, so every later commit on the node waits for ever and the position is skipped.",
 [(T,"        if (ordered())\n        {\n            ret = release_commit_order(lock);","        if (certified() && ordered())\n        {\n            ret = release_commit_order(lock);")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.start_transaction(wsrep::transaction_id(1));
    o.ss.prov().on_certify = [&](wsrep::client_id, wsrep::ws_handle&, int f, wsrep::ws_meta& m)
    { m = meta(11, "1", 1, f); return P::error_certification_failed; };
    EXPECT(o.cc.before_commit() != 0);
    o.cc.before_rollback(); o.cc.after_rollback();
    EXPECT(o.cc.after_statement() == 1);
    EXPECT(o.ss.prov().left.size() == 1 && o.ss.prov().left[0] == 11);
}
''')

seed("toi-retry-ignores-kill","C11",
 "A session is killed while it retries to enter total order isolation with a deadline.",
 "The session keeps retrying until the deadline although it was interrupted.",
 [(C,"           not timed_out &&\n           not client_service_.interrupted(lock));","           not timed_out &&\n           not (status == wsrep::provider::error_connection_failed &&\n                client_service_.interrupted(lock)));")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.ss.prov().on_enter_toi = [](wsrep::client_id, wsrep::ws_meta&, int) { return P::error_certification_failed; };
    bool killed = false;
    o.cc.on_interrupted = [&]() { bool r = killed; killed = true; return r; };
    wsrep::key_array keys;
    EXPECT(o.cc.enter_toi_local(keys, wsrep::const_buffer(), wsrep::clock::now() + std::chrono::seconds(3)) != 0);
    EXPECT(o.ss.prov().enter_toi_calls <= 3);
}
''')

seed("toi-failed-meta-kept","C11",
 "Entering total order isolation fails after the provider has assigned a position.",
 "The session still reports the position of the failed attempt as its current isolated operation.",
 [(C,"            poll_meta = wsrep::ws_meta();\n        }\n        if (status","            if (status == wsrep::provider::error_certification_failed)\n            {\n                poll_meta = wsrep::ws_meta();\n            }\n        }\n        if (status"),],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.ss.prov().on_enter_toi = [](wsrep::client_id, wsrep::ws_meta& m, int f) { m = meta(4, "1", -1, f); return P::error_connection_failed; };
    wsrep::key_array keys;
    EXPECT(o.cc.enter_toi_local(keys, wsrep::const_buffer(), std::chrono::time_point<wsrep::clock>()) != 0);
    EXPECT(o.ss.prov().toi_left.size() == 1);
    EXPECT(o.cc.toi_meta().seqno().is_undefined());
}
''')

seed("close-overtakes-rollbacker","C17",
 "An idle streaming session is BF aborted, its connection is closed meanwhile, and the rollbacker wakes the session's condition variable before it has finished.",
 "The session is closed while the background rollbacker still works on it.",
 [(C,"    while (mode_ == m_local && is_rollbacker_active()) {\n        cond_.wait(lock);\n    }","    if (mode_ == m_local && is_rollbacker_active()) {\n        cond_.wait(lock);\n    }")],
r'''
using namespace kit;
static void demo()
{
    one o;
    std::thread rb; std::atomic<bool> done(false);
    o.svc.on_bg = [&](wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state& cs)
    {
        rb = std::thread([&]() {
            std::this_thread::sleep_for(std::chrono::milliseconds(400));
            cs.acquire_ownership();
            cs.before_rollback();
            std::this_thread::sleep_for(std::chrono::milliseconds(400));
            cs.after_rollback();
            done = true;
            cs.sync_rollback_complete();
        });
    };
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    o.cc.after_statement(); o.cc.after_command_before_result(); o.cc.after_command_after_result();
    EXPECT(o.cc.bf_abort(wsrep::seqno(9)));
    o.cc.close();
    EXPECT(done);
    if (!done) { std::printf("session closed under the rollbacker\n"); std::fflush(stdout); _exit(1); }
    rb.join();
}
''')

seed("sst-without-streaming-recovery","C09",
 "A node joins by a state transfer which is older than the position at which it connected (the rest comes incrementally) while streaming transactions of other nodes are in the transferred streaming log.",
 "Streaming appliers are not rebuilt from the transferred log before the node starts to apply.",
 [(S,"        lock.lock();\n        recover_streaming_appliers_if_not_recovered(lock, cs);\n        lock.unlock();\n    }\n\n    enum provider::status const retval(provider().sst_received",
     "        lock.lock();\n        if (state(lock) == s_joined)\n        {\n            recover_streaming_appliers_if_not_recovered(lock, cs);\n        }\n        lock.unlock();\n    }\n\n    enum provider::status const retval(provider().sst_received")],
r'''
using namespace kit;
static void demo()
{
    node n; service& svc(n.svc); server& ss(n.ss);
    client cc(ss, 1, wsrep::client_state::m_high_priority, &svc.fs);
    svc.sst_before_init_ = true;
    ss.connect("cluster", "local", "0", false);
    ss.on_connect(server::view(10, 2, wsrep::view::primary, {"1", "2"}, 0));
    ss.prepare_for_sst();
    svc.sync_point_enabled_ = "on_view_wait_initialized";
    svc.sync_point_action_ = svc.spa_initialize;
    svc.logged_view(server::view(5, 1, wsrep::view::primary, {"1", "2"}, 0));
    svc.position(wsrep::gtid(wsrep::id("1"), wsrep::seqno(8)));
    EXPECT(ss.sst_received(cc, 0) == 0);
    EXPECT(svc.recovered == 1);
}
''')

seed("log-position-runs-ahead","C05",
 "The DBMS hands over less than it has generated so far when a fragment is prepared (the rest is still in a statement cache).",
 "Bytes which were generated but not handed over are counted as replicated, so the next fragment is postponed and the final data are incomplete or the transaction is aborted.",
 [(T,"    streaming_context_.set_log_position(log_position);","    // Everything generated so far is now part of the stream.\n    const size_t generated(client_service_.bytes_generated());\n    streaming_context_.set_log_position(log_position < generated\n                                        ? generated : log_position);")],
r'''
using namespace kit;
struct lagging : client
{
    size_t gen = 0, handed = 0, lag = 0;
    lagging(wsrep::server_state& s, frag_store* f) : client(s, 1, wsrep::client_state::m_local, f) {}
    size_t bytes_generated() const override { return gen; }
    int prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos) override
    {
        std::string d(gen - lag - handed, 'x');
        b.push_back(d);
        handed = pos = gen - lag;
        return 0;
    }
    int row(size_t n) { gen += n; return wsrep::client_state::after_row(); }
};
static void demo()
{
    node n; n.ss.join();
    lagging cc(n.ss, &n.svc.fs);
    cc.open(cc.id()); cc.before_command(); cc.before_statement();
    cc.enable_streaming(wsrep::streaming_context::bytes, 10);
    cc.start_transaction(wsrep::transaction_id(1));
    cc.lag = 6;
    EXPECT(cc.row(12) == 0);                       // fragment of 6 bytes, 6 remain
    EXPECT(cc.transaction().streaming_context().fragments_certified() == 1);
    EXPECT(cc.transaction().streaming_context().log_position() == 6);
    cc.lag = 0;
    EXPECT(cc.row(5) == 0);                        // 11 bytes since the fragment
    EXPECT(cc.transaction().streaming_context().fragments_certified() == 2);
    cc.before_rollback(); cc.after_rollback(); cc.after_statement();
    cc.after_command_before_result(); cc.after_command_after_result();
}
''')

seed("certified-stream-not-replayed","C04",
 "A streaming transaction is BF aborted between certification of its commit write set and commit ordering, and the DBMS starts to roll back before it comes back to the commit hooks.",
 "The certified streaming transaction is rolled back and a rollback event is sent for it instead of replaying it, while all other nodes commit it.",
 [(T,"        case s_must_abort:\n            if (certified())\n            {\n                state(lock, s_must_replay);","        case s_must_abort:\n            if (certified() && not is_streaming())\n            {\n                state(lock, s_must_replay);")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    EXPECT(o.cc.before_prepare() == 0);
    EXPECT(o.tc.state() == wsrep::transaction::s_preparing);
    EXPECT(o.cc.bf_abort(wsrep::seqno(100)));
    EXPECT(o.tc.state() == wsrep::transaction::s_must_abort);
    o.cc.before_rollback();
    EXPECT(o.tc.state() == wsrep::transaction::s_must_replay);
    EXPECT(o.ss.prov().rollback_ids.empty());
    o.cc.after_rollback();
    o.cc.after_statement();
}
''')

seed("position-of-failed-transaction-lost","C19",
 "A write set gets a position in the order, but its certification fails; the session asks for its last written position afterwards.",
 "The last written position of the session misses the position of a transaction which was ordered and rolled back.",
 [(T,"    if (ordered())\n    {\n        client_state_.update_last_written_gtid(ws_meta_.gtid());","    if (state_ == s_committed && ordered())\n    {\n        client_state_.update_last_written_gtid(ws_meta_.gtid());")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.start_transaction(wsrep::transaction_id(1));
    o.ss.prov().on_certify = [&](wsrep::client_id, wsrep::ws_handle&, int f, wsrep::ws_meta& m)
    { m = meta(11, "1", 1, f); return P::error_certification_failed; };
    EXPECT(o.cc.before_commit() != 0);
    o.cc.before_rollback(); o.cc.after_rollback();
    EXPECT(o.cc.after_statement() == 1);
    EXPECT(o.cc.last_written_gtid().seqno() == wsrep::seqno(11));
}
''')

seed("nbo-second-attempt-forgets-begin","C12",
 "The first attempt to enter the end phase of a non-blocking operation fails and takes a position, the second attempt succeeds.",
 "The end phase is replicated without the position of its begin phase.",
 [(C,"    wsrep::ws_meta poll_meta; // tmp var for polling, as enter_toi may clear meta arg on errors\n    do\n    {\n        lock.unlock();\n        poll_meta = meta;\n",
     "    wsrep::ws_meta poll_meta(meta); // tmp var for polling, as enter_toi may clear meta arg on errors\n    do\n    {\n        lock.unlock();\n")],
r'''
using namespace kit;
static void demo()
{
    one o;
    wsrep::key_array keys;
    long long begin_seen = 0; int n = 0;
    o.ss.prov().on_enter_toi = [&](wsrep::client_id, wsrep::ws_meta& m, int f)
    {
        if (f & P::flag::start_transaction) { m = meta(20, "1", -1, f); return P::success; }
        begin_seen = m.seqno().get();
        if (++n == 1) { m = meta(21, "1", -1, f); return P::error_certification_failed; }
        m = meta(22, "1", -1, f); return P::success;
    };
    EXPECT(o.cc.begin_nbo_phase_one(keys, wsrep::const_buffer(), std::chrono::time_point<wsrep::clock>()) == 0);
    EXPECT(o.cc.end_nbo_phase_one(wsrep::mutable_buffer()) == 0);
    EXPECT(o.cc.begin_nbo_phase_two(keys, wsrep::clock::now() + std::chrono::seconds(5)) == 0);
    EXPECT(n == 2);
    EXPECT(begin_seen == 20);
    o.cc.end_nbo_phase_two(wsrep::mutable_buffer());
}
''')

seed("nbo-killed-stays-in-nbo","C12",
 "Entering the end phase of a non-blocking operation fails because the provider interrupts the session.",
 "The session stays in non-blocking operation mode after the failure was reported.",
 [(C,"    if (ret)\n    {\n        mode(lock, m_local);\n        nbo_meta_ = wsrep::ws_meta();\n    }","    if (ret && current_error_ != wsrep::e_interrupted_error)\n    {\n        mode(lock, m_local);\n        nbo_meta_ = wsrep::ws_meta();\n    }")],
r'''
using namespace kit;
static void demo()
{
    one o;
    wsrep::key_array keys;
    EXPECT(o.cc.begin_nbo_phase_one(keys, wsrep::const_buffer(), std::chrono::time_point<wsrep::clock>()) == 0);
    EXPECT(o.cc.end_nbo_phase_one(wsrep::mutable_buffer()) == 0);
    o.ss.prov().on_enter_toi = [&](wsrep::client_id, wsrep::ws_meta&, int) { return P::error_provider_failed; };
    EXPECT(o.cc.begin_nbo_phase_two(keys, std::chrono::time_point<wsrep::clock>()) != 0);
    EXPECT(o.cc.current_error() == wsrep::e_interrupted_error);
    EXPECT(o.cc.mode() == wsrep::client_state::m_local);
    if (o.cc.mode() != wsrep::client_state::m_local) _exit(1);
}
''')

seed("pending-rollback-event-dropped","C07",
 "A remembered rollback event fails a second time when it is sent again, for a reason other than a lost connection.",
 "The rollback event is forgotten after the second failure: other nodes keep the transaction and its locks.",
 [(S,"        const wsrep::transaction_id& id(rollback_event_queue_.front());\n        const enum wsrep::provider::status status(provider().rollback(id));\n        if (status)\n        {\n            return status;\n        }\n        rollback_event_queue_.pop_front();",
     "        const wsrep::transaction_id id(rollback_event_queue_.front());\n        const enum wsrep::provider::status status(provider().rollback(id));\n        if (status == wsrep::provider::error_connection_failed)\n        {\n            return status;\n        }\n        rollback_event_queue_.pop_front();\n        if (status)\n        {\n            return status;\n        }")],
r'''
using namespace kit;
static void demo()
{
    one o;
    int calls = 0;
    o.ss.prov().on_rollback = [&](wsrep::transaction_id) { return ++calls <= 2 ? P::error_warning : P::success; };
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    o.cc.before_rollback(); o.cc.after_rollback();
    o.cc.after_statement();
    EXPECT(calls == 1);
    EXPECT(o.ss.send_pending_rollback_events() != P::success);
    EXPECT(o.ss.send_pending_rollback_events() == P::success);
    EXPECT(calls == 3);
}
''')

seed("recovery-skipped-after-quiet-disconnect","C09",
 "A node disconnects while it has no streaming applier open, but fragments of streaming transactions are in its storage, and connects again without restarting.",
 "Streaming transactions are not rebuilt from storage after the reconnect.",
 [(S,"        streaming_appliers_.erase(i++);\n        server_service_.release_high_priority_service(streaming_applier);\n        high_priority_service.store_globals();\n    }\n    streaming_appliers_recovered_ = false;\n",
     "        streaming_appliers_.erase(i++);\n        server_service_.release_high_priority_service(streaming_applier);\n        high_priority_service.store_globals();\n        streaming_appliers_recovered_ = false;\n    }\n")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc);
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1"}, 0), &a.h);
    n.ss.on_sync();
    EXPECT(n.svc.recovered == 1);
    n.ss.disconnect();
    n.ss.on_view(server::view(-1, -1, wsrep::view::disconnected, {}, -1), &a.h);
    n.ss.connect("cluster", "local", "0", false);
    n.ss.on_connect(server::view(5, 3, wsrep::view::primary, {"1"}, 0));
    n.ss.on_view(server::view(5, 3, wsrep::view::primary, {"1"}, 0), &a.h);
    EXPECT(n.svc.recovered == 2);
}
''')

seed("init-cycle-reevaluated","C14",
 "The server is initialized by another thread, which waited for the initializing state, at the moment the first primary view moves the server there.",
 "The first view makes the transition to initialized a second time, which is not allowed.",
 [(S,"            state(lock, s_initializing);\n            if (was_initialized)\n            {","            state(lock, s_initializing);\n            if (was_initialized || init_initialized_)\n            {")],
r'''
using namespace kit;
static void demo()
{
    node n; n.svc.sst_before_init_ = true;
    n.ss.connect("cluster", "local", "0", false);
    n.ss.on_connect(server::view(1, 1, wsrep::view::primary, {"1"}, 0));
    applier a(n.ss, n.svc);
    n.svc.position(wsrep::gtid(wsrep::id("1"), wsrep::seqno(1)));
    std::atomic<bool> waiting(false), inited(false);
    std::thread::id me = std::this_thread::get_id();
    n.ss.cond_hook().hold = [&]() { return std::this_thread::get_id() == me && !inited; };
    std::thread t([&]() { waiting = true; n.ss.wait_until_state(wsrep::server_state::s_initializing); n.ss.initialized(); inited = true; });
    while (!waiting) std::this_thread::yield();
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1"}, 0), &a.h);
    t.join();
    EXPECT(n.ss.state() == wsrep::server_state::s_joined);
}
''')

seed("donor-reports-before-returning","C15",
 "The provider delivers the synced event to a donor before the call which reports the end of the transfer returns.",
 "The donor is still in donor state when the provider considers it synced.",
 [(S,"    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n\n    return_from_donor_state(lock);\n\n    lock.unlock();\n    enum provider::status const retval(provider().sst_sent(gtid, error));\n    if (retval != provider::success)\n    {\n        std::string msg(\"wsrep::sst_sent() returned an error: \");\n        msg += wsrep::provider::to_string(retval);\n        server_service_.log_message(wsrep::log::warning, msg.c_str());\n    }\n",
     "    enum provider::status const retval(provider().sst_sent(gtid, error));\n    if (retval != provider::success)\n    {\n        std::string msg(\"wsrep::sst_sent() returned an error: \");\n        msg += wsrep::provider::to_string(retval);\n        server_service_.log_message(wsrep::log::warning, msg.c_str());\n    }\n\n    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n    return_from_donor_state(lock);\n")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    EXPECT(n.ss.start_sst("req", wsrep::gtid(wsrep::id("1"), wsrep::seqno(1)), false) == 0);
    EXPECT(n.ss.state() == wsrep::server_state::s_donor);
    n.ss.prov().on_sst_sent = [&](const wsrep::gtid&, int) { n.ss.on_sync(); return P::success; };
    n.ss.sst_sent(wsrep::gtid(wsrep::id("1"), wsrep::seqno(1)), 0);
    EXPECT(n.ss.state() == wsrep::server_state::s_synced);
}
''')

seed("session-resumes-inside-rollback","C17",
 "An idle streaming session is BF aborted and its client sends the next command while the background rollbacker is rolling back the fragments.",
 "The client thread starts the command in the middle of the background rollback.",
 [(C,"    assert(state_ == s_idle);\n    while (is_rollbacker_active())\n    {\n        cond_.wait(lock);\n    }\n    do_acquire_ownership(lock);","    assert(state_ == s_idle);\n    if (is_rollbacker_active())\n    {\n        cond_.wait(lock);\n    }\n    do_acquire_ownership(lock);")],
r'''
using namespace kit;
static void demo()
{
    one o;
    std::thread rb; std::atomic<bool> done(false);
    o.svc.on_bg = [&](wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state& cs)
    {
        rb = std::thread([&]() {
            std::this_thread::sleep_for(std::chrono::milliseconds(400));
            cs.acquire_ownership();
            cs.before_rollback();
            std::this_thread::sleep_for(std::chrono::milliseconds(400));
            cs.after_rollback();
            done = true;
            cs.sync_rollback_complete();
        });
    };
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    o.cc.after_statement(); o.cc.after_command_before_result(); o.cc.after_command_after_result();
    EXPECT(o.cc.bf_abort(wsrep::seqno(9)));
    o.cc.before_command();
    EXPECT(done);
    if (!done) { std::printf("command started inside the rollback\n"); std::fflush(stdout); _exit(1); }
    rb.join();
    o.cc.after_command_before_result(); o.cc.after_command_after_result();
}
''')

seed("prepared-xa-dropped-with-view","C10",
 "Primary status is lost and regained with the same members while an XA transaction of another node is prepared.",
 "Prepared XA transactions of other nodes are rolled back by the view.",
 [(S,"        if ((streaming_applier->transaction().state() !=\n             wsrep::transaction::s_prepared) &&\n            (equal_consecutive_views ||\n             not current_view_.is_member(\n                 streaming_applier->transaction().server_id())))",
     "        const bool orphaned(not current_view_.is_member(\n                                streaming_applier->transaction().server_id()));\n        if (equal_consecutive_views ||\n            (orphaned && streaming_applier->transaction().state() !=\n             wsrep::transaction::s_prepared))")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1),
                  meta(2, "2", 9, P::flag::start_transaction | P::flag::prepare), wsrep::const_buffer("x", 1));
    wsrep::high_priority_service* sa = n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9));
    EXPECT(sa && sa->transaction().state() == wsrep::transaction::s_prepared);
    n.ss.on_view(server::view(-1, -1, wsrep::view::non_primary, {"1"}, 0), &a.h);
    n.ss.on_view(server::view(3, 2, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    EXPECT(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)) != 0);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')

seed("commit-fragment-error-not-voted","C21",
 "Applying the last fragment (commit) of a streaming transaction fails on a node.",
 "The error is not handed to the provider with the position, so no vote takes place.",
 [(S,"            ret = ret || streaming_applier->start_transaction(\n                ws_handle, ws_meta);\n            ret = ret || (streaming_applier->adopt_apply_error(err),0);\n","            ret = ret || streaming_applier->start_transaction(\n                ws_handle, ws_meta);\n")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(2, "2", 9, P::flag::start_transaction), wsrep::const_buffer("x", 1));
    auto* sa = static_cast<hps*>(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)));
    EXPECT(sa != 0);
    sa->on_apply_ws = [](const wsrep::ws_meta&, wsrep::mutable_buffer& e) { e.push_back(std::string("failed")); return 1; };
    n.ss.prov().left.clear(); n.ss.prov().left_err.clear();
    n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(3, "2", 9, P::flag::commit), wsrep::const_buffer("x", 1));
    EXPECT(n.ss.prov().left.size() == 1);
    EXPECT(n.ss.prov().left_err.size() == 1 && n.ss.prov().left_err[0] > 0);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')

seed("option-updated-before-accepted","C20",
 "The provider fails to take a new value of an option for any reason other than a warning.",
 "The visible value of the option changes although the provider rejected it.",
 [("src/provider_options.cpp","    if (ret == provider::success)\n    {\n        option->second->update_value(std::move(value));\n    }\n    return ret;","    if (ret != not_found_error)\n    {\n        option->second->update_value(std::move(value));\n    }\n    return ret;")],
r'''
//PRELUDE #define KIT_OWN_FETCH
using namespace kit;
namespace wsrep { int config_service_v1_fetch(wsrep::provider&, wsrep::provider_options* o)
{
    typedef wsrep::provider_options::option_value_int I;
    o->set_default("a.b", std::unique_ptr<wsrep::provider_options::option_value>(new I(1)), std::unique_ptr<wsrep::provider_options::option_value>(new I(1)), 0);
    return 0;
} }
struct rej : kit::provider { using kit::provider::provider; enum wsrep::provider::status options(const std::string&) override { return P::error_not_allowed; } };
static void demo()
{
    node n; n.ss.join();
    rej p(n.ss);
    wsrep::provider_options o(p);
    EXPECT(o.initial_options() == P::success);
    typedef wsrep::provider_options::option_value_int I;
    EXPECT(o.set("a_b", std::unique_ptr<wsrep::provider_options::option_value>(new I(7))) == P::error_not_allowed);
    EXPECT(std::string(o.get_option("a_b")->value()->as_string()) == "1");
}
''')

seed("report-progress-dedup-before-state","C18",
 "A progress report made in synced state, followed by leaving synced state and the same progress report again.",
 "A progress event which was remembered while it was not allowed to be shown is dropped when it is reported again.",
 [("src/reporter.cpp","        if (state_ != s_synced_running)\n        {\n            // ignore any progress in SYNCED state\n            progress_ = json;\n            write_file(timestamp());\n        }","        progress_ = json;\n        if (state_ != s_synced_running)\n        {\n            // do not show any progress in SYNCED state\n            write_file(timestamp());\n        }")],
r'''
#include "wsrep/reporter.hpp"
#include <fstream>
#include <sstream>
using namespace kit;
static std::string text(const char* f) { std::ifstream is(f); std::stringstream s; s << is.rdbuf(); return s.str(); }
static void demo()
{
    wsrep::default_mutex m;
    wsrep::reporter r(m, "report.json", 4);
    r.report_state(wsrep::server_state::s_synced);
    r.report_progress("{ \"from\": 1, \"to\": 2, \"done\": 1, \"undefined\": -1 }");
    std::string steady = text("report.json");
    r.report_event("{ \"status\": \"x\" }");
    std::string now = text("report.json");
    EXPECT(now.find("\"from\": 1") == std::string::npos);
    EXPECT(steady.find("\"from\": 1") == std::string::npos);
}
''')

seed("resync-flag-read-after-resume","C13",
 "Two threads desync and pause the provider at the same time, the desync of one of them fails, and it gets the pause right after the other one resumes.",
 "The desync of the first thread is never undone: the node stays desynced.",
 [(S,"        bool do_resync = desynced_on_pause_;\n        desynced_on_pause_ = false;\n        resume();\n        if (do_resync)\n        {\n            resync();\n        }","        resume();\n        if (desynced_on_pause_)\n        {\n            desynced_on_pause_ = false;\n            resync();\n        }")],
r'''
using namespace kit;
static void demo()
{
    node n;
    int desyncs = 0, resyncs = 0;
    std::atomic<bool> paused(false);
    n.ss.prov().on_desync = [&]() { return ++desyncs == 2 ? 1 : 0; };
    n.ss.prov().on_resync = [&]() { ++resyncs; return 0; };
    EXPECT(not n.ss.desync_and_pause().is_undefined());
    std::thread b([&]() { n.ss.desync_and_pause(); paused = true; });
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    std::thread::id me = std::this_thread::get_id(); bool resumed = false;
    n.ss.prov().on_resume = [&]() { resumed = true; return 0; };
    n.ss.mutex_hook().after_unlock = [&]() { if (std::this_thread::get_id() == me && resumed && !paused) while (!paused) std::this_thread::yield(); };
    n.ss.resume_and_resync();
    n.ss.mutex_hook().after_unlock = nullptr;
    b.join();
    EXPECT(resyncs == 1);
    n.ss.resume_and_resync();
    EXPECT(resyncs == 1);
}
''')

seed("commit-keys-of-first-table-only","C01",
 "A streaming transaction writes to more than one table and commits.",
 "The commit write set carries the keys of one table only, so that it is not certified against conflicting write sets in the other tables and nodes may apply them in different orders.",
 [(T,"        for (wsrep::sr_key_set::leaf_type::const_iterator\n                 j(i->second.begin());\n             ret == 0 && j != i->second.end(); ++j)","        for (wsrep::sr_key_set::leaf_type::const_iterator\n                 j(i->second.begin());\n             ret == 0 && i == sr_keys_.root().begin() && j != i->second.end(); ++j)")],
r'''
using namespace kit;
struct kp : kit::provider { std::vector<std::string> keys; using kit::provider::provider;
  int append_key(wsrep::ws_handle&, const wsrep::key& k) override { keys.push_back(std::string((const char*)k.key_parts()[0].data(), k.key_parts()[0].size())); return 0; } };
static void demo()
{
    service svc(0); kp* p = 0; wsrep::default_mutex m; wsrep::default_condition_variable c;
    struct srv : wsrep::server_state { srv(wsrep::mutex& m, wsrep::condition_variable& c, service& s) : wsrep::server_state(m, c, s, NULL, "1", "", "", "./", wsrep::gtid::undefined(), 1, wsrep::server_state::rm_sync) {} } ss(m, c, svc);
    svc.ss = &ss;
    ss.set_provider_factory([&](wsrep::server_state& s, const std::string&, const std::string&, const P::services&) { p = new kp(s); return std::unique_ptr<wsrep::provider>(p); });
    ss.load_provider("mock", "");
    ss.connect("cluster", "local", "0", false); ss.on_connect(server::view(0, 1, wsrep::view::primary, {"1"}, 0));
    client cc(ss, 1, wsrep::client_state::m_local, &svc.fs);
    cc.open(cc.id()); cc.before_command(); cc.before_statement();
    cc.enable_streaming(wsrep::streaming_context::row, 1);
    cc.start_transaction(wsrep::transaction_id(1));
    for (const char* t : { "a", "b" }) { wsrep::key k(wsrep::key::exclusive); k.append_key_part(t, 1); k.append_key_part("r", 1); cc.append_key(k); }
    EXPECT(cc.after_row() == 0);
    p->keys.clear();
    EXPECT(cc.before_commit() == 0);
    EXPECT(p->keys.size() == 2);
    cc.ordered_commit(); cc.after_commit(); cc.after_statement();
    cc.after_command_before_result(); cc.after_command_after_result();
}
''')

seed("orphans-closed-before-recovery","C08",
 "A node comes back (disconnect and connect) after the origin of a streaming transaction, whose fragments it has in storage, left the primary component.",
 "Streaming transactions of the departed member are rebuilt from storage after the orphans were discarded, so they stay open with their fragments and locks.",
 [(S,"        recover_streaming_appliers_if_not_recovered(lock,\n                                                    *high_priority_service);\n        close_orphaned_sr_transactions(lock, *high_priority_service);","        close_orphaned_sr_transactions(lock, *high_priority_service);\n        recover_streaming_appliers_if_not_recovered(lock,\n                                                    *high_priority_service);")],
r'''
using namespace kit;
struct rsvc : service
{
    explicit rsvc(wsrep::server_state* s) : service(s) {}
    void recover_streaming_appliers(wsrep::high_priority_service&) override
    {
        ++recovered;
        for (auto& r : fs.rows)
        {
            auto* h = static_cast<hps*>(mk());
            ss->start_streaming_applier(wsrep::id("2"), wsrep::transaction_id(r.first), h);
            h->start_transaction(wsrep::ws_handle(wsrep::transaction_id(r.first), (void*)1), meta(r.second[0], "2", r.first, P::flag::start_transaction));
            h->cs->fragment_applied(wsrep::seqno(r.second[0]));
            h->after_apply();
        }
    }
};
static void demo()
{
    rsvc svc(0); server ss("1", wsrep::server_state::rm_sync, svc); svc.ss = &ss;
    ss.up(svc, {"1", "2"});
    applier a(ss, svc);
    ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    ss.on_sync();
    ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(2, "2", 9, P::flag::start_transaction), wsrep::const_buffer("x", 1));
    EXPECT(svc.fs.rows.size() == 1);
    ss.disconnect();
    ss.on_view(server::view(-1, -1, wsrep::view::disconnected, {}, -1), &a.h);
    EXPECT(svc.fs.rows.size() == 1);
    ss.connect("cluster", "local", "0", false);
    ss.on_connect(server::view(5, 3, wsrep::view::primary, {"1", "3"}, 0));
    ss.on_view(server::view(5, 3, wsrep::view::primary, {"1", "3"}, 0), &a.h);
    EXPECT(svc.recovered == 2);
    EXPECT(ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)) == 0);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')

seed("immutable-before-turn-in-2pc","C03",
 "A transaction prepared by two phase commit waits for its commit turn while it holds a lock which a write set ordered before it needs.",
 "The transaction is treated as immune to BF abort before it has got its commit turn: applier and victim wait for each other.",
 [(T,"            // 2PC commit, prepare was done before\n            ret = 0;","            // 2PC commit, prepare was done before\n            ret = 0;\n            is_bf_immutable_ = certified();")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.before_prepare() == 0);
    EXPECT(o.cc.after_prepare() == 0);
    bool aborted = false;
    o.cc.on_sync = [&](const char* p) { if (std::string(p) == "wsrep_before_commit_order_enter") aborted = o.cc.bf_abort(wsrep::seqno(1)); };
    o.ss.prov().on_enter = [&](const wsrep::ws_meta&) { return aborted ? P::error_bf_abort : P::success; };
    int r = o.cc.before_commit();
    EXPECT(aborted);
    EXPECT(r != 0);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')

seed("service-cleared-while-in-use","C22",
 "Two providers of one process use the allowlist service and one of them is unloaded.",
 "The service is taken from the callbacks although another provider still uses it.",
 [("src/allowlist_service_v1.cpp","    --wsrep_allowlist_service_v1::use_count;\n    if (wsrep_allowlist_service_v1::use_count == 0)","    if (wsrep_allowlist_service_v1::use_count-- > 0)")],
r'''
static std::vector<wsrep_allowlist_service_v1_t> given;
extern "C" int wsrep_init_allowlist_service_v1(wsrep_allowlist_service_v1_t* s) { given.push_back(*s); return 0; }
extern "C" void wsrep_deinit_allowlist_service_v1() { }
struct allow : wsrep::allowlist_service
{
    int calls = 0;
    bool allowlist_cb(allowlist_key, const wsrep::const_buffer&) WSREP_NOEXCEPT override { ++calls; return true; }
};
static void demo()
{
    allow a;
    wsrep::provider::services s;
    s.allowlist_service = &a;
    kit26::server one("1"), two("2");
    EXPECT(one.load(s) && two.load(s));
    EXPECT(given.size() == 2);
    wsrep_buf_t b = { "127.0.0.1", 9 };
    EXPECT(given[0].allowlist_cb(given[0].context, WSREP_ALLOWLIST_KEY_IP, &b) == WSREP_OK);
    two.p.reset();
    EXPECT(given[0].allowlist_cb(given[0].context, WSREP_ALLOWLIST_KEY_IP, &b) == WSREP_OK);
    EXPECT(a.calls == 2);
}
''')

seed("exit-decided-before-apply","C22",
 "Applying the write set itself makes the applier exit.",
 "The provider is not told that the applier must exit, it delivers the next write set to it.",
 [("src/wsrep_provider_v26.cpp","            if (high_priority_service->apply(ws_handle, ws_meta, data))\n            {\n                return WSREP_CB_FAILURE;\n            }\n            *exit_loop = high_priority_service->must_exit();\n            return WSREP_CB_SUCCESS;",
   "            *exit_loop = high_priority_service->must_exit();\n            return (high_priority_service->apply(ws_handle, ws_meta, data) ?\n                    WSREP_CB_FAILURE : WSREP_CB_SUCCESS);")],
r'''
struct applier : wsrep::mock_high_priority_service
{
    using wsrep::mock_high_priority_service::mock_high_priority_service;
    int apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e) override
    { must_exit_ = true; return wsrep::mock_high_priority_service::apply_write_set(m, b, e); }
};
static void demo()
{
    kit26::server s("1");
    EXPECT(s.load());
    kit::node n;
    n.ss.join();
    wsrep::mock_client cc(n.ss, wsrep::client_id(1), wsrep::client_state::m_high_priority);
    cc.open(cc.id());
    EXPECT(cc.before_command() == 0);
    applier a(n.ss, &cc, false);
    wsrep_ws_handle_t h = { 5, (void*)1 };
    wsrep_trx_meta_t m;
    memset(&m, 0, sizeof m);
    m.gtid.uuid.data[0] = 1; m.gtid.seqno = 5; m.stid.node.data[0] = 2; m.stid.trx = 5; m.stid.conn = 1; m.depends_on = 4;
    wsrep_buf_t b = { "x", 1 };
    wsrep_bool_t exit = false;
    EXPECT(s.l().args.apply_cb(&a, &h, WSREP_FLAG_TRX_START | WSREP_FLAG_TRX_END, &b, &m, &exit) == WSREP_CB_SUCCESS);
    EXPECT(exit);
    cc.after_command_before_result(); cc.after_command_after_result();
}
''')

seed("key-parts-shared-between-sessions","C22",
 "Two sessions append keys at the same time.",
 "A key of one session reaches the provider with parts of another session's key.",
 [("src/wsrep_provider_v26.cpp","    wsrep_buf_t key_parts[3];\n    for (size_t i(0); i < key.size(); ++i)","    // Scratch space is reused from key to key.\n    static wsrep_buf_t key_parts[3];\n    for (size_t i(0); i < key.size(); ++i)")],
r'''
static std::atomic<int> mixed(0);
static wsrep_status_t append_key(wsrep_t*, wsrep_ws_handle_t* h, const wsrep_key_t* k, size_t, wsrep_key_type_t, wsrep_bool_t)
{
    for (int i = 0; i < 50; ++i)
        for (size_t p = 0; p < k->key_parts_num; ++p)
            if (*static_cast<const char*>(k->key_parts[p].ptr) != char('a' + h->trx_id)) ++mixed;
    return WSREP_OK;
}
static void demo()
{
    kit26::setup() = [](wsrep_t& t) { t.append_key = append_key; };
    kit26::server s("1");
    EXPECT(s.load());
    std::vector<std::thread> t;
    for (int i = 1; i <= 4; ++i)
        t.push_back(std::thread([&s, i]()
        {
            const char c[2] = { char('a' + i), 0 };
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(5);
            while (!mixed && std::chrono::steady_clock::now() < end)
                for (int n = 0; n < 1000; ++n)
                {
                    wsrep::key k(wsrep::key::exclusive);
                    k.append_key_part(c, 1); k.append_key_part(c, 1); k.append_key_part(c, 1);
                    wsrep::ws_handle h((wsrep::transaction_id(i)));
                    s.p->append_key(h, k);
                }
        }));
    for (auto& x : t) x.join();
    EXPECT(mixed == 0);
}
''')

# ---- data races: the two threads of a demonstration are ordered by time only ----
seed("pending-events-checked-without-lock","C23",
 "A brute force aborter queues the rollback event of a streaming transaction while a session of the same node is about to replicate.",
 "The queue of pending rollback events is looked at without the server's lock while another thread adds to it.",
 [(S,"    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n    return send_pending_rollback_events(lock);",
     "    // Pending events are rare: most callers do not need the lock.\n    if (rollback_event_queue_.empty())\n    {\n        return wsrep::provider::success;\n    }\n    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n    return send_pending_rollback_events(lock);")],
r'''
using namespace kit;
static void demo()
{
    one o;
    std::thread aborter([&] { usleep(300000); o.ss.queue_rollback_event(wsrep::transaction_id(77)); });
    usleep(900000);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.before_commit() == 0);
    o.cc.ordered_commit(); o.cc.after_commit(); o.cc.after_statement();
    aborter.join();
    int n = 0;
    for (auto i : o.ss.prov().rollback_ids) n += i == 77;
    EXPECT(n == 1);
}
''')

seed("rollback-complete-after-unlock","C23",
 "The background rollback of an idle session ends exactly when the client sends its next command.",
 "The rollbacker clears its mark on the session after it has released the session's lock: the session thread reads it at the same time.",
 [(C,"    set_rollbacker_active(false);\n    cond_.notify_all();\n    debug_log_state(\"sync_rollback_complete: leave\");",
     "    debug_log_state(\"sync_rollback_complete: leave\");\n    // Do not wake up the session thread just to wait for the lock.\n    lock.unlock();\n    set_rollbacker_active(false);\n    cond_.notify_all();")],
r'''
using namespace kit;
static void demo()
{
    one o;
    wsrep::client_state* victim = 0;
    o.svc.on_bg = [&](wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state& c) { victim = &c; };
    o.cc.start_transaction(wsrep::transaction_id(1));
    o.cc.after_statement(); o.cc.after_command_before_result(); o.cc.after_command_after_result();
    EXPECT(o.cc.bf_abort(wsrep::seqno(5)));
    EXPECT(victim == &o.cc);
    std::thread rollbacker([&]
    {
        usleep(300000);
        o.cc.acquire_ownership();
        o.cc.before_rollback(); o.cc.after_rollback();
        o.cc.sync_rollback_complete();
    });
    usleep(900000);
    EXPECT(o.cc.before_command() != 0);
    rollbacker.join();
    o.cc.after_command_before_result(); o.cc.after_command_after_result();
}
''')

seed("applier-registered-without-lock","C23",
 "A streaming transaction of a local session is brute force aborted and handed over to an applier while another thread looks for a streaming applier.",
 "The registry of streaming appliers is changed without the server's lock: the adoption was moved out of the locked section and everything after it with it.",
 [(S,"        if (streaming_applier->adopt_transaction(client_state->transaction()))\n        {\n            log_adopt_error(client_state->transaction());\n            streaming_applier->after_apply();",
     "        // Adoption starts a storage engine transaction which may take long,\n        // do not block other threads meanwhile.\n        lock.unlock();\n        if (streaming_applier->adopt_transaction(client_state->transaction()))\n        {\n            log_adopt_error(client_state->transaction());\n            streaming_applier->after_apply();")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    std::thread aborter([&] { usleep(300000); o.cc.bf_abort(wsrep::seqno(5)); });
    usleep(900000);
    EXPECT(o.ss.find_streaming_applier(wsrep::id("1"), wsrep::transaction_id(1)) != 0);
    aborter.join();
    o.cc.before_rollback(); o.cc.after_rollback(); o.cc.after_statement();
    o.cc.after_command_before_result(); o.cc.after_command_after_result();
}
''')

seed("repeated-message-checked-without-lock","C23",
 "Two threads log messages at the same time.",
 "The reporter compares a message with the last one before it takes its lock, while another thread changes the list.",
 [("src/reporter.cpp","    wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n\n    if (deque.empty() || escaped != deque.back().msg)\n    {",
     "    if (deque.empty() || escaped != deque.back().msg)\n    {\n        wsrep::unique_lock<wsrep::mutex> lock(mutex_);\n")],
r'''
#include "wsrep/reporter.hpp"
static void demo()
{
    wsrep::default_mutex m;
    wsrep::reporter r(m, "report.json", 4);
    std::thread other([&] { usleep(300000); r.report_log_msg(wsrep::reporter::warning, "first", 1.0); });
    usleep(900000);
    r.report_log_msg(wsrep::reporter::warning, "second", 2.0);
    other.join();
}
''')

seed("aborted-after-result-cleaned-early","C16",
 "A streaming transaction of an interactive session is brute force aborted after the result of a command was prepared, before the session becomes idle.",
 "The aborted transaction is cleaned up together with its error: the next command of the session succeeds as if the transaction was still open, and the client never hears that it was rolled back.",
 [(C,"        transaction_.after_command_must_abort(lock);\n        assert(transaction_.state() == wsrep::transaction::s_aborted);\n    }\n",
     "        const bool streaming(transaction_.is_streaming());\n        transaction_.after_command_must_abort(lock);\n        assert(transaction_.state() == wsrep::transaction::s_aborted);\n        // Do not leave resources of streaming transaction behind while\n        // the session is idle.\n        if (streaming && not keep_command_error_)\n        {\n            (void)transaction_.after_statement(lock);\n        }\n    }\n")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.cc.enable_streaming(wsrep::streaming_context::row, 1);
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.after_row() == 0);
    EXPECT(o.tc.is_streaming());
    EXPECT(o.cc.after_statement() == 0);
    o.cc.after_command_before_result();
    EXPECT(o.cc.current_error() == wsrep::e_success);
    EXPECT(o.cc.bf_abort(wsrep::seqno(5)));
    o.cc.after_command_after_result();
    EXPECT(o.cc.before_command() != 0);
    EXPECT(o.cc.current_error() == wsrep::e_deadlock_error);
    o.cc.after_command_before_result(); o.cc.after_command_after_result();
}
''')

seed("sync-wait-position-kept-in-transaction","C19",
 "A session waits for a causal read in a statement of an open transaction, and reads in a later command of the same transaction.",
 "The position which was waited for stays visible for commands which did not wait, so the session believes its reads are causal when they are not.",
 [(C,"    sync_wait_gtid_ = wsrep::gtid::undefined();\n    state(lock, s_idle);\n    debug_log_state(\"after_command_after_result: leave\");",
     "    if (transaction_.active() == false)\n    {\n        sync_wait_gtid_ = wsrep::gtid::undefined();\n    }\n    state(lock, s_idle);\n    debug_log_state(\"after_command_after_result: leave\");")],
r'''
using namespace kit;
static void demo()
{
    one o;
    o.ss.prov().on_causal = [](int) { return std::make_pair(wsrep::gtid(wsrep::id("1"), wsrep::seqno(7)), P::success); };
    o.cc.start_transaction(wsrep::transaction_id(1));
    EXPECT(o.cc.sync_wait(1) == 0);
    EXPECT(o.cc.sync_wait_gtid().seqno().get() == 7);
    o.cc.after_statement(); o.cc.after_command_before_result(); o.cc.after_command_after_result();
    EXPECT(o.cc.before_command() == 0);
    EXPECT(o.cc.sync_wait_gtid().is_undefined());
    o.cc.before_statement();
    o.cc.before_commit(); o.cc.ordered_commit(); o.cc.after_commit(); o.cc.after_statement();
    o.cc.after_command_before_result(); o.cc.after_command_after_result();
}
''')

seed("position-recorded-ahead-of-turn","C02",
 "A transaction which fails certification with a position is rolled back while an earlier position is still being committed.",
 "The position of the failed transaction is stored before its turn, so a crash at that moment recovers with a position whose predecessors are missing.",
 [(T,"    lock.unlock();\n    int ret(provider().commit_order_enter(ws_handle_, ws_meta_));\n    if (!ret)\n    {\n        server_service_.set_position(client_service_, ws_meta_.gtid());\n",
     "    lock.unlock();\n    // Keep the critical section short: write the position before entering it.\n    server_service_.set_position(client_service_, ws_meta_.gtid());\n    int ret(provider().commit_order_enter(ws_handle_, ws_meta_));\n    if (!ret)\n    {\n")],
r'''
using namespace kit;
static void demo()
{
    one o;
    std::vector<long long> ev;
    o.ss.prov().on_enter = [&](const wsrep::ws_meta& m) { ev.push_back(m.seqno().get()); return P::success; };
    o.svc.on_position = [&](const wsrep::gtid& g) { EXPECT(ev.size() == 1 && ev[0] == g.seqno().get()); };
    o.cc.start_transaction(wsrep::transaction_id(1));
    o.ss.prov().on_certify = [&](wsrep::client_id, wsrep::ws_handle&, int f, wsrep::ws_meta& m)
    { m = meta(11, "1", 1, f); return P::error_certification_failed; };
    EXPECT(o.cc.before_commit() != 0);
    o.cc.before_rollback(); o.cc.after_rollback();
    EXPECT(o.cc.after_statement() == 1);
    EXPECT(ev.size() == 1);
}
''')

seed("fragments-counted-after-rollback","C06",
 "Applying a middle fragment of a streaming transaction fails on all nodes and the error is confirmed by the vote.",
 "The applier looks at the list of stored fragments when the rollback has already cleared it, so the fragments of the failed transaction are never removed.",
 [(S,"            bool const remove_fragments(streaming_applier->transaction(\n                ).streaming_context().fragments().size() > 0);\n            ret = streaming_applier->rollback(ws_handle, ws_meta);\n            ret = ret || (streaming_applier->after_apply(), 0);\n\n            if (remove_fragments)",
     "            ret = streaming_applier->rollback(ws_handle, ws_meta);\n            ret = ret || (streaming_applier->after_apply(), 0);\n\n            if (streaming_applier->transaction(\n                ).streaming_context().fragments().size() > 0)")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(2, "2", 9, P::flag::start_transaction), wsrep::const_buffer("x", 1));
    EXPECT(n.svc.fs.rows.size() == 1);
    auto* sa = static_cast<hps*>(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)));
    EXPECT(sa != 0);
    EXPECT(sa->transaction().streaming_context().fragments().size() == 1);
    sa->on_apply_ws = [](const wsrep::ws_meta&, wsrep::mutable_buffer& e) { e.push_back(std::string("failed")); return 1; };
    n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(3, "2", 9, 0), wsrep::const_buffer("x", 1));
    EXPECT(n.svc.fs.removals == 1);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')

seed("silent-isolated-error-not-reported","C21",
 "An operation in total order isolation fails on an applier without an error description, so there is nothing to vote about.",
 "The applier reports success although the operation failed, and the inconsistent node stays in the cluster.",
 [(S,"        int const apply_err(high_priority_service.apply_toi(ws_meta,data,err));\n        int const vote_err(provider.commit_order_leave(ws_handle, ws_meta,err));\n        return resolve_return_error(err.size() > 0, vote_err, apply_err);",
     "        int const apply_err(high_priority_service.apply_toi(ws_meta,data,err));\n        int const vote_err(provider.commit_order_leave(ws_handle, ws_meta,err));\n        return resolve_return_error(apply_err != 0, vote_err, apply_err);")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    std::string msg;
    a.h.on_apply_toi = [&](const wsrep::ws_meta&, wsrep::mutable_buffer& e) { if (msg.size()) e.push_back(msg); return 1; };
    const int toi = P::flag::isolation | P::flag::start_transaction | P::flag::commit;
    // no vote: the error of the operation is what counts
    n.ss.prov().on_leave = [](const wsrep::ws_meta&, const wsrep::mutable_buffer&) { return 0; };
    EXPECT(n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(2, "2", 9, toi), wsrep::const_buffer("x", 1)) != 0);
    // the vote confirmed the error
    msg = "failed";
    n.ss.prov().on_leave = [](const wsrep::ws_meta&, const wsrep::mutable_buffer&) { return 0; };
    EXPECT(n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(3, "2", 9, toi), wsrep::const_buffer("x", 1)) == 0);
}
''')

seed("bootstrap-kept-for-next-connect","C14",
 "The first attempt to bootstrap a cluster fails to connect and the server connects as an ordinary member later.",
 "The second attempt bootstraps too: the node forms a cluster of its own beside the existing one.",
 [(S,"    bootstrap_ = is_bootstrap(cluster_address, bootstrap);","    // Bootstrap stays pending until it has been done in the first primary view.\n    bootstrap_ = bootstrap_ || is_bootstrap(cluster_address, bootstrap);")],
r'''
using namespace kit;
static void demo()
{
    node n;
    n.ss.prov().connect_ret = P::error_connection_failed;
    EXPECT(n.ss.connect("cluster", "a,b", "", true) != 0);
    n.ss.prov().connect_ret = P::success;
    EXPECT(n.ss.connect("cluster", "a,b", "", false) == 0);
    EXPECT(n.ss.prov().bootstraps.size() == 2 && n.ss.prov().bootstraps[0] == 1 && n.ss.prov().bootstraps[1] == 0);
}
''')

seed("nonprimary-view-hides-last-membership","C08",
 "All nodes lose the primary component and it is restored with the same members, each node having seen a non-primary view between.",
 "The view handler compares the new membership with that of the non-primary view, so streaming transactions of before the split survive on some nodes and not on others.",
 [(S,"    if (current_view_.status() == wsrep::view::primary)\n    {\n        previous_primary_view_ = current_view_;\n    }\n    current_view_ = view;","    if (current_view_.status() != wsrep::view::disconnected)\n    {\n        previous_primary_view_ = current_view_;\n    }\n    current_view_ = view;")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    n.ss.on_apply(a.h, wsrep::ws_handle(wsrep::transaction_id(9), (void*)1), meta(2, "2", 9, P::flag::start_transaction), wsrep::const_buffer("x", 1));
    EXPECT(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)) != 0);
    n.ss.on_view(server::view(2, 2, wsrep::view::non_primary, {"1"}, 0), &a.h);
    n.ss.on_connect(server::view(3, 3, wsrep::view::primary, {"1", "2"}, 0));
    n.ss.on_view(server::view(3, 3, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    EXPECT(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)) == 0);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')

seed("applier-released-before-unregistered","C23",
 "The streaming transaction of another node ends (commit, rollback or failed fragment) while a session looks for a prepared XA transaction, or a view is processed.",
 "The applier is released while it is still in the table of appliers: other threads find and use an object which is being destroyed.",
 [(S,"    server_state.stop_streaming_applier(\n        ws_meta.server_id(), ws_meta.transaction_id());\n    server_state.server_service().release_high_priority_service(\n        streaming_applier);","    server_state.server_service().release_high_priority_service(\n        streaming_applier);\n    server_state.stop_streaming_applier(\n        ws_meta.server_id(), ws_meta.transaction_id());")],
r'''
using namespace kit;
static void demo()
{
    node n; n.ss.up(n.svc, {"1", "2"});
    applier a(n.ss, n.svc);
    n.ss.on_view(server::view(1, 1, wsrep::view::primary, {"1", "2"}, 0), &a.h);
    n.ss.on_sync();
    int released = 0;
    n.svc.on_release = [&](wsrep::high_priority_service* h)
    {
        ++released;
        // what another thread would get at this moment
        EXPECT(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)) != h);
    };
    const wsrep::ws_handle h(wsrep::transaction_id(9), (void*)1);
    EXPECT(n.ss.on_apply(a.h, h, meta(2, "2", 9, P::flag::start_transaction), wsrep::const_buffer("x", 1)) == 0);
    EXPECT(n.ss.on_apply(a.h, h, meta(3, "2", 9, P::flag::commit), wsrep::const_buffer("x", 1)) == 0);
    EXPECT(released == 1);
    EXPECT(n.ss.find_streaming_applier(wsrep::id("2"), wsrep::transaction_id(9)) == 0);
    std::fflush(stdout); _exit(kit_failures != 0);
}
''')
