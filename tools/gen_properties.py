#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
T='src/transaction.cpp'; C='src/client_state.cpp'; S='src/server_state.cpp'

prop('C01','Transaction verdict is atomic and identical on every node',
 'If a client is told that its transaction committed, the transaction\'s changes are in the database of every node that stays in or rejoins the primary component; if the client is told it failed, they are in the database of no node. Once faults stop and all nodes have caught up, every node holds exactly the same data, which equals the certified transactions applied in replication order.',
 ['schedules','fault_sequences','histories','crash_points'],'every interleaving of client sessions, appliers, brute force aborts, background rollback and replay on all nodes, with provider and DBMS errors, partitions and crashes',
 'The unit tests drive one client state against a scripted mock provider; agreement between several nodes and the verdict under concurrent aborts exists only in whole-cluster executions.',
 [T,C,S,'include/wsrep/transaction.hpp'],[('transaction state','phase of the transaction from executing to committed/aborted',T+' state()'),('certified flag','write set passed certification',T)],
 [('certification and commit path',T+' certify_commit(), before_commit(), after_statement()'),('applying of remote write sets',S+' apply_write_set()')],
 ['client statement result','row data of every node at the end of the run'])
prop('C02','Commits complete in the replication order, exactly once per position',
 'On every node, every position of the total order assigned to a local or remote write set is completed exactly once, in increasing order with no gap, whether the transaction commits, fails certification, is aborted or is replayed. A storage engine commit becomes visible only while its transaction holds its turn in that order, and no position is left behind so that later commits stall.',
 ['schedules','fault_sequences','histories'],'every interleaving of concurrent commits, rollbacks of ordered transactions, appliers and replays, with provider and apply errors',
 'Ordering across threads cannot be sampled by single threaded unit tests with a mock that accepts any order.',
 [T,S],[('write set meta data','ordering position of the transaction',T),],
 [('commit order enter/leave',T+' before_commit(), ordered_commit(), release_commit_order()'),('apply path ordering',S+' apply_write_set(), apply_toi()')],
 ['provider commit order calls','order of storage engine commits per node'])
prop('C03','Brute force aborts always win or are refused, never half done',
 'A local transaction which is chosen as a victim by a higher priority write set before it has been ordered for commit gives up its locks in bounded time and its client sees a deadlock error, unless the transaction is afterwards successfully replayed. A transaction which has entered its commit turn is never aborted, and an abort request which is refused leaves the victim unaffected.',
 ['schedules','histories'],'every point of a victim\'s life at which the abort can arrive: idle, executing, replicating a fragment, certifying, prepared, waiting for commit turn, committing, rolling back, closing',
 'Unit tests inject the abort at a dozen hand picked synchronisation points; the abort may arrive between any two lock operations.',
 [T,C],[('bf-immutable flag','transaction cannot be aborted any more',T+' before_commit()'),('must-abort state','abort was requested',T)],
 [('bf_abort()',T+' bf_abort(), total_order_bf_abort()'),('detection of the abort',T+' after_statement(), after_command_must_abort(), abort_or_interrupt()')],
 ['lock release time','client error code','return value of the abort request'])
prop('C04','Aborted but certified transactions are replayed exactly once',
 'A transaction which was brute force aborted after it was successfully certified is replayed to commit at its original position exactly once and its client sees success; if replay finds out that certification failed, the transaction is rolled back, its client sees a deadlock error and its position is released. Sessions waiting for replays to finish are always released, and a replay which fails for any other reason shuts the node down instead of reporting success.',
 ['schedules','fault_sequences','histories'],'every interleaving in which an abort races with certification, prepare and commit ordering, and every replay outcome',
 'The race window between certification and commit ordering is a few instructions wide and needs a concurrent applier.',
 [T],[('must_replay/replaying states','transaction waits for or is under replay',T)],
 [('replay()',T+' replay(), clone_for_replay(), start_transaction()'),('transition to must_replay',T+' certify_commit(), after_prepare(), before_commit(), before_rollback()')],
 ['replay calls seen by the DBMS and provider','row data','client error code'])
prop('C05','Streamed fragments carry each byte once, in order, at the set granularity',
 'For a streaming transaction, the data in its replicated fragments followed by its commit write set is exactly the data the transaction generated, each byte exactly once and in order. A fragment is replicated when, and only when, the configured number of bytes, rows or statements has been reached since the previous one, and every fragment carries its place in the transaction (first, middle, final) correctly.',
 ['inputs','schedules','histories'],'every sequence of row sizes, statements, fragment units and sizes, changes of streaming parameters inside a transaction, and errors and aborts between fragments',
 'Tests use one or two fixed row sizes and never check the replicated byte stream as a whole.',
 [T,'src/streaming_context.cpp','include/wsrep/streaming_context.hpp','src/sr_key_set.cpp'],[('log position','bytes already replicated','include/wsrep/streaming_context.hpp'),('unit counter','units since last fragment','include/wsrep/streaming_context.hpp')],
 [('streaming_step(), certify_fragment()',T)],['write sets received by the provider'])
prop('C06','Fragment storage holds exactly the fragments of live streaming transactions',
 'On every node, the fragments in stable storage are exactly those of streaming transactions which have neither committed nor rolled back on that node, each stored once with the right origin, identity and position. A committed transaction\'s fragments are removed atomically with its commit, and a rolled back transaction leaves none behind once its rollback is complete on the node.',
 ['schedules','fault_sequences','crash_points','histories'],'every interleaving of fragment replication, commit, abort, rollback, total order abort and membership change, with storage failures and crashes between any two storage operations',
 'Mock storage in the unit tests stores nothing, so conservation of fragments is never observed.',
 [T,S],[('fragments vector','positions of stored fragments','include/wsrep/streaming_context.hpp')],
 [('certify_fragment(), remove_fragments_in_storage_service_scope()',T),('apply_fragment(), commit_fragment(), rollback_fragment()',S)],
 ['fragment table of every node'])
prop('C07','A rolled back streaming transaction is rolled back on all nodes, once',
 'When a streaming transaction which has replicated fragments rolls back on its origin, exactly one rollback event reaches the cluster unless every node already discards the transaction by itself in the total order. If that event cannot be sent, it is remembered and sent before anything else the node certifies afterwards and when the node is synced again, so no other node keeps the transaction and its locks forever.',
 ['schedules','fault_sequences','histories'],'every interleaving of abort, voluntary rollback, session close and certification failure of a streaming transaction, with provider failures for any prefix of send attempts',
 'Exactly once and eventual sending are statements over whole histories with failing provider calls.',
 [T,S],[('rollback event queue','rollback events to be sent',S),('rolled back marker','rollback was replicated','include/wsrep/streaming_context.hpp')],
 [('streaming_rollback()',T),('queue_rollback_event(), send_pending_rollback_events(), on_sync()',S)],
 ['rollback write sets received by provider','streaming appliers of remote nodes'])
prop('C08','Membership changes discard exactly the orphaned streaming transactions',
 'When a primary view is delivered, every node rolls back precisely the streaming transactions whose origin has left the primary component, including its own ones if it was outside or if the component lost and regained primary status with the same members, and removes their fragments. Streaming transactions of members and prepared XA transactions survive, and the view delivery always completes.',
 ['schedules','fault_sequences','histories'],'every sequence of partitions, merges, joins and leaves interleaved with streaming, aborting and committing transactions',
 'Tests deliver one or two hand made views with no transaction running concurrently.',
 [S,'src/view.cpp'],[('streaming appliers and clients maps','open streaming transactions',S),('previous primary view','membership before the change',S)],
 [('close_orphaned_sr_transactions(), on_view()',S)],['fragment table','streaming appliers of each node','progress of view delivery'])
prop('C09','Crash or disconnect loses no streaming transaction and no commit',
 'After a crash at any point, or a disconnect and reconnect, a node rebuilds the open streaming transactions from stable storage before applying anything new, so their later fragments, commits and rollbacks have the same effect as on nodes which did not fail. Disconnecting closes the open streaming transactions but keeps their fragments, and commits reported before the failure are still there after recovery.',
 ['crash_points','schedules','histories'],'crash or disconnect between any two steps of any thread, followed by restart and rejoin with incremental or full state transfer',
 'Crash points are unreachable from unit tests: nothing there survives in stable storage.',
 [S,T],[('recovered flag','streaming appliers have been rebuilt',S)],
 [('recover_streaming_appliers_if_not_recovered(), close_transactions_at_disconnect(), go_final(), sst_received(), on_primary_view()',S)],
 ['row data and fragment table after recovery','streaming appliers after recovery'])
prop('C10','Prepared XA transactions survive and finish exactly as decided',
 'An XA transaction which was successfully prepared stays prepared on all nodes through client disconnect, brute force abort of its idle session and membership change, until it is committed or rolled back, possibly from another session; the decision takes effect on all nodes and exactly once. A failed decision attempt because of lost connectivity leaves the transaction prepared and reports an error.',
 ['schedules','fault_sequences','histories'],'every interleaving of prepare, commit, rollback, detach, session close and brute force abort, with provider failures',
 'XA tests run single threaded and only sample one abort point per path.',
 [T,C,S],[('xid','identity of the XA transaction',T),('prepared state','transaction waits for decision',T)],
 [('xa_detach(), xa_replay(), xa_replay_commit(), commit_or_rollback_by_xid(), restore_to_prepared_state()',T),('find_streaming_applier(xid)',S)],
 ['row data of every node','prepared transactions of every node','client error code'])
prop('C11','Total order isolation is entered, executed and left exactly once',
 'An operation in total order isolation executes at one position of the replication order on every node, alone in that position, and each successful entry is paired with exactly one leave, also when entering is reported as failed after the position was assigned. Entry is retried only for certification or connectivity failures, not after the deadline or an interruption, and a failed entry leaves the session in its normal mode with an error that tells why.',
 ['schedules','fault_sequences','inputs'],'every sequence of provider results for entering and leaving, deadlines, interruptions and concurrent transactions on all nodes',
 'Tests script at most two provider results in a row and cannot control time.',
 [C,S],[('TOI meta data and mode','session is inside total order isolation',C)],
 [('poll_enter_toi(), enter_toi_local(), leave_toi_local()',C),('apply_toi()',S)],
 ['provider enter/leave calls','position at which the operation ran on each node','client error code'])
prop('C12','Non-blocking operations pair their two phases correctly',
 'A non-blocking operation begins at one position of the replication order and ends at a later one; each phase that is entered is left exactly once with the same identity, the end phase names the position of the begin phase, and the session ends up in its normal mode. A failure in a phase is reported to the client and leaves no phase open.',
 ['fault_sequences','schedules','inputs'],'every combination of provider results, deadlines and interruptions in both phases, on the origin and on applying nodes',
 'NBO tests cover only the success path plus one timeout.',
 [C,S],[('NBO meta data and mode','session is inside a non-blocking operation',C)],
 [('begin/end_nbo_phase_one/two(), enter_nbo_mode()',C),('apply_toi()',S)],
 ['provider enter/leave calls','client mode and error code'])
prop('C13','Pause and desync are balanced for every caller and failure',
 'Concurrent users of pause, desync and rolling schema upgrade see at most one pause at a time; each provider pause is matched by one resume, each successful desync by one resync, and a failed step undoes exactly what was done before it. After every user is done, the node is neither paused nor desynced by them and no caller waits forever.',
 ['schedules','fault_sequences'],'every interleaving of several callers of desync, pause, combined desync-and-pause and RSU, with any provider call failing',
 'Unit tests call these functions from one thread with at most one failing call.',
 [S,C],[('pause and desync counters','outstanding pauses and desyncs',S),('pause seqno','position where the provider is paused',S)],
 [('pause(), resume(), desync(), resync(), desync_and_pause(), resume_and_resync()',S),('begin_rsu(), end_rsu()',C)],
 ['provider pause/resume/desync/resync calls','completion of callers'])
prop('C14','Server state follows the documented life cycle and waiters see it',
 'Under any order of provider events and administrator actions the server state only makes the documented transitions, its externally reported history is continuous, and a thread waiting for a state either observes that state being entered or is told that the wait was interrupted by disconnecting. No waiter is lost and no state change is blocked forever, and initialization waits complete also when initialization races with the first view. A new cluster is initialized only by the node which was asked to bootstrap, exactly once and only after its own initialization.',
 ['schedules','histories','fault_sequences'],'every interleaving of connect, views, sync, state transfer, initialization, disconnect and any number of waiters',
 'Waiter hand-over is a condition variable protocol between several threads; unit tests are single threaded.',
 [S,'include/wsrep/server_state.hpp'],[('state and its history','life cycle phase',S),('state waiters','number of threads waiting per state',S)],
 [('state(), wait_until_state(), interrupt_state_waiters(), disconnect(), initialized()',S)],
 ['reported state changes','return of waiters'])
prop('C15','State transfer joins a node at a consistent position or fails loudly',
 'A joiner is reported as joined only when its recovered position is at or beyond the position at which it connected, it passes the recovered position to the provider exactly once per transfer, and on failure or an inconsistent recovered view it reports failure and no position. A donor returns to normal operation after the transfer ends or fails to start, and the result is reported to the provider once.',
 ['fault_sequences','schedules','inputs','histories'],'every combination of transfer results, recovered position and view, initialization order and concurrent disconnect, partition or initialization',
 'Tests cover a few fixed sequences without concurrent events.',
 [S],[('connected position','position when joining the group',S),('initialized/synced flags','progress of joining',S)],
 [('prepare_for_sst(), start_sst(), sst_sent(), sst_received(), return_from_donor_state()',S)],
 ['provider state transfer calls','reported server states'])
prop('C16','Every failure reaches the client once, with the right error',
 'A command whose transaction was aborted or failed reports an error to its client before the transaction disappears, a success is never reported for a rolled back transaction, and errors detected after a result was sent, or while error reporting is deferred, are reported by the next command that can report. The error tells the cause (deadlock, interruption, size, commit failure with provider status), and a later unrelated transaction starts with no error.',
 ['schedules','fault_sequences','histories'],'every interleaving of commands, deferred error commands, aborts and provider errors over sessions of many transactions',
 'The command hooks form a protocol over several calls where the abort can arrive between any two.',
 [C,T],[('current error','error to be returned to client',C),('keep command error','error reporting is deferred',C)],
 [('before_command(), after_command_before_result(), after_command_after_result(), before_statement(), after_statement()',C)],
 ['command results seen by the client'])
prop('C17','A session is driven by one thread at a time',
 'While the background rollbacker rolls back an idle session\'s transaction, the session\'s own thread cannot start a command or close the session, and it resumes as soon as the rollback is done. A transaction is rolled back by exactly one thread, and the state of a session is never changed by a thread which does not own it. Whichever thread works for a session - also one that converts, replays or rolls back its transaction - does so in that session\'s thread context and restores its own context afterwards.',
 ['schedules'],'every interleaving of session thread, brute force aborter and background rollbacker around idle periods, command start and session close',
 'The race is between three threads; unit tests have one.',
 [C,T],[('rollbacker active flag','background rollback is in progress',C),('owning thread','thread which may drive the session',C)],
 [('sync_rollback_complete(), wait_rollback_complete_and_acquire_ownership(), close()',C),('bf_abort()',T)],
 ['rollback calls on the storage engine transaction','session command start'])
prop('C18','The status report file is always a complete and current report',
 'At every instant, including after a crash, a write error or a full disk, the report file read by monitoring is one complete, well formed report, never a partial one. Each state change, message and progress event becomes visible in a report written after it, in the order they happened and with bounded history, whichever threads report concurrently, and failed writes leave no stray files behind.',
 ['crash_points','fault_sequences','schedules','inputs'],'every sequence of reports from several threads, arbitrary message text and any failing, short or interrupted file operation or crash between two file operations',
 'Tests run on a healthy file system from one thread.',
 ['src/reporter.cpp','include/wsrep/reporter.hpp'],[('stored messages, progress and state','content of next report','src/reporter.cpp')],
 [('write_file(), report_state(), report_progress(), report_log_msg()','src/reporter.cpp')],
 ['content of the report file seen by a reader'])
prop('C19','Last written and read positions given to a session are truthful',
 'The last written position reported for a session is the position of the latest transaction or isolated operation of that session that took a position in the order, it never goes backwards, and it is undefined for sessions that wrote nothing. A successful causal read wait reports a position at which all transactions committed before the wait started are visible, and a failed one reports an error and no position.',
 ['schedules','histories','fault_sequences'],'every history of commits, replays, failed transactions, isolated operations and causal reads in sessions running concurrently on all nodes',
 'Monotonicity and truthfulness are statements over histories with concurrent sessions and replays.',
 [C,T],[('last written and sync wait positions','session guarantees',C)],
 [('update_last_written_gtid(), sync_wait()',C),('cleanup()',T)],
 ['positions read by the client'])
prop('C20','Provider options mirror what the provider accepted',
 'After any sequence of option changes, the value of each option equals the last value the provider accepted for it, a rejected change leaves the visible value and its string form unchanged, and an unknown option or a change of an option set fails without effect. The list of options, with names, defaults and flags, stays exactly as the provider announced it.',
 ['inputs','fault_sequences','histories'],'every sequence of announced options, names with dots and dashes, typed values and provider rejections',
 'The component has no tests at all; rejection sequences are unbounded.',
 ['src/provider_options.cpp','include/wsrep/provider_options.hpp'],[('options map','options by sanitized name','src/provider_options.cpp')],
 [('set(), set_default(), initial_options(), get_option()','src/provider_options.cpp')],
 ['option values and provider calls'])
prop('C21','Apply errors are voted and never silently lost',
 'If applying a remote write set, fragment or isolated operation fails on a node, its partial changes are rolled back, its position in the order is still completed and the error is handed to the provider for voting when it is; the applier reports failure unless voting confirmed the error, and a success when it did. A write set which applied correctly never reports an error, and a failed streaming transaction leaves neither fragments nor locks behind.',
 ['fault_sequences','histories','schedules'],'every placement of apply, storage and vote failures over regular, streaming, XA and isolated write sets',
 'Tests sample single failures with mocks that do not keep data.',
 [S],[('apply error buffer','error passed to provider for voting',T)],
 [('apply_write_set(), apply_fragment(), commit_fragment(), apply_toi(), resolve_return_error()',S)],
 ['error buffer and result at commit order leave','row data','return value of the applier'])
prop('C22','The loadable provider adapter translates calls and results faithfully',
 'Every call the library makes on a loaded provider reaches the provider exactly once with the same arguments, flags and buffers, and its result (status, write set handle, position and meta data) comes back unchanged; every callback of the provider reaches the library of the right server with the same content, and its outcome is reported back as such. A provider which fails at any stage of loading makes the load fail and leaves no service initialized, no provider unfreed and no library loaded; unloading releases everything once, in an order in which nothing is used after it is gone, also with several providers in one process.',
 ['inputs','fault_sequences','histories','configurations'],'every call, callback, argument, status and flag combination; every set of optional entry points and services of the provider and application; every failure during loading; several providers loaded and unloaded in one process; calls from all sessions and appliers of a cluster at the same time',
 'The unit tests replace the adapter by a mock and the adapter is not even compiled in the tested configuration.',
 ['src/wsrep_provider_v26.cpp','src/thread_service_v1.cpp','src/tls_service_v1.cpp','src/allowlist_service_v1.cpp','src/event_service_v1.cpp','src/config_service_v1.cpp','src/connection_monitor_service_v1.cpp'],
 [('service implementation and use count','application service behind the C callbacks of the process','src/thread_service_v1.cpp use_count'),('native handle','opaque pointer of the provider kept in the write set handle','src/wsrep_provider_v26.cpp mutable_ws_handle')],
 [('provider calls','src/wsrep_provider_v26.cpp wsrep_provider_v26::*'),('provider callbacks','src/wsrep_provider_v26.cpp connected_cb() .. encrypt_cb()'),('service life cycle','src/wsrep_provider_v26.cpp init_services(), constructor, destructor')],
 ['calls seen by the library side and by the C provider side','services initialized in the provider library','loading and unloading of the library'])
prop('C23','Threads never access shared state unordered, locks are taken in one order',
 'Whatever the schedule, two threads never access the same state of a server, session, transaction, streaming applier registry, reporter or other library object without an order between the accesses (the owning lock, an atomic operation, or the order which the provider or thread start gives), unless both only read: no state is read half written, no container is changed while another thread looks at it, and no object is used by one thread while another one destroys it. Locks of different objects are always taken in the same order, and condition variables are used with the lock which protects what is waited for.',
 ['schedules','fault_sequences','histories'],'every interleaving of sessions, appliers, view and state transfer events, brute force aborts, background rollback, administrator calls and monitoring threads over the life of a node',
 'Unit tests run in one thread; a race shows only in rare schedules, and even a run under a thread sanitizer sees only the interleavings which happen to occur.',
 [S,C,T,'src/reporter.cpp','include/wsrep/server_state.hpp','include/wsrep/client_state.hpp'],[('server state mutex','guards state, views, counters, streaming clients and appliers',S),('client state mutex','guards transaction state, mode, error and ownership of a session',C)],
 [('every public operation',S),('every public operation',C),('bf_abort(), total_order_bf_abort(), streaming_rollback()',T)],
 ['memory accesses of the library and the synchronisation between them'])
prop('N01','Identifiers, positions, views and keys print and parse consistently',
 'Printing and parsing of ids, gtids, seqnos, xids, keys and views round trips for every value and rejects malformed input.',
 ['inputs'],'every byte string and value','Infinite input domain.',
 ['src/id.cpp','src/gtid.cpp','src/uuid.cpp','src/xid.cpp','src/view.cpp','src/key.cpp'],[],[('scan/print functions','src/gtid.cpp')],['returned values'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
