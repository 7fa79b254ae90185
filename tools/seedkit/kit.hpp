// Small test kit on top of the repository's own mocks (test/mock_*.hpp).
#ifndef KIT_HPP
#define KIT_HPP
#include "mock_server_state.hpp"
#include "mock_client_state.hpp"
#include "mock_high_priority_service.hpp"
#include "mock_storage_service.hpp"
#include "mock_provider.hpp"
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <thread>
#include <atomic>
#include <chrono>

namespace kit
{
    typedef wsrep::provider P;
    typedef enum wsrep::provider::status St;
    // Provider whose calls can be scripted and are recorded.
    struct provider : wsrep::mock_provider
    {
        explicit provider(wsrep::server_state& s) : wsrep::mock_provider(s) {}
        std::function<St(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&)> on_certify;
        std::function<St(wsrep::transaction_id)> on_rollback;
        std::function<St(wsrep::client_id, wsrep::ws_meta&, int)> on_enter_toi;
        std::function<St(const wsrep::ws_meta&, const wsrep::mutable_buffer&)> on_leave_toi;
        std::function<St(const wsrep::ws_meta&)> on_enter;
        std::function<int(const wsrep::ws_meta&, const wsrep::mutable_buffer&)> on_leave;
        std::function<int()> on_desync, on_resync, on_resume;
        std::function<wsrep::seqno()> on_pause;
        std::function<std::pair<wsrep::gtid, St>(int)> on_causal;
        std::function<St(wsrep::seqno, wsrep::transaction_id)> on_bf_abort;
        std::function<St(const wsrep::gtid&, int)> on_sst_received, on_sst_sent;
        std::function<int()> on_disconnect;

        std::vector<long long> rollback_ids;
        std::vector<long long> entered, left;        // commit order calls, by seqno
        std::vector<size_t> left_err;
        std::vector<long long> toi_left;
        std::vector<size_t> toi_left_err;
        std::vector<int> cert_flags;
        int enter_toi_calls = 0, released = 0;

        St certify(wsrep::client_id c, wsrep::ws_handle& h, int flags, wsrep::ws_meta& m, const seq_cb* cb) override
        {
            cert_flags.push_back(flags);
            if (on_certify) { h = wsrep::ws_handle(h.transaction_id(), (void*)1); return on_certify(c, h, flags, m); }
            return wsrep::mock_provider::certify(c, h, flags, m, cb);
        }
        St rollback(const wsrep::transaction_id id) override
        {
            rollback_ids.push_back((long long)id.get());
            if (on_rollback) return on_rollback(id);
            return wsrep::mock_provider::rollback(id);
        }
        St enter_toi(wsrep::client_id c, const wsrep::key_array& k, const wsrep::const_buffer& b, wsrep::ws_meta& m, int f) override
        {
            ++enter_toi_calls;
            if (on_enter_toi) return on_enter_toi(c, m, f);
            return wsrep::mock_provider::enter_toi(c, k, b, m, f);
        }
        St leave_toi(wsrep::client_id, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) override
        {
            toi_left.push_back(m.seqno().get());
            toi_left_err.push_back(e.size());
            return on_leave_toi ? on_leave_toi(m, e) : P::success;
        }
        St commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
        {
            entered.push_back(m.seqno().get());
            if (on_enter) return on_enter(m);
            return wsrep::mock_provider::commit_order_enter(h, m);
        }
        int commit_order_leave(const wsrep::ws_handle& h, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) override
        {
            left.push_back(m.seqno().get()); left_err.push_back(e.size());
            if (on_leave) return on_leave(m, e);
            return wsrep::mock_provider::commit_order_leave(h, m, e);
        }
        int release(wsrep::ws_handle& h) override { ++released; return wsrep::mock_provider::release(h); }
        int desync() override { return on_desync ? on_desync() : 0; }
        int resync() override { return on_resync ? on_resync() : 0; }
        int resume() override { return on_resume ? on_resume() : 0; }
        std::vector<int> bootstraps;
        St connect_ret = P::success;
        St connect(const std::string&, const std::string&, const std::string&, bool b) override { bootstraps.push_back(b); return connect_ret; }
        int disconnect() override { return on_disconnect ? on_disconnect() : 0; }
        wsrep::seqno pause() override { return on_pause ? on_pause() : wsrep::seqno(1); }
        std::pair<wsrep::gtid, St> causal_read(int t) const override
        { return on_causal ? on_causal(t) : wsrep::mock_provider::causal_read(t); }
        St bf_abort(wsrep::seqno s, wsrep::transaction_id id, wsrep::client_service& cs, wsrep::seqno& v) override
        {
            if (on_bf_abort) { v = wsrep::seqno::undefined(); return on_bf_abort(s, id); }
            v = wsrep::seqno::undefined(); (void)cs;
            return P::success;
        }
        St sst_received(const wsrep::gtid& g, int e) override { return on_sst_received ? on_sst_received(g, e) : P::success; }
        St sst_sent(const wsrep::gtid& g, int e) override { return on_sst_sent ? on_sst_sent(g, e) : P::success; }
    };

    // Fragment store of one node: server id/trx id -> seqnos of stored fragments.
    struct frag_store { std::map<long long, std::vector<long long> > rows; int removals = 0; };

    struct storage : wsrep::mock_storage_service
    {
        frag_store& fs; long long trx = 0, pending = 0; bool remove = false;
        storage(wsrep::server_state& s, wsrep::client_id id, frag_store& f) : wsrep::mock_storage_service(s, id), fs(f) {}
        void adopt_transaction(const wsrep::transaction& t) override { trx = (long long)t.id().get(); wsrep::mock_storage_service::adopt_transaction(t); }
        int append_fragment(const wsrep::id&, wsrep::transaction_id id, int, const wsrep::const_buffer&, const wsrep::xid&) override
        { trx = (long long)id.get(); return 0; }
        int update_fragment_meta(const wsrep::ws_meta& m) override { pending = m.seqno().get(); return 0; }
        int remove_fragments() override { remove = true; return 0; }
        int commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
        {
            if (remove) { fs.rows.erase(trx); ++fs.removals; }
            else if (pending) fs.rows[trx].push_back(pending);
            return wsrep::mock_storage_service::commit(h, m);
        }
    };

    struct client : wsrep::mock_client
    {
        frag_store* fs;
        client(wsrep::server_state& s, unsigned long long id, enum wsrep::client_state::mode m, frag_store* f = 0)
            : wsrep::mock_client(s, wsrep::client_id(id), m), fs(f) {}
        std::function<void(const char*)> on_sync;
        std::function<bool()> on_interrupted;
        int frag_removals = 0;
    int bf_rollback() override
    { return transaction().state() == wsrep::transaction::s_aborted ? 0 : wsrep::mock_client::bf_rollback(); }
        int remove_fragments() override
        {
            ++frag_removals;
            if (fs) { fs->rows.erase((long long)transaction().id().get()); ++fs->removals; }
            return wsrep::mock_client::remove_fragments();
        }
        void debug_sync(const char* p) override { if (on_sync) on_sync(p); else wsrep::mock_client::debug_sync(p); }
        bool interrupted(wsrep::unique_lock<wsrep::mutex>& l) const override
        { return on_interrupted ? on_interrupted() : wsrep::mock_client::interrupted(l); }
    };

    struct hps : wsrep::mock_high_priority_service
    {
        frag_store* fs; wsrep::client_state* cs;
        std::vector<std::string>* ev;
        hps(wsrep::server_state& s, wsrep::mock_client_state* c, bool r, frag_store* f, std::vector<std::string>* e)
            : wsrep::mock_high_priority_service(s, c, r), fs(f), cs(c), ev(e) {}
        std::function<int(const wsrep::ws_meta&, wsrep::mutable_buffer&)> on_apply_ws, on_apply_toi;
        std::function<int(const wsrep::ws_meta&, wsrep::mutable_buffer&)> on_dummy;
        std::function<int(const wsrep::ws_meta&, wsrep::mutable_buffer&)> on_nbo_begin;
        int apply_nbo_begin(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e) override
        { return on_nbo_begin ? on_nbo_begin(m, e) : wsrep::mock_high_priority_service::apply_nbo_begin(m, b, e); }
        int apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e) override
        { if (on_apply_ws) { int r = on_apply_ws(m, e); if (r) return r; } return wsrep::mock_high_priority_service::apply_write_set(m, b, e); }
        int apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer& b, wsrep::mutable_buffer& e) override
        { return on_apply_toi ? on_apply_toi(m, e) : wsrep::mock_high_priority_service::apply_toi(m, b, e); }
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta& m, const wsrep::const_buffer&, const wsrep::xid&) override
        { if (fs) fs->rows[(long long)m.transaction_id().get()].push_back(m.seqno().get()); return 0; }
        int remove_fragments(const wsrep::ws_meta&) override
        { if (fs) { fs->rows.erase((long long)cs->transaction().id().get()); ++fs->removals; } return 0; }
        int log_dummy_write_set(const wsrep::ws_handle& h, const wsrep::ws_meta& m, wsrep::mutable_buffer& e) override
        { if (on_dummy) return on_dummy(m, e); return wsrep::mock_high_priority_service::log_dummy_write_set(h, m, e); }
    };

    struct service : wsrep::mock_server_service
    {
        wsrep::server_state* ss; frag_store fs; unsigned long long next = 1000;
        std::vector<std::string> ev;
        int recovered = 0;
        std::function<void(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&)> on_bg;
        explicit service(wsrep::server_state* s) : wsrep::mock_server_service(s), ss(s) {}
        std::function<void(const wsrep::gtid&)> on_position;
        void set_position(wsrep::client_service& c, const wsrep::gtid& g) override { if (on_position) on_position(g); wsrep::mock_server_service::set_position(c, g); }
        wsrep::storage_service* storage_service(wsrep::client_service&) override { return new storage(*ss, wsrep::client_id(++next), fs); }
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) override { return new storage(*ss, wsrep::client_id(++next), fs); }
        wsrep::high_priority_service* mk()
        {
            client* c = new client(*ss, ++next, wsrep::client_state::m_high_priority, &fs);
            hps* h = new hps(*ss, c, false, &fs, &ev);
            c->open(c->id()); c->before_command();
            return h;
        }
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override { return mk(); }
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override { return mk(); }
        std::function<void(wsrep::high_priority_service*)> on_release;
        void release_high_priority_service(wsrep::high_priority_service* h) override
        { if (on_release) on_release(h); wsrep::mock_server_service::release_high_priority_service(h); }
        void recover_streaming_appliers(wsrep::client_service&) override { ++recovered; }
        void recover_streaming_appliers(wsrep::high_priority_service&) override { ++recovered; }
        void background_rollback(wsrep::unique_lock<wsrep::mutex>& l, wsrep::client_state& c) override
        { if (on_bg) on_bg(l, c); else wsrep::mock_server_service::background_rollback(l, c); }
    };

    // Mutex and condition variable with hooks, to hold one thread at a chosen point.
    struct hook_mutex : wsrep::default_mutex
    {
        std::function<void()> after_unlock;
        void unlock() override { wsrep::default_mutex::unlock(); if (after_unlock) after_unlock(); }
    };
    struct hook_cond : wsrep::default_condition_variable
    {
        std::function<bool()> hold;              // while true a woken thread does not get control
        void wait(wsrep::unique_lock<wsrep::mutex>& lock) override
        {
            wsrep::default_condition_variable::wait(lock);
            while (hold && hold()) { lock.unlock(); std::this_thread::yield(); lock.lock(); }
        }
    };
    struct server : wsrep::server_state
    {
        hook_mutex& mutex_hook() { return m_; }
        hook_cond& cond_hook() { return c_; }
        server(const char* name, enum wsrep::server_state::rollback_mode rm, service& s)
            : wsrep::server_state(m_, c_, s, NULL, name, "", "", "./", wsrep::gtid::undefined(), 1, rm)
        {
            set_provider_factory([this](wsrep::server_state&, const std::string&, const std::string&, const P::services&)
            { p_ = new kit::provider(*this); return std::unique_ptr<wsrep::provider>(p_); });
            if (load_provider("mock", "")) abort();
        }
        kit::provider& prov() { return *p_; }
        static wsrep::view view(long long seqno, long long vseq, enum wsrep::view::status st, const std::vector<std::string>& ids, int own)
        {
            std::vector<wsrep::view::member> m;
            for (auto& i : ids) m.push_back(wsrep::view::member(wsrep::id(i), i, ""));
            return wsrep::view(wsrep::gtid(wsrep::id("1"), wsrep::seqno(seqno)), wsrep::seqno(vseq), st, 0, own, 1, m);
        }
        // Initialized server, connected with given members
        void up(service& svc, const std::vector<std::string>& ids = {"1"});
        void join() { connect("cluster", "local", "0", false); on_connect(view(0, 1, wsrep::view::primary, {name()}, 0)); }
    private:
        hook_mutex m_; hook_cond c_; kit::provider* p_ = 0;
    };

    inline void server::up(service& svc, const std::vector<std::string>& ids)
    {
        initialized(); svc.position(wsrep::gtid(wsrep::id("1"), wsrep::seqno(1)));
        connect("cluster", "local", "0", false); on_connect(view(1, 1, wsrep::view::primary, ids, 0));
    }
    struct node { service svc; server ss; node() : svc(&ss), ss("1", wsrep::server_state::rm_sync, svc) {} };
    // One server with one local client, in a statement.
    struct one
    {
        service svc; server ss; client cc; const wsrep::transaction& tc;
        explicit one(enum wsrep::server_state::rollback_mode rm = wsrep::server_state::rm_sync)
            : svc(&ss), ss("1", rm, svc), cc(ss, 1, wsrep::client_state::m_local, &svc.fs), tc(cc.transaction())
        { ss.join(); cc.open(cc.id()); cc.before_command(); cc.before_statement(); }
    };
    inline wsrep::ws_meta meta(long long seqno, const char* node, unsigned long long trx, int flags, long long dep = -1)
    {
        return wsrep::ws_meta(wsrep::gtid(wsrep::id("1"), wsrep::seqno(seqno)),
                              wsrep::stid(wsrep::id(node), wsrep::transaction_id(trx), wsrep::client_id(77)),
                              wsrep::seqno(dep < 0 ? seqno - 1 : dep), flags);
    }
    // Applier thread stand-in
    struct applier
    {
        client c; hps h;
        applier(server& s, service& v, unsigned long long id = 500)
            : c(s, id, wsrep::client_state::m_high_priority, &v.fs), h(s, &c, false, &v.fs, &v.ev)
        { c.open(c.id()); c.before_command(); }
        ~applier() { c.after_command_before_result(); c.after_command_after_result(); c.close(); c.cleanup(); }
    };
}
static int kit_failures = 0;
#define EXPECT(x) do { if (!(x)) { ++kit_failures; std::printf("%s:%d: expectation failed: %s\n", __FILE__, __LINE__, #x); std::fflush(stdout); } } while (0)
#endif
// Entry points of the sources that need the wsrep-API submodule (not present here).
#ifndef KIT_ADAPTER
extern "C"
{
    inline void kit_absent() { std::abort(); }
    __attribute__((used)) void kit_stub_v26(void) __asm__("_ZN5wsrep18wsrep_provider_v26C1ERNS_12server_stateERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_RKNS_8provider8servicesE");
    void kit_stub_v26(void) { kit_absent(); }
}
#endif
#include "wsrep/provider_options.hpp"
#ifndef KIT_OWN_FETCH
namespace wsrep { int config_service_v1_fetch(wsrep::provider&, wsrep::provider_options*) { return 0; } }
#endif
