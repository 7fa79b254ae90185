// Check C22: the adapter between the library and a C provider
// (src/wsrep_provider_v26.cpp, src/*_service_v1.cpp) in simulated worlds.
//
// Cluster world: each node's provider is Outer (records every call made by the
// library) -> real wsrep_provider_v26 -> C function table (decodes the native
// arguments) -> SimProvider. Calls of the provider into the library go through
// the C callbacks of the adapter, the library's entry points are intercepted at
// link time to see what arrives. Both ends of every call are compared.
//
// Loading world: a simulated provider library whose symbols may be missing and
// whose functions may fail is loaded and unloaded with random services.
#include "../world.hpp"
#include "../../sim/shim/assert.h"
#include "wsrep/logger.hpp"
#include "wsrep/thread_service.hpp"
#include "wsrep/tls_service.hpp"
#include "wsrep/allowlist_service.hpp"
#include "wsrep/event_service.hpp"
#include "wsrep/connection_monitor_service.hpp"
#include "wsrep/encryption_service.hpp"
#include "wsrep/provider_options.hpp"
#include "wsrep_provider_v26.hpp"
#include "v26/wsrep_api.h"
#include "v26/wsrep_node_isolation.h"
#include "v26/wsrep_thread_service.h"
#include "v26/wsrep_tls_service.h"
#include "v26/wsrep_allowlist_service.h"
#include "v26/wsrep_event_service.h"
#include "v26/wsrep_connection_monitor_service.h"
#include "v26/wsrep_config_service.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <cstddef>
#include <memory>

typedef wsrep::provider P;
typedef wsrep::provider::flag F;


namespace ad
{
    // ---- canonical text of values, independent of the adapter -----------------------
    static std::string bytes(const void* p, size_t n)
    {
        std::string r = std::to_string(n) + ":";
        const unsigned char* c = static_cast<const unsigned char*>(p);
        char b[4];
        for (size_t i = 0; i < n && i < 200; ++i) { snprintf(b, sizeof b, "%02x", c[i]); r += b; }
        if (n > 200) r += "#" + std::to_string(sim::hash_str(std::string(static_cast<const char*>(p), n)));
        return r;
    }
    static std::string num(long long v) { return std::to_string(v); }
    static std::string txt(const wsrep::id& i) { return bytes(i.data(), 16); }
    static std::string txt(const wsrep_uuid_t& u) { return bytes(u.data, 16); }
    static std::string txt(const wsrep::gtid& g) { return txt(g.id()) + "/" + num(g.seqno().get()); }
    static std::string txt(const wsrep_gtid_t& g) { return txt(g.uuid) + "/" + num(g.seqno); }
    static std::string txt(const wsrep::ws_meta& m)
    {
        return "gtid " + txt(m.gtid()) + " server " + txt(m.server_id()) + " trx " + std::to_string(m.transaction_id().get())
            + " client " + std::to_string(m.client_id().get()) + " depends " + num(m.depends_on().get());
    }
    static std::string txt(const wsrep_trx_meta_t& m)
    {
        return "gtid " + txt(m.gtid) + " server " + txt(m.stid.node) + " trx " + std::to_string(m.stid.trx)
            + " client " + std::to_string(m.stid.conn) + " depends " + num(m.depends_on);
    }
    static std::string txt(const wsrep::const_buffer& b) { return bytes(b.data(), b.size()); }
    static std::string txt(const wsrep::mutable_buffer& b) { return bytes(b.data(), b.size()); }
    static std::string txt(const wsrep_buf_t& b) { return bytes(b.ptr, b.len); }
    static std::string txt(enum P::status s) { return P::to_string(s); }
    struct FlagMap { int lib; uint32_t native; };
    static const FlagMap flag_map[] = {
        { F::start_transaction, WSREP_FLAG_TRX_START }, { F::commit, WSREP_FLAG_TRX_END }, { F::rollback, WSREP_FLAG_ROLLBACK },
        { F::isolation, WSREP_FLAG_ISOLATION }, { F::pa_unsafe, WSREP_FLAG_PA_UNSAFE }, { F::prepare, WSREP_FLAG_TRX_PREPARE },
        { F::snapshot, WSREP_FLAG_SNAPSHOT }, { F::implicit_deps, WSREP_FLAG_IMPLICIT_DEPS } };
    static int flags_in(uint32_t n)
    {
        int r = 0;
        for (auto& f : flag_map) if (n & f.native) { r |= f.lib; n &= ~f.native; }
        SIM_CHECK("C22", "unknown-flags", n == 0, "unknown write set flags " << n << " are passed to the provider");
        return r;
    }
    static uint32_t flags_out(int l)
    { uint32_t r = 0; for (auto& f : flag_map) if (l & f.lib) r |= f.native; return r; }

    struct StMap { enum P::status lib; wsrep_status_t native; };
    static const StMap st_map[] = {
        { P::success, WSREP_OK }, { P::error_warning, WSREP_WARNING }, { P::error_transaction_missing, WSREP_TRX_MISSING },
        { P::error_certification_failed, WSREP_TRX_FAIL }, { P::error_bf_abort, WSREP_BF_ABORT }, { P::error_size_exceeded, WSREP_SIZE_EXCEEDED },
        { P::error_connection_failed, WSREP_CONN_FAIL }, { P::error_provider_failed, WSREP_NODE_FAIL }, { P::error_fatal, WSREP_FATAL },
        { P::error_not_implemented, WSREP_NOT_IMPLEMENTED }, { P::error_not_allowed, WSREP_NOT_ALLOWED } };
    static wsrep_status_t st_out(enum P::status s)
    {
        for (auto& m : st_map) if (m.lib == s) return m.native;
        sim::probe("unknown-status");
        static const int odd[] = { 57, -EINVAL, 1000 };
        return wsrep_status_t(odd[sim::choose(3, "odd-status")]);
    }
    // failure of a call whose only result is success or failure
    static wsrep_status_t fail_out(int ret)
    { return ret ? st_map[1 + sim::choose(10, "native-fail")].native : WSREP_OK; }

    // ---- call frames -------------------------------------------------------------------
    struct Frame { const char* what; std::string args; void* aux; int aux_int; bool entered; std::string res; bool up; };
    static std::map<uint64_t, std::vector<Frame> > FR;
    static std::vector<Frame>& stack() { return FR[sim::fiber_id(sim::current())]; }
    struct Call
    {
        size_t at;
        Call(const char* what, const std::string& args, void* aux = 0, int aux_int = 0, bool up = false)
        {
            stack().push_back(Frame{ what, args, aux, aux_int, false, "", up });
            at = stack().size() - 1;
        }
        Frame& f() { return stack()[at]; }
        // result as the caller sees it
        void done(const std::string& res)
        {
            Frame& x = f();
            SIM_CHECK("C22", "call-lost", x.entered, "call of " << x.what << " (" << x.args << ") does not reach the " << (x.up ? "library" : "provider"));
            SIM_CHECK("C22", "result-changed", !x.entered || x.res == res,
                      x.what << " (" << x.args << ") returns " << res << " to the " << (x.up ? "provider" : "library") << ", the "
                      << (x.up ? "library" : "provider") << " returned " << x.res);
        }
        ~Call() { stack().resize(at); }
    };
    struct Got
    {
        std::vector<Frame>& s;
        size_t at;
        Got(const char* what, const std::string& args, bool up = false) : s(stack()), at(0)
        {
            if (s.empty() || strcmp(s.back().what, what) || s.back().entered || s.back().up != up)
                sim::violation("C22", "wrong-call", std::string(what) + " (" + args + ") reached the " + (up ? "library" : "provider") + ", but "
                               + (s.empty() ? std::string("nothing") : s.back().what + std::string(s.back().entered ? " (already reached)" : "")) + " was called");
            if (s.empty()) s.push_back(Frame{ what, args, 0, 0, false, "", up });
            at = s.size() - 1;
            s[at].entered = true;
            SIM_CHECK("C22", "argument-changed", s[at].args == args,
                      what << " is called with " << s[at].args << ", the " << (up ? "library" : "provider") << " gets " << args);
        }
        Frame& f() { return s[at]; }
        void result(const std::string& r) { f().res = r; sim::probe(f().up ? "upcall" : "downcall"); }
    };

    // ---- simulated provider library --------------------------------------------------------
    enum Svc { THREAD, TLS, ALLOW, EVENT, CONN, NSVC };
    static const char* const svc_name[NSVC] = { "thread", "tls", "allowlist", "event", "connection monitor" };
    struct Lib;
    struct Exports
    {
        bool init[NSVC], deinit[NSVC], certify, isolation, config, config_deinit;
        Exports() { for (int i = 0; i < NSVC; ++i) init[i] = deinit[i] = true; certify = isolation = config = config_deinit = true; }
    };
    static Exports EXP;        // of the library loaded next
    static int unloads;
    struct Lib
    {
        wsrep_st st;
        w::Node* node = 0;
        wsrep::provider* prov = 0;
        wsrep_init_args args;
        std::string a_text;
        bool inited = false, freed = false, unloaded = false;
        int init_calls = 0;
        bool svc_on[NSVC];
        int svc_inits[NSVC], svc_deinits[NSVC];
        wsrep_event_service_v1_t event;
        Exports exp;
        bool no_names = false;
        int loaded_at = 0;
        // loading world
        bool scripted = false, seeded_up = false;
        Lib() { memset(&st, 0, sizeof st); memset(&args, 0, sizeof args); for (int i = 0; i < NSVC; ++i) { svc_on[i] = false; svc_inits[i] = svc_deinits[i] = 0; } }
    };
    static std::vector<Lib*> LIBS;             // every load of this run, never deleted
    static Lib* CUR = 0;                       // being loaded or unloaded
    static Lib& lib(wsrep_t* w)
    {
        for (Lib* l : LIBS) if (&l->st == w)
        {
            SIM_CHECK("C22", "use-after-unload", !l->unloaded && !l->freed, "provider is used after it was " << (l->unloaded ? "unloaded" : "freed"));
            return *l;
        }
        sim::fatal_violation("foreign-handle", "provider function called with an unknown handle");
    }
    static bool known_dlh(void* h) { for (Lib* l : LIBS) if (l->st.dlh == h) return true; return false; }
    static Lib& lib_of_dlh(void* h)
    {
        for (Lib* l : LIBS) if (l->st.dlh == h)
        {
            SIM_CHECK("C22", "use-after-unload", !l->unloaded, "symbol of provider library is looked up after it was unloaded");
            return *l;
        }
        abort();
    }

    struct Outer;
    static std::map<wsrep::server_state*, Lib*> BY_SS;

    // ---- native functions of the cluster world ---------------------------------------------
    struct Tag { wsrep::provider* p; uint64_t trx; };
    static std::set<Tag*> TAGS;
    static wsrep::ws_handle h_in(Lib& l, const wsrep_ws_handle_t* h)
    {
        void* o = h->opaque;
        if (TAGS.count(static_cast<Tag*>(o)))
        {
            Tag* t = static_cast<Tag*>(o);
            SIM_CHECK("C22", "handle-mixed-up", t->trx == h->trx_id && t->p == l.prov, "handle of transaction " << t->trx << " is used for " << h->trx_id);
            o = 0;
        }
        return wsrep::ws_handle(wsrep::transaction_id(h->trx_id), o);
    }
    static void h_out(Lib& l, const wsrep::ws_handle& n, wsrep_ws_handle_t* h)
    {
        h->trx_id = n.transaction_id().get();
        if (n.opaque() || n.transaction_id().is_undefined()) { h->opaque = n.opaque(); return; }
        if (h->opaque && TAGS.count(static_cast<Tag*>(h->opaque)) && static_cast<Tag*>(h->opaque)->trx == h->trx_id) return;
        Tag* t = new Tag{ l.prov, h->trx_id };
        TAGS.insert(t);
        h->opaque = t;
    }
    static std::string txt(const wsrep::ws_handle& h) { return "trx " + std::to_string(h.transaction_id().get()) + "@" + std::to_string(uintptr_t(h.opaque())); }
    static std::string txt(const wsrep_ws_handle_t& h) { return "trx " + std::to_string(h.trx_id) + "@" + std::to_string(uintptr_t(h.opaque)); }
    static wsrep::gtid gtid_in(const wsrep_gtid_t& g) { return wsrep::gtid(wsrep::id(g.uuid.data, 16), wsrep::seqno(g.seqno)); }
    static wsrep_gtid_t gtid_out(const wsrep::gtid& g) { wsrep_gtid_t r; memcpy(r.uuid.data, g.id().data(), 16); r.seqno = g.seqno().get(); return r; }
    static wsrep::ws_meta meta_in(const wsrep_trx_meta_t& m, int flags)
    {
        return wsrep::ws_meta(gtid_in(m.gtid), wsrep::stid(wsrep::id(m.stid.node.data, 16), wsrep::transaction_id(m.stid.trx), wsrep::client_id(m.stid.conn)),
                              wsrep::seqno(m.depends_on), flags);
    }
    static void meta_out(const wsrep::ws_meta& m, wsrep_trx_meta_t* n)
    {
        n->gtid = gtid_out(m.gtid());
        memcpy(n->stid.node.data, m.server_id().data(), 16);
        n->stid.trx = m.transaction_id().get();
        n->stid.conn = m.client_id().get();
        n->depends_on = m.depends_on().get();
    }
    static const char* str(const char* s) { return s ? s : "(null)"; }

    static std::string stat(const char* s) { return s; }
    static std::string rs(wsrep_status_t s)
    { for (auto& m : st_map) if (m.native == s) return txt(m.lib); return txt(P::error_unknown); }
    static std::string ok(wsrep_status_t s) { return s == WSREP_OK ? "ok" : "failed"; }
    static std::string ok(int ret) { return ret == 0 ? "ok" : "failed"; }

    static wsrep_cap_t n_capabilities(wsrep_t* t)
    { Lib& l = lib(t); Got g("capabilities", ""); const int c = l.prov->capabilities(); g.result(num(c)); return wsrep_cap_t(c); }
    static wsrep_status_t n_options_set(wsrep_t* t, const char* o)
    { lib(t); Got g("options_set", str(o)); wsrep_status_t r = st_out(static_cast<enum P::status>(sim::choose(12, "opt-status"))); g.result(rs(r)); return r; }
    static char* n_options_get(wsrep_t* t)
    {
        lib(t);
        Got g("options_get", "");
        if (sim::fault(0.2, "options-get-fails")) { g.result("exception"); return 0; }
        std::string s = "a = " + num(sim::choose(1000, "v")) + "; b.c = d";
        g.result(s);
        return strdup(s.c_str());
    }
    static bool key_fails;
    static wsrep_status_t n_enc_set_key(wsrep_t* t, const wsrep_enc_key_t* k)
    { lib(t); Got g("enc_set_key", bytes(k->ptr, k->len)); wsrep_status_t r = fail_out(sim::fault(0.2, "enc-key-fails")); g.result(rs(r)); if (r != WSREP_OK) key_fails = true; return r; }
    static wsrep_status_t n_connect(wsrep_t* t, const char* name, const char* url, const char* donor, wsrep_bool_t boot)
    {
        Lib& l = lib(t);
        Got g("connect", std::string(str(name)) + "|" + str(url) + "|" + str(donor) + "|" + num(boot));
        wsrep_status_t r = st_out(l.prov->connect(str(name), str(url), str(donor), boot));
        g.result(rs(r));
        return r;
    }
    static wsrep_status_t n_disconnect(wsrep_t* t)
    { Lib& l = lib(t); Got g("disconnect", ""); wsrep_status_t r = fail_out(l.prov->disconnect()); g.result(ok(r)); return r; }
    static wsrep_status_t n_recv(wsrep_t* t, void* ctx)
    {
        Lib& l = lib(t);
        Got g("recv", "");
        SIM_CHECK("C22", "argument-changed", g.f().aux == ctx, "applier context is changed");
        wsrep_status_t r = st_out(l.prov->run_applier(static_cast<wsrep::high_priority_service*>(ctx)));
        g.result(rs(r));
        return r;
    }
    static wsrep_status_t n_assign_read_view(wsrep_t* t, wsrep_ws_handle_t* h, const wsrep_gtid_t* p)
    {
        Lib& l = lib(t);
        Got g("assign_read_view", txt(*h) + (p ? " " + txt(*p) : " none"));
        wsrep::ws_handle c = h_in(l, h);
        wsrep::gtid gt;
        if (p) gt = gtid_in(*p);
        wsrep_status_t r = st_out(l.prov->assign_read_view(c, p ? &gt : 0));
        h_out(l, c, h);
        g.result(rs(r) + " " + txt(*h));
        return r;
    }
    static wsrep_status_t certify_any(Lib& l, wsrep_conn_id_t c, wsrep_ws_handle_t* h, uint32_t flags, wsrep_trx_meta_t* m, const wsrep_seq_cb_t* cb)
    {
        const int fl = flags_in(flags);
        Got g("certify", "client " + std::to_string(c) + " " + txt(*h) + " flags " + num(fl) + " in " + txt(*m));
        SIM_CHECK("C22", "callback-lost", (g.f().aux != 0) == (cb != 0) || !l.exp.certify, "sequencing callback of certify is " << (cb ? "invented" : "lost"));
        const wsrep::provider::seq_cb_t* want = static_cast<const wsrep::provider::seq_cb_t*>(g.f().aux);
        SIM_CHECK("C22", "callback-changed", !cb || !want || (want->ctx == cb->ctx && want->fn == cb->fn), "sequencing callback of certify is changed");
        wsrep::ws_handle ch = h_in(l, h);
        wsrep::ws_meta cm = meta_in(*m, fl);
        wsrep::provider::seq_cb_t k = { cb ? cb->ctx : 0, cb ? cb->fn : 0 };
        wsrep_status_t r = st_out(l.prov->certify(wsrep::client_id(c), ch, fl, cm, cb ? &k : 0));
        h_out(l, ch, h);
        meta_out(cm, m);
        g.result(rs(r) + " " + txt(*h) + " " + txt(*m) + " flags " + num(fl));
        return r;
    }
    static wsrep_status_t n_certify(wsrep_t* t, wsrep_conn_id_t c, wsrep_ws_handle_t* h, uint32_t flags, wsrep_trx_meta_t* m)
    { if (w::W) w::W->seq_cb = false; return certify_any(lib(t), c, h, flags, m, 0); }
    static wsrep_status_t n_certify_v1(wsrep_t* t, wsrep_conn_id_t c, wsrep_ws_handle_t* h, uint32_t flags, wsrep_trx_meta_t* m, const wsrep_seq_cb_t* cb)
    { sim::probe("certify-v1"); return certify_any(lib(t), c, h, flags, m, cb); }
    static wsrep_status_t n_co_enter(wsrep_t* t, const wsrep_ws_handle_t* h, const wsrep_trx_meta_t* m)
    {
        Lib& l = lib(t);
        Got g("commit_order_enter", txt(*h) + " " + txt(*m));
        wsrep_status_t r = st_out(l.prov->commit_order_enter(h_in(l, h), meta_in(*m, g.f().aux_int)));
        g.result(rs(r));
        return r;
    }
    static wsrep_status_t n_co_leave(wsrep_t* t, const wsrep_ws_handle_t* h, const wsrep_trx_meta_t* m, const wsrep_buf_t* e)
    {
        Lib& l = lib(t);
        Got g("commit_order_leave", txt(*h) + " " + txt(*m) + " error " + (e ? txt(*e) : bytes("", 0)));
        wsrep::mutable_buffer b;
        if (e && e->len) b.push_back(static_cast<const char*>(e->ptr), static_cast<const char*>(e->ptr) + e->len);
        wsrep_status_t r = fail_out(l.prov->commit_order_leave(h_in(l, h), meta_in(*m, g.f().aux_int), b));
        g.result(ok(r));
        return r;
    }
    static wsrep_status_t n_release(wsrep_t* t, wsrep_ws_handle_t* h)
    {
        Lib& l = lib(t);
        Got g("release", txt(*h));
        wsrep::ws_handle c = h_in(l, h);
        const bool local = c.opaque() == 0;
        wsrep_status_t r = fail_out(l.prov->release(c));
        if (local && c.transaction_id().is_undefined()) { h->trx_id = c.transaction_id().get(); h->opaque = 0; }
        g.result(ok(r) + " " + txt(*h));
        return r;
    }
    static wsrep_status_t n_replay(wsrep_t* t, const wsrep_ws_handle_t* h, void* ctx)
    {
        Lib& l = lib(t);
        Got g("replay", txt(*h));
        SIM_CHECK("C22", "argument-changed", g.f().aux == ctx, "replayer context is changed");
        wsrep_status_t r = st_out(l.prov->replay(h_in(l, h), static_cast<wsrep::high_priority_service*>(ctx)));
        g.result(rs(r));
        return r;
    }
    static wsrep_status_t n_abort(wsrep_t* t, wsrep_seqno_t bf, wsrep_trx_id_t victim, wsrep_seqno_t* vs)
    {
        Lib& l = lib(t);
        Got g("bf_abort", num(bf) + " victim " + std::to_string(victim));
        wsrep::seqno s;
        wsrep_status_t r = st_out(l.prov->bf_abort(wsrep::seqno(bf), wsrep::transaction_id(victim), *static_cast<wsrep::client_service*>(g.f().aux), s));
        *vs = s.get();
        g.result(rs(r) + " " + num(*vs));
        return r;
    }
    static wsrep_status_t n_rollback(wsrep_t* t, wsrep_trx_id_t id, const wsrep_buf_t*)
    { Lib& l = lib(t); Got g("rollback", std::to_string(id)); wsrep_status_t r = st_out(l.prov->rollback(wsrep::transaction_id(id))); g.result(rs(r)); return r; }
    static const char* ktype(wsrep_key_type_t k)
    { return k == WSREP_KEY_SHARED ? "shared" : k == WSREP_KEY_REFERENCE ? "reference" : k == WSREP_KEY_UPDATE ? "update" : "exclusive"; }
    static const char* ktype(enum wsrep::key::type k)
    { return k == wsrep::key::shared ? "shared" : k == wsrep::key::reference ? "reference" : k == wsrep::key::update ? "update" : "exclusive"; }
    static enum wsrep::key::type ktype_in(wsrep_key_type_t k)
    { return k == WSREP_KEY_SHARED ? wsrep::key::shared : k == WSREP_KEY_REFERENCE ? wsrep::key::reference : k == WSREP_KEY_UPDATE ? wsrep::key::update : wsrep::key::exclusive; }
    static std::string txt(const wsrep_key_t& k)
    { std::string s = "["; for (size_t i = 0; i < k.key_parts_num; ++i) s += txt(k.key_parts[i]) + ","; return s + "]"; }
    static std::string txt(const wsrep::key& k)
    { std::string s = "["; for (size_t i = 0; i < k.size(); ++i) s += bytes(k.key_parts()[i].data(), k.key_parts()[i].size()) + ","; return s + "]"; }
    static wsrep_status_t n_append_key(wsrep_t* t, wsrep_ws_handle_t* h, const wsrep_key_t* k, size_t n, wsrep_key_type_t type, wsrep_bool_t copy)
    {
        Lib& l = lib(t);
        std::string s = txt(*h) + " " + ktype(type);
        for (size_t i = 0; i < n; ++i) s += " " + txt(k[i]);
        Got g("append_key", s);
        // the library's key parts do not live longer than the call
        SIM_CHECK("C22", "no-copy", copy, "provider is allowed to keep a pointer to key data");
        wsrep::ws_handle c = h_in(l, h);
        int ret = 0;
        for (size_t i = 0; i < n && !ret; ++i)
        {
            wsrep::key ck(ktype_in(type));
            for (size_t j = 0; j < k[i].key_parts_num; ++j) ck.append_key_part(k[i].key_parts[j].ptr, k[i].key_parts[j].len);
            ret = l.prov->append_key(c, ck);
        }
        wsrep_status_t r = fail_out(ret);
        h_out(l, c, h);
        g.result(ok(r) + " " + txt(*h));
        return r;
    }
    static wsrep_status_t n_append_data(wsrep_t* t, wsrep_ws_handle_t* h, const wsrep_buf_t* d, size_t n, wsrep_data_type_t type, wsrep_bool_t copy)
    {
        Lib& l = lib(t);
        std::string all;
        for (size_t i = 0; i < n; ++i) all.append(static_cast<const char*>(d[i].ptr), d[i].len);
        Got g("append_data", txt(*h) + " " + bytes(all.data(), all.size()) + (type == WSREP_DATA_ORDERED ? "" : " not ordered"));
        SIM_CHECK("C22", "no-copy", copy, "provider is allowed to keep a pointer to write set data");
        wsrep::ws_handle c = h_in(l, h);
        wsrep_status_t r = st_out(l.prov->append_data(c, wsrep::const_buffer(all.data(), all.size())));
        h_out(l, c, h);
        g.result(rs(r) + " " + txt(*h));
        return r;
    }
    static wsrep_status_t n_sync_wait(wsrep_t* t, wsrep_gtid_t* upto, int tout, wsrep_gtid_t* out)
    {
        Lib& l = lib(t);
        if (upto)
        {
            Got g("wait_for_gtid", txt(*upto) + " " + num(tout));
            wsrep_status_t r = st_out(l.prov->wait_for_gtid(gtid_in(*upto), tout));
            g.result(rs(r));
            return r;
        }
        Got g("causal_read", num(tout));
        std::pair<wsrep::gtid, enum P::status> p = l.prov->causal_read(tout);
        wsrep_status_t r = st_out(p.second);
        if (out) { if (r == WSREP_OK) *out = gtid_out(p.first); else memset(out, 0x5a, sizeof *out); }      // undefined on failure
        g.result(rs(r) + " " + (r == WSREP_OK ? txt(p.first) : txt(wsrep::gtid::undefined())));
        return r;
    }
    static wsrep_status_t n_last_committed(wsrep_t* t, wsrep_gtid_t* out)
    {
        Lib& l = lib(t);
        Got g("last_committed", "");
        if (l.scripted)
        {
            wsrep_status_t r = fail_out(sim::fault(0.3, "last-committed-fails"));
            memset(out, 7, sizeof *out);
            out->seqno = sim::choose(1000, "seqno");
            g.result(r == WSREP_OK ? txt(*out) : "exception");
            return r;
        }
        *out = gtid_out(l.prov->last_committed_gtid());
        g.result(txt(*out));
        return WSREP_OK;
    }
    static wsrep_status_t n_free_conn(wsrep_t*, wsrep_conn_id_t) { return WSREP_OK; }
    static wsrep_status_t n_toi_start(wsrep_t* t, wsrep_conn_id_t c, const wsrep_key_t* k, size_t n, const wsrep_buf_t* b, size_t nb, uint32_t flags, wsrep_trx_meta_t* m)
    {
        Lib& l = lib(t);
        std::string s = "client " + std::to_string(c) + " keys";
        wsrep::key_array ka;
        for (size_t i = 0; i < n; ++i)
        {
            s += " " + txt(k[i]);
            wsrep::key ck(wsrep::key::exclusive);
            for (size_t j = 0; j < k[i].key_parts_num; ++j) ck.append_key_part(k[i].key_parts[j].ptr, k[i].key_parts[j].len);
            ka.push_back(ck);
        }
        std::string all;
        for (size_t i = 0; i < nb; ++i) all.append(static_cast<const char*>(b[i].ptr), b[i].len);
        const int fl = flags_in(flags);
        Got g("enter_toi", s + " data " + bytes(all.data(), all.size()) + " flags " + num(fl) + " in " + txt(*m));
        wsrep::ws_meta cm = meta_in(*m, fl);
        wsrep_status_t r = st_out(l.prov->enter_toi(wsrep::client_id(c), ka, wsrep::const_buffer(all.data(), all.size()), cm, fl));
        meta_out(cm, m);
        g.result(rs(r) + " " + txt(*m) + " flags " + num(fl));
        return r;
    }
    static wsrep_status_t n_toi_end(wsrep_t* t, wsrep_conn_id_t c, const wsrep_buf_t* e)
    {
        Lib& l = lib(t);
        Got g("leave_toi", "client " + std::to_string(c) + " error " + (e ? txt(*e) : bytes("", 0)));
        wsrep::mutable_buffer b;
        if (e && e->len) b.push_back(static_cast<const char*>(e->ptr), static_cast<const char*>(e->ptr) + e->len);
        static const wsrep::ws_meta none;
        const wsrep::ws_meta* m = static_cast<const wsrep::ws_meta*>(g.f().aux);    // not passed to C provider, which keeps it by client
        wsrep_status_t r = st_out(l.prov->leave_toi(wsrep::client_id(c), m ? *m : none, b));
        g.result(rs(r));
        return r;
    }
    static wsrep_status_t n_sst_sent(wsrep_t* t, const wsrep_gtid_t* gt, int err)
    { Lib& l = lib(t); Got g("sst_sent", txt(*gt) + " " + num(err)); wsrep_status_t r = st_out(l.prov->sst_sent(gtid_in(*gt), err)); g.result(rs(r)); return r; }
    static wsrep_status_t n_sst_received(wsrep_t* t, const wsrep_gtid_t* gt, const wsrep_buf_t* st, int err)
    {
        Lib& l = lib(t);
        Got g("sst_received", txt(*gt) + " " + num(err) + (st && st->len ? " state" : ""));
        wsrep_status_t r = st_out(l.prov->sst_received(gtid_in(*gt), err));
        g.result(rs(r));
        return r;
    }
    static int stats_out;
    static wsrep_stats_var* n_stats_get(wsrep_t* t)
    {
        lib(t);
        Got g("status", "");
        std::string res;
        if (sim::chance(0.2, "no-stats")) { g.result(res); return 0; }
        const uint32_t n = sim::choose(6, "stats");
        wsrep_stats_var* v = new wsrep_stats_var[n + 1];
        for (uint32_t i = 0; i < n; ++i)
        {
            v[i].name = strdup(("stat" + num(i)).c_str());
            std::ostringstream os;
            switch (sim::choose(3, "stat-type"))
            {
            case 0: v[i].type = WSREP_VAR_STRING; v[i].value._string = strdup(("value " + num(sim::choose(9, "v"))).c_str()); os << v[i].value._string; break;
            case 1: v[i].type = WSREP_VAR_INT64; v[i].value._int64 = int64_t(sim::choose(3, "sign")) * -4000000000LL + sim::choose(100, "v"); os << v[i].value._int64; break;
            default: v[i].type = WSREP_VAR_DOUBLE; v[i].value._double = double(sim::choose(1000, "v")) / 8; os << v[i].value._double;
            }
            res += std::string(v[i].name) + "=" + os.str() + ";";
        }
        v[n].name = 0;
        ++stats_out;
        g.result(res);
        return v;
    }
    static void n_stats_free(wsrep_t*, wsrep_stats_var* v) { --stats_out; (void)v; }
    static int stats_reset;
    static void n_stats_reset(wsrep_t* t) { lib(t); Got g("reset_status", ""); g.result(""); }
    static wsrep_seqno_t n_pause(wsrep_t* t)
    {
        Lib& l = lib(t);
        Got g("pause", "");
        if (sim::fault(l.scripted ? 0.3 : 0.1, "pause-fails"))
        {
            static const int e[] = { 1, ENOSYS, EAGAIN, EINVAL };
            g.result(num(-1));
            return -e[sim::choose(4, "errno")];
        }
        wsrep_seqno_t r = l.prov->pause().get();
        g.result(num(r));
        return r;
    }
    static wsrep_status_t n_resume(wsrep_t* t)
    { Lib& l = lib(t); Got g("resume", ""); wsrep_status_t r = fail_out(l.prov->resume()); g.result(ok(r)); return r; }
    static wsrep_status_t n_desync(wsrep_t* t)
    { Lib& l = lib(t); Got g("desync", ""); wsrep_status_t r = fail_out(l.prov->desync()); g.result(ok(r)); return r; }
    static wsrep_status_t n_resync(wsrep_t* t)
    { Lib& l = lib(t); Got g("resync", ""); wsrep_status_t r = fail_out(l.prov->resync()); g.result(ok(r)); return r; }

    static void touch_services(Lib&);
    static bool init_fails;
    static wsrep_status_t n_init(wsrep_t* t, const wsrep_init_args* a)
    {
        Lib& l = lib(t);
        ++l.init_calls;
        SIM_CHECK("C22", "init-twice", l.init_calls == 1, "provider is initialized twice");
        if (l.scripted) touch_services(l);
        if (l.scripted && sim::fault(0.2, "provider-init-fails")) { init_fails = true; return fail_out(1); }
        l.args = *a;
        // pointers may be gone after the call
        l.a_text = std::string(str(a->node_name)) + "|" + str(a->node_address) + "|" + str(a->node_incoming) + "|" + str(a->data_dir) + "|" + str(a->options) + "|"
            + num(a->proto_ver) + "|" + (a->state_id ? txt(*a->state_id) : "none");
        l.args.node_name = l.args.node_address = l.args.node_incoming = l.args.data_dir = l.args.options = 0;
        l.args.state_id = 0;
        l.inited = true;
        return WSREP_OK;
    }
    static void n_free(wsrep_t* t)
    {
        Lib& l = lib(t);
        SIM_CHECK("C22", "free-twice", !l.freed, "provider is freed twice");
        if (l.scripted) touch_services(l);
        for (int i = 0; i < NSVC; ++i)
            SIM_CHECK("C22", "deinit-before-free", !l.inited || l.svc_deinits[i] == 0, svc_name[i] << " service is deinitialized before the provider which uses it is freed");
        l.freed = true;
    }

    // ---- callbacks given to services ------------------------------------------------------
    static wsrep_thread_service_v1_t* T_THREAD; static wsrep_tls_service_v1_t* T_TLS; static wsrep_allowlist_service_v1_t* T_ALLOW;
    static wsrep_connection_monitor_service_v1_t* T_CONN;
    static bool svc_init_failed[NSVC];
    static bool before_fails, after_fails;
    static int thread_stage;                   // of the load: 1 before_init() called, 2 service initialized, 3 after_init() called
    static int svc_init(int k)
    {
        Lib& l = *CUR;
        SIM_CHECK("C22", "service-after-free", !l.freed && !l.unloaded, svc_name[k] << " service is initialized in a provider which is gone");
        if (sim::fault(0.15, (std::string(svc_name[k]) + "-service-init-fails").c_str()))
        { svc_init_failed[k] = true; static const int e[] = { EINVAL, ENOMEM, -1 }; return e[sim::choose(3, "errno")]; }
        if (k == THREAD)
        {
            SIM_CHECK("C22", "thread-init-order", thread_stage == 1, "thread service is initialized at stage " << thread_stage);
            thread_stage = 2;
        }
        ++l.svc_inits[k];
        SIM_CHECK("C22", "service-twice", !l.svc_on[k], svc_name[k] << " service is initialized twice");
        l.svc_on[k] = true;
        sim::probe(std::string("service-") + svc_name[k]);
        return 0;
    }
    static void svc_deinit(int k)
    {
        Lib& l = *CUR;
        ++l.svc_deinits[k];
        SIM_CHECK("C22", "service-deinit", l.svc_on[k], svc_name[k] << " service is deinitialized but it was not initialized");
        SIM_CHECK("C22", "service-after-unload", !l.unloaded, svc_name[k] << " service is deinitialized in a library which was unloaded");
        l.svc_on[k] = false;
    }
    static int i_thread(wsrep_thread_service_v1_t* s) { int r = svc_init(THREAD); if (!r) T_THREAD = s; return r; }
    static int i_tls(wsrep_tls_service_v1_t* s) { int r = svc_init(TLS); if (!r) T_TLS = s; return r; }
    static int i_allow(wsrep_allowlist_service_v1_t* s) { int r = svc_init(ALLOW); if (!r) T_ALLOW = s; return r; }
    static int i_event(wsrep_event_service_v1_t* s) { int r = svc_init(EVENT); if (!r) CUR->event = *s; return r; }
    static int i_conn(wsrep_connection_monitor_service_v1_t* s) { int r = svc_init(CONN); if (!r) T_CONN = s; return r; }
    static void d_thread() { svc_deinit(THREAD); }
    static void d_tls() { svc_deinit(TLS); }
    static void d_allow() { svc_deinit(ALLOW); }
    static void d_event() { svc_deinit(EVENT); }
    static void d_conn() { svc_deinit(CONN); }
    static wsrep_node_isolation_result n_isolation(wsrep_node_isolation_mode m)
    {
        Got g("isolation", num(m));
        const bool bad = sim::fault(0.3, "isolation-fails");
        g.result(txt(bad ? P::error_warning : P::success));
        return bad ? WSREP_NODE_ISOLATION_INVALID_VALUE : WSREP_NODE_ISOLATION_SUCCESS;
    }
    struct Param { std::string name, s; int flags; int64_t i; double d; bool b; };
    static std::vector<Param> PARAMS;
    static bool params_fail, cfg_init_fails;
    static int cfg_on;
    static wsrep_status_t n_get_parameters(wsrep_t* t, wsrep_get_parameters_cb cb, void* ctx)
    {
        lib(t);
        SIM_CHECK("C22", "config-not-initialized", cfg_on == 1, "configuration service is used but it is not initialized");
        for (auto& p : PARAMS)
        {
            wsrep_parameter_t n;
            n.flags = p.flags;
            n.name = p.name.c_str();
            switch (p.flags & WSREP_PARAM_TYPE_MASK)
            {
            case WSREP_PARAM_TYPE_BOOL: n.value.as_bool = p.b; break;
            case WSREP_PARAM_TYPE_INTEGER: n.value.as_integer = p.i; break;
            case WSREP_PARAM_TYPE_DOUBLE: n.value.as_double = p.d; break;
            default: n.value.as_string = p.s.c_str();
            }
            if (cb(&n, ctx) != WSREP_OK) return WSREP_FATAL;
        }
        if (sim::fault(0.2, "get-parameters-fails")) { params_fail = true; return fail_out(1); }
        return WSREP_OK;
    }
    static int i_config(wsrep_config_service_v1_t* s)
    {
        if (sim::fault(0.15, "config-service-init-fails")) { cfg_init_fails = true; return EINVAL; }
        ++cfg_on;
        s->get_parameters = n_get_parameters;
        return 0;
    }
    static void d_config() { --cfg_on; SIM_CHECK("C22", "config-deinit", cfg_on >= 0, "configuration service is deinitialized twice"); }

    static void* symbol(Lib& l, const char* n)
    {
        struct { const char* n; void* f; bool there; } t[] = {
            { WSREP_THREAD_SERVICE_INIT_FUNC_V1, (void*)&i_thread, l.exp.init[THREAD] }, { WSREP_THREAD_SERVICE_DEINIT_FUNC_V1, (void*)&d_thread, l.exp.deinit[THREAD] },
            { WSREP_TLS_SERVICE_INIT_FUNC_V1, (void*)&i_tls, l.exp.init[TLS] }, { WSREP_TLS_SERVICE_DEINIT_FUNC_V1, (void*)&d_tls, l.exp.deinit[TLS] },
            { WSREP_ALLOWLIST_SERVICE_INIT_FUNC_V1, (void*)&i_allow, l.exp.init[ALLOW] }, { WSREP_ALLOWLIST_SERVICE_DEINIT_FUNC_V1, (void*)&d_allow, l.exp.deinit[ALLOW] },
            { WSREP_EVENT_SERVICE_INIT_FUNC_V1, (void*)&i_event, l.exp.init[EVENT] }, { WSREP_EVENT_SERVICE_DEINIT_FUNC_V1, (void*)&d_event, l.exp.deinit[EVENT] },
            { WSREP_CONNECTION_MONITOR_SERVICE_INIT_FUNC_V1, (void*)&i_conn, l.exp.init[CONN] }, { WSREP_CONNECTION_MONITOR_SERVICE_DEINIT_FUNC_V1, (void*)&d_conn, l.exp.deinit[CONN] },
            { WSREP_NODE_ISOLATION_MODE_SET_V1, (void*)&n_isolation, l.exp.isolation }, { WSREP_CERTIFY_V1, (void*)&n_certify_v1, l.exp.certify },
            { WSREP_CONFIG_SERVICE_INIT_FUNC_V1, (void*)&i_config, l.exp.config }, { WSREP_CONFIG_SERVICE_DEINIT_FUNC_V1, (void*)&d_config, l.exp.config_deinit } };
        CUR = &l;
        for (auto& x : t) if (!strcmp(x.n, n)) return x.there ? x.f : 0;
        sim::probe(std::string("unknown-symbol ") + n);
        return 0;
    }

    // ---- loading ------------------------------------------------------------------------------
    static w::Node* NEXT_NODE; static wsrep::provider* NEXT_PROV; static bool NEXT_SCRIPTED; static bool load_fails; static bool no_names;
    static Lib* do_load(const char* spec)
    {
        load_fails = false;
        if (NEXT_SCRIPTED && sim::fault(0.15, "library-load-fails")) { load_fails = true; return 0; }
        Lib* l = new Lib;
        l->exp = EXP; l->no_names = no_names; l->loaded_at = unloads;
        l->node = NEXT_NODE; l->prov = NEXT_PROV; l->scripted = NEXT_SCRIPTED;
        wsrep_st& s = l->st;
        s.version = WSREP_INTERFACE_VERSION;
        s.init = n_init; s.capabilities = n_capabilities; s.options_set = n_options_set; s.options_get = n_options_get; s.enc_set_key = n_enc_set_key;
        s.connect = n_connect; s.disconnect = n_disconnect; s.recv = n_recv; s.assign_read_view = n_assign_read_view; s.certify = n_certify;
        s.commit_order_enter = n_co_enter; s.commit_order_leave = n_co_leave; s.release = n_release; s.replay_trx = n_replay;
        s.abort_certification = n_abort; s.rollback = n_rollback; s.append_key = n_append_key; s.append_data = n_append_data;
        s.sync_wait = n_sync_wait; s.last_committed_id = n_last_committed; s.free_connection = n_free_conn;
        s.to_execute_start = n_toi_start; s.to_execute_end = n_toi_end; s.sst_sent = n_sst_sent; s.sst_received = n_sst_received;
        s.stats_get = n_stats_get; s.stats_free = n_stats_free; s.stats_reset = n_stats_reset;
        s.pause = n_pause; s.resume = n_resume; s.desync = n_desync; s.resync = n_resync;
        s.provider_name = no_names ? 0 : "sim"; s.provider_version = no_names ? 0 : "26.4"; s.provider_vendor = no_names ? 0 : "simulator";
        s.free = n_free;
        s.dlh = l;
        s.ctx = l;
        LIBS.push_back(l);
        (void)spec;
        return l;
    }
    static void do_unload(wsrep_t* t)
    {
        for (Lib* l : LIBS) if (&l->st == t)
        {
            SIM_CHECK("C22", "unload-twice", !l->unloaded, "provider library is unloaded twice");
            for (int i = 0; i < NSVC; ++i)
                SIM_CHECK("C22", "service-left", !l->svc_on[i], svc_name[i] << " service is left initialized in the provider when it is unloaded");
            SIM_CHECK("C22", "unload-before-free", !l->inited || l->freed, "initialized provider is unloaded before it is freed");
            l->unloaded = true;
            ++unloads;
            return;
        }
        sim::violation("C22", "unload-unknown", "unknown provider is unloaded");
    }
}

extern "C" int wsrep_load(const char* spec, wsrep_t** h, wsrep_log_cb_t)
{
    ad::Lib* l = ad::do_load(spec);
    if (!l) return ENOENT;
    *h = &l->st;
    return 0;
}
extern "C" void wsrep_unload(wsrep_t* h) { ad::do_unload(h); }
extern "C" void* __real_dlsym(void*, const char*);
extern "C" void* __wrap_dlsym(void* h, const char* n)
{ return ad::known_dlh(h) ? ad::symbol(ad::lib_of_dlh(h), n) : __real_dlsym(h, n); }
extern "C" char* __wrap_dlerror() { static char s[] = "undefined symbol"; return s; }

namespace ad
{
    // ---- library side: records what is called ------------------------------------------------------
    struct Outer : wsrep::provider
    {
        Outer(wsrep::server_state& ss, w::SimProvider* s, wsrep::provider* a, Lib* l) : wsrep::provider(ss), sim_(s), a_(a), l_(l) { }
        Lib* l_;
        ~Outer() { }
        std::unique_ptr<w::SimProvider> sim_;
        std::unique_ptr<wsrep::provider> a_;
        enum status connect(const std::string& n, const std::string& u, const std::string& d, bool b) WSREP_OVERRIDE
        { Call c("connect", n + "|" + u + "|" + d + "|" + num(b)); auto r = a_->connect(n, u, d, b); c.done(txt(r)); return r; }
        int disconnect() WSREP_OVERRIDE { Call c("disconnect", ""); auto r = a_->disconnect(); c.done(ok(r)); return r; }
        int capabilities() const WSREP_OVERRIDE { Call c("capabilities", ""); auto r = a_->capabilities(); c.done(num(r)); return r; }
        int desync() WSREP_OVERRIDE { Call c("desync", ""); auto r = a_->desync(); c.done(ok(r)); return r; }
        int resync() WSREP_OVERRIDE { Call c("resync", ""); auto r = a_->resync(); c.done(ok(r)); return r; }
        wsrep::seqno pause() WSREP_OVERRIDE { Call c("pause", ""); auto r = a_->pause(); c.done(num(r.get())); return r; }
        int resume() WSREP_OVERRIDE { Call c("resume", ""); auto r = a_->resume(); c.done(ok(r)); return r; }
        enum status run_applier(wsrep::high_priority_service* h) WSREP_OVERRIDE
        { Call c("recv", "", h); auto r = a_->run_applier(h); c.done(txt(r)); return r; }
        int start_transaction(wsrep::ws_handle&) WSREP_OVERRIDE { return 0; }
        enum status assign_read_view(wsrep::ws_handle& h, const wsrep::gtid* g) WSREP_OVERRIDE
        { Call c("assign_read_view", txt(h) + (g ? " " + txt(*g) : " none")); auto r = a_->assign_read_view(h, g); c.done(txt(r) + " " + txt(h)); return r; }
        int append_key(wsrep::ws_handle& h, const wsrep::key& k) WSREP_OVERRIDE
        { Call c("append_key", txt(h) + " " + ktype(k.type()) + " " + txt(k)); auto r = a_->append_key(h, k); c.done(ok(r) + " " + txt(h)); return r; }
        enum status append_data(wsrep::ws_handle& h, const wsrep::const_buffer& d) WSREP_OVERRIDE
        { Call c("append_data", txt(h) + " " + txt(d)); auto r = a_->append_data(h, d); c.done(txt(r) + " " + txt(h)); return r; }
        enum status certify(wsrep::client_id id, wsrep::ws_handle& h, int flags, wsrep::ws_meta& m, const seq_cb_t* cb) WSREP_OVERRIDE
        {
            Call c("certify", "client " + std::to_string(id.get()) + " " + txt(h) + " flags " + num(flags) + " in " + txt(m), const_cast<seq_cb_t*>(cb));
            auto r = a_->certify(id, h, flags, m, cb);
            c.done(txt(r) + " " + txt(h) + " " + txt(m) + " flags " + num(m.flags()));
            return r;
        }
        enum status bf_abort(wsrep::seqno bf, wsrep::transaction_id v, wsrep::client_service& cs, wsrep::seqno& vs) WSREP_OVERRIDE
        { Call c("bf_abort", num(bf.get()) + " victim " + std::to_string(v.get()), &cs); auto r = a_->bf_abort(bf, v, cs, vs); c.done(txt(r) + " " + num(vs.get())); return r; }
        enum status rollback(wsrep::transaction_id id) WSREP_OVERRIDE
        { Call c("rollback", std::to_string(id.get())); auto r = a_->rollback(id); c.done(txt(r)); return r; }
        enum status commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m) WSREP_OVERRIDE
        { Call c("commit_order_enter", txt(h) + " " + txt(m), 0, m.flags()); auto r = a_->commit_order_enter(h, m); c.done(txt(r)); return r; }
        int commit_order_leave(const wsrep::ws_handle& h, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) WSREP_OVERRIDE
        { Call c("commit_order_leave", txt(h) + " " + txt(m) + " error " + txt(e), 0, m.flags()); auto r = a_->commit_order_leave(h, m, e); c.done(ok(r)); return r; }
        int release(wsrep::ws_handle& h) WSREP_OVERRIDE { Call c("release", txt(h)); auto r = a_->release(h); c.done(ok(r) + " " + txt(h)); return r; }
        enum status replay(const wsrep::ws_handle& h, wsrep::high_priority_service* s) WSREP_OVERRIDE
        { Call c("replay", txt(h), s); auto r = a_->replay(h, s); c.done(txt(r)); return r; }
        enum status enter_toi(wsrep::client_id id, const wsrep::key_array& k, const wsrep::const_buffer& b, wsrep::ws_meta& m, int flags) WSREP_OVERRIDE
        {
            std::string s = "client " + std::to_string(id.get()) + " keys";
            for (auto& x : k) s += " " + txt(x);
            Call c("enter_toi", s + " data " + txt(b) + " flags " + num(flags) + " in " + txt(m));
            auto r = a_->enter_toi(id, k, b, m, flags);
            c.done(txt(r) + " " + txt(m) + " flags " + num(m.flags()));
            return r;
        }
        enum status leave_toi(wsrep::client_id id, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) WSREP_OVERRIDE
        { Call c("leave_toi", "client " + std::to_string(id.get()) + " error " + txt(e), const_cast<wsrep::ws_meta*>(&m)); auto r = a_->leave_toi(id, m, e); c.done(txt(r)); return r; }
        std::pair<wsrep::gtid, enum status> causal_read(int t) const WSREP_OVERRIDE
        { Call c("causal_read", num(t)); auto r = a_->causal_read(t); c.done(txt(r.second) + " " + txt(r.first)); return r; }
        enum status wait_for_gtid(const wsrep::gtid& g, int t) const WSREP_OVERRIDE
        { Call c("wait_for_gtid", txt(g) + " " + num(t)); auto r = a_->wait_for_gtid(g, t); c.done(txt(r)); return r; }
        wsrep::gtid last_committed_gtid() const WSREP_OVERRIDE
        {
            Call c("last_committed", "");
            wsrep::gtid r;
            try { r = a_->last_committed_gtid(); }
            catch (const wsrep::runtime_error&) { c.done("exception"); throw; }
            c.done(txt(r));
            return r;
        }
        enum status sst_sent(const wsrep::gtid& g, int e) WSREP_OVERRIDE { Call c("sst_sent", txt(g) + " " + num(e)); auto r = a_->sst_sent(g, e); c.done(txt(r)); return r; }
        enum status sst_received(const wsrep::gtid& g, int e) WSREP_OVERRIDE { Call c("sst_received", txt(g) + " " + num(e)); auto r = a_->sst_received(g, e); c.done(txt(r)); return r; }
        enum status enc_set_key(const wsrep::const_buffer& k) WSREP_OVERRIDE { Call c("enc_set_key", txt(k)); auto r = a_->enc_set_key(k); c.done(txt(r)); return r; }
        std::vector<status_variable> status() const WSREP_OVERRIDE
        {
            Call c("status", "");
            auto r = a_->status();
            std::string s;
            for (auto& v : r) s += v.name() + "=" + v.value() + ";";
            c.done(s);
            return r;
        }
        void reset_status() WSREP_OVERRIDE { Call c("reset_status", ""); a_->reset_status(); c.done(""); }
        std::string options() const WSREP_OVERRIDE
        {
            Call c("options_get", "");
            std::string r;
            try { r = a_->options(); }
            catch (const wsrep::runtime_error&) { c.done("exception"); throw; }
            c.done(r);
            return r;
        }
        enum status options(const std::string& o) WSREP_OVERRIDE { Call c("options_set", o); auto r = a_->options(o); c.done(txt(r)); return r; }
        enum status set_node_isolation(enum node_isolation m) WSREP_OVERRIDE
        {
            Call c("isolation", num(m == not_isolated ? WSREP_NODE_ISOLATION_NOT_ISOLATED : m == isolated ? WSREP_NODE_ISOLATION_ISOLATED : WSREP_NODE_ISOLATION_FORCE_DISCONNECT));
            auto r = a_->set_node_isolation(m);
            // entry point is one for the process, it is given up when any provider is unloaded
            if (unloads != l_->loaded_at && !c.f().entered) { }
            else if (!l_->exp.isolation) SIM_CHECK("C22", "isolation-support", r == error_not_implemented && !c.f().entered, "provider has no isolation mode but setting it gives " << txt(r));
            else c.done(txt(r));
            return r;
        }
        std::string name() const WSREP_OVERRIDE { return a_->name(); }
        std::string version() const WSREP_OVERRIDE { return a_->version(); }
        std::string vendor() const WSREP_OVERRIDE { return a_->vendor(); }
        void* native() const WSREP_OVERRIDE { return a_->native(); }
    };

    static void check_args(Lib& l, wsrep::server_state& ss, const std::string& options, bool enc)
    {
        const wsrep_init_args& a = l.args;
        const std::string want = ss.name() + "|" + ss.address() + "|" + ss.incoming_address() + "|" + ss.working_dir() + "|" + options + "|"
            + num(ss.max_protocol_version()) + "|" + txt(ss.initial_position());
        SIM_CHECK("C22", "init-arguments", a.app_ctx == &ss && l.a_text == want, "provider is initialized with " << l.a_text << ", the server has " << want);
        SIM_CHECK("C22", "init-callbacks", a.logger_cb && a.connected_cb && a.view_cb && a.sst_request_cb && a.apply_cb && a.sst_donate_cb && a.synced_cb
                  && (a.encrypt_cb != 0) == enc, "provider gets wrong callbacks");
    }

    // ---- calls of the provider into the library --------------------------------------------------
    static Lib* redirect(wsrep::server_state* ss, const char* what)
    {
        auto i = BY_SS.find(ss);
        if (i == BY_SS.end()) return 0;
        auto& s = stack();
        if (!s.empty() && s.back().up && !s.back().entered) return 0;     // arrived
        (void)what;
        return i->second;
    }
    static bool arrived() { auto& s = stack(); return !s.empty() && s.back().up && !s.back().entered; }

    // loading world: the server is not run, what arrives is answered at random
    static bool script(wsrep::server_state* ss) { auto i = BY_SS.find(ss); return i != BY_SS.end() && i->second->scripted; }
    static int script_answer(Got& g, bool ret)
    {
        if (!sim::fault(0.3, "upcall-fails")) { g.result("ok"); return 0; }
        g.result("failed");
        if (ret && sim::chance(0.5, "no-throw")) return 1;
        throw wsrep::runtime_error("simulated");
    }
    struct View
    {
        std::vector<char> mem;
        std::string text;
        wsrep_view_info_t* v() { return reinterpret_cast<wsrep_view_info_t*>(mem.data()); }
    };
    static std::string txt(const wsrep::view& v)
    {
        std::string s = "state " + txt(v.state_id()) + " view " + num(v.view_seqno().get()) + " status " + num(v.status()) + " caps " + num(v.capabilities())
            + " own " + num(v.own_index()) + " proto " + num(v.protocol_version()) + " members";
        for (auto& m : v.members()) s += " " + txt(m.id()) + "(" + m.name() + "," + m.incoming() + ")";
        return s;
    }
    static std::string filler(uint32_t max, const char* tag)
    {
        uint32_t n = sim::chance(0.2, "long") ? max - sim::choose(2, "full") : sim::choose(12, tag);
        std::string s;
        for (uint32_t i = 0; i < n; ++i) s += char('a' + (i * 7 + n) % 26);
        return s;
    }
    // View as a provider gives it: with the own index it knows, names with or without room for a terminator
    static void make_native(const wsrep::view& v, View& n, bool by_id)
    {
        n.mem.assign(sizeof(wsrep_view_info_t) + sizeof(wsrep_member_info_t) * v.members().size(), char(sim::choose(2, "fill") ? 0x41 : 0));
        wsrep_view_info_t& x = *n.v();
        x.state_id = gtid_out(v.state_id());
        x.view = v.view_seqno().get();
        x.status = v.status() == wsrep::view::primary ? WSREP_VIEW_PRIMARY : v.status() == wsrep::view::non_primary ? WSREP_VIEW_NON_PRIMARY : WSREP_VIEW_DISCONNECTED;
        x.capabilities = sim::chance(0.5, "caps") ? sim::choose(1 << 18, "cap") : 0;
        // once a server has its identity only that says which member it is
        x.my_idx = by_id && sim::chance(0.5, "other-index") ? int(sim::choose(6, "index")) - 1 : int(v.own_index());
        x.memb_num = int(v.members().size());
        x.proto_ver = v.protocol_version();
        std::vector<wsrep::view::member> ms;
        const bool rich = sim::chance(0.3, "rich-view");
        for (int i = 0; i < x.memb_num; ++i)
        {
            const wsrep::view::member& m = v.members()[size_t(i)];
            std::string nm = rich ? filler(WSREP_MEMBER_NAME_LEN, "name") : m.name(), inc = rich ? filler(WSREP_INCOMING_LEN, "incoming") : m.incoming();
            memcpy(x.members[i].id.data, m.id().data(), 16);
            memset(x.members[i].name, 0, sizeof x.members[i].name);
            memset(x.members[i].incoming, 0, sizeof x.members[i].incoming);
            memcpy(x.members[i].name, nm.data(), nm.size());
            memcpy(x.members[i].incoming, inc.data(), inc.size());
            if (rich && nm.size() + 2 < sizeof x.members[i].name) x.members[i].name[nm.size() + 1] = 'Z';       // garbage behind the terminator
            ms.push_back(wsrep::view::member(m.id(), nm, inc));
        }
        n.text = txt(wsrep::view(v.state_id(), v.view_seqno(), v.status(), int(x.capabilities), v.own_index(), v.protocol_version(), ms));
    }
}

namespace ad { static void make_exit(wsrep::high_priority_service&); }
#define S_APPLY _ZN5wsrep12server_state8on_applyERNS_21high_priority_serviceERKNS_9ws_handleERKNS_7ws_metaERKNS_12const_bufferE
#define S_VIEW _ZN5wsrep12server_state7on_viewERKNS_4viewEPNS_21high_priority_serviceE
#define S_CONNECT _ZN5wsrep12server_state10on_connectERKNS_4viewE
#define S_SYNC _ZN5wsrep12server_state7on_syncEv
#define S_PREPARE _ZN5wsrep12server_state15prepare_for_sstB5cxx11Ev
#define S_DONATE _ZN5wsrep12server_state9start_sstERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_4gtidEb
#define CAT2(a, b) a ## b
#define CAT(a, b) CAT2(a, b)
#define REAL(s) CAT(__real_, s)
#define WRAPPED(s) CAT(__wrap_, s)
extern "C"
{
    int REAL(S_APPLY)(wsrep::server_state*, wsrep::high_priority_service&, const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::const_buffer&);
    void REAL(S_VIEW)(wsrep::server_state*, const wsrep::view&, wsrep::high_priority_service*);
    void REAL(S_CONNECT)(wsrep::server_state*, const wsrep::view&);
    void REAL(S_SYNC)(wsrep::server_state*);
    std::string REAL(S_PREPARE)(wsrep::server_state*);
    int REAL(S_DONATE)(wsrep::server_state*, const std::string&, const wsrep::gtid&, bool);

    int WRAPPED(S_APPLY)(wsrep::server_state* ss, wsrep::high_priority_service& hps, const wsrep::ws_handle& h, const wsrep::ws_meta& m, const wsrep::const_buffer& d)
    {
        using namespace ad;
        const std::string args = txt(h) + " " + txt(m) + " flags " + num(m.flags()) + " data " + txt(d);
        if (arrived())
        {
            Got g("apply", args, true);
            SIM_CHECK("C22", "argument-changed", g.f().aux == &hps, "write set is applied by another applier");
            if (script(ss))
            {
                if (sim::chance(0.3, "exit")) make_exit(hps);      // applying it ends the applier
                return script_answer(g, true);
            }
            try { int r = REAL(S_APPLY)(ss, hps, h, m, d); g.result(ok(r)); return r; }
            catch (const wsrep::runtime_error&) { g.result("failed"); throw; }
        }
        Lib* l = redirect(ss, "apply");
        if (!l) return REAL(S_APPLY)(ss, hps, h, m, d);
        wsrep_ws_handle_t nh = { h.transaction_id().get(), h.opaque() };
        wsrep_trx_meta_t nm;
        meta_out(m, &nm);
        wsrep_buf_t nb = { d.data(), d.size() };
        wsrep_bool_t exit_loop = false;
        Call c("apply", args, &hps, 0, true);
        wsrep_cb_status_t r = l->args.apply_cb(&hps, &nh, flags_out(m.flags()), &nb, &nm, &exit_loop);
        c.done(r == WSREP_CB_SUCCESS ? "ok" : "failed");
        SIM_CHECK("C22", "exit-loop", r != WSREP_CB_SUCCESS || exit_loop == hps.must_exit(), "applier " << (hps.must_exit() ? "must" : "need not") << " exit but provider is told otherwise");
        return r == WSREP_CB_SUCCESS ? 0 : 1;
    }
    void WRAPPED(S_VIEW)(wsrep::server_state* ss, const wsrep::view& v, wsrep::high_priority_service* hps)
    {
        using namespace ad;
        if (arrived())
        {
            Got g("view", txt(v), true);
            SIM_CHECK("C22", "argument-changed", g.f().aux == hps, "view is delivered to another applier");
            if (script(ss)) { script_answer(g, false); return; }
            try { REAL(S_VIEW)(ss, v, hps); g.result("ok"); return; }
            catch (const wsrep::runtime_error&) { g.result("failed"); throw; }
        }
        Lib* l = redirect(ss, "view");
        if (!l) return REAL(S_VIEW)(ss, v, hps);
        View n;
        make_native(v, n, !ss->id().is_undefined());
        Call c("view", n.text, hps, 0, true);
        wsrep_cb_status_t r = l->args.view_cb(l->args.app_ctx, hps, n.v(), 0, 0);
        c.done(r == WSREP_CB_SUCCESS ? "ok" : "failed");
        if (r != WSREP_CB_SUCCESS) throw wsrep::runtime_error("view callback failed");
    }
    void WRAPPED(S_CONNECT)(wsrep::server_state* ss, const wsrep::view& v)
    {
        using namespace ad;
        if (arrived())
        {
            Got g("connected", txt(v), true);
            if (script(ss))
            {
                // the first one is real so that the server has an identity
                bool& real = BY_SS[ss]->seeded_up;
                if (!real && sim::chance(0.7, "get-id")) real = true;
                else { script_answer(g, false); return; }
            }
            try { REAL(S_CONNECT)(ss, v); g.result("ok"); return; }
            catch (const wsrep::runtime_error&) { g.result("failed"); throw; }
        }
        Lib* l = redirect(ss, "connected");
        if (!l) return REAL(S_CONNECT)(ss, v);
        View n;
        make_native(v, n, !ss->id().is_undefined());
        Call c("connected", n.text, 0, 0, true);
        wsrep_cb_status_t r = l->args.connected_cb(l->args.app_ctx, n.v());
        c.done(r == WSREP_CB_SUCCESS ? "ok" : "failed");
        if (r != WSREP_CB_SUCCESS) throw wsrep::runtime_error("connected callback failed");
    }
    void WRAPPED(S_SYNC)(wsrep::server_state* ss)
    {
        using namespace ad;
        if (arrived())
        {
            Got g("synced", "", true);
            if (script(ss)) { script_answer(g, false); return; }
            try { REAL(S_SYNC)(ss); g.result("ok"); return; }
            catch (const wsrep::runtime_error&) { g.result("failed"); throw; }
        }
        Lib* l = redirect(ss, "synced");
        if (!l) return REAL(S_SYNC)(ss);
        Call c("synced", "", 0, 0, true);
        wsrep_cb_status_t r = l->args.synced_cb(l->args.app_ctx);
        c.done(r == WSREP_CB_SUCCESS ? "ok" : "failed");
        if (r != WSREP_CB_SUCCESS) throw wsrep::runtime_error("synced callback failed");
    }
    std::string WRAPPED(S_PREPARE)(wsrep::server_state* ss)
    {
        using namespace ad;
        if (arrived())
        {
            Got g("sst_request", "", true);
            if (script(ss))
            {
                if (sim::fault(0.3, "upcall-fails")) { g.result("failed"); throw wsrep::runtime_error("simulated"); }
                std::string r = sim::chance(0.3, "no-request") ? "" : filler(300, "request");
                g.result(r.empty() ? "no request" : "ok " + r);
                return r;
            }
            try { std::string r = REAL(S_PREPARE)(ss); g.result(r.empty() ? "no request" : "ok " + r); return r; }
            catch (const wsrep::runtime_error&) { g.result("failed"); throw; }
        }
        Lib* l = redirect(ss, "sst_request");
        if (!l) return REAL(S_PREPARE)(ss);
        Call c("sst_request", "", 0, 0, true);
        void* req = reinterpret_cast<void*>(1);
        size_t len = 77;
        wsrep_cb_status_t r = l->args.sst_request_cb(l->args.app_ctx, &req, &len);
        std::string s;
        if (r == WSREP_CB_SUCCESS && req && len)
        {
            // a string with its terminator
            s.assign(static_cast<const char*>(req), len);
            if (s.back() == 0) s.pop_back();
            free(req);
        }
        c.done(r != WSREP_CB_SUCCESS ? "failed" : !len ? "no request" : !req ? "length without request" : "ok " + s);
        if (r != WSREP_CB_SUCCESS) throw wsrep::runtime_error("SST request callback failed");
        return s;
    }
    int WRAPPED(S_DONATE)(wsrep::server_state* ss, const std::string& req, const wsrep::gtid& gt, bool bypass)
    {
        using namespace ad;
        if (arrived())
        {
            std::string q = req;
            if (!q.empty() && q.back() == 0) q.pop_back();
            Got g("donate", q + " " + txt(gt) + " " + num(bypass), true);
            if (script(ss)) return script_answer(g, true);
            try { int r = REAL(S_DONATE)(ss, req, gt, bypass); g.result(ok(r)); return r; }
            catch (const wsrep::runtime_error&) { g.result("failed"); throw; }
        }
        Lib* l = redirect(ss, "donate");
        if (!l) return REAL(S_DONATE)(ss, req, gt, bypass);
        Call c("donate", req + " " + txt(gt) + " " + num(bypass), 0, 0, true);
        wsrep_buf_t b = { req.c_str(), req.size() + 1 };
        wsrep_gtid_t ng = gtid_out(gt);
        wsrep_cb_status_t r = l->args.sst_donate_cb(l->args.app_ctx, 0, &b, &ng, 0, bypass);
        c.done(r == WSREP_CB_SUCCESS ? "ok" : "failed");
        return r == WSREP_CB_SUCCESS ? 0 : 1;
    }
}

namespace ad
{
    static wsrep::provider* wrap(wsrep::server_state& ss, w::Node& n, w::SimProvider* s)
    {
        NEXT_NODE = &n; NEXT_PROV = s; NEXT_SCRIPTED = false; no_names = false;
        const std::string opts = "opt" + num(sim::choose(100, "opts"));
        wsrep::provider* a = new wsrep::wsrep_provider_v26(ss, opts, "sim", wsrep::provider::services());
        Lib* l = LIBS.back();
        check_args(*l, ss, opts, false);
        BY_SS[&ss] = l;
        return new Outer(ss, s, a, l);
    }
    static void cluster(const std::string& prop)
    {
        EXP = Exports();
        EXP.certify = sim::chance(0.7, "certify-v1");
        EXP.isolation = sim::chance(0.5, "isolation");
        w::wrap_provider = wrap;
        w::cluster_scenario(prop);
    }
}

namespace ad
{
    // ---- application side of services -----------------------------------------------------
    // Every method compares what arrives and answers at random.
    static std::string ptr(const void* p) { return std::to_string(uintptr_t(p)); }
    template <class T> static T* fake(const char* tag) { return reinterpret_cast<T*>(uintptr_t(sim::choose(5, tag)) * 4096); }
    static int answer(const char* what, const std::string& args)
    { Got g(what, args, true); static const int v[] = { 0, 1, EBUSY, ETIMEDOUT, -1 }; int r = v[sim::choose(5, "answer")]; g.result(num(r)); return r; }
    template <class T> static T* answer_ptr(const char* what, const std::string& args)
    { Got g(what, args, true); T* r = fake<T>("answer-ptr"); g.result(ptr(r)); return r; }
    struct ExitCalled { };
    
    struct Thr : wsrep::thread_service
    {
        int who;
        explicit Thr(int w) : who(w) { exit = w == 0 ? exit_cb<0> : exit_cb<1>; }
        std::string me() const { return num(who) + " "; }
        template <int N> [[noreturn]] static void exit_cb(thread* t, void* r) { Got g("thread.exit", num(N) + " " + ptr(t) + " " + ptr(r), true); g.result(""); throw ExitCalled(); }
        int before_init() WSREP_OVERRIDE { SIM_CHECK("C22", "thread-init-order", thread_stage == 0, "before_init() is called at stage " << thread_stage); thread_stage = 1; return before_fails = sim::fault(0.1, "before-thread-init-fails"); }
        int after_init() WSREP_OVERRIDE { SIM_CHECK("C22", "thread-init-order", thread_stage == 2, "after_init() is called at stage " << thread_stage); thread_stage = 3; return after_fails = sim::fault(0.1, "after-thread-init-fails"); }
        const thread_key* create_thread_key(const char* n) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<thread_key>("thread.key", me() + n); }
        int create_thread(const thread_key* k, thread** t, void* (*fn)(void*), void* a) WSREP_NOEXCEPT WSREP_OVERRIDE
        { return answer("thread.create", me() + ptr(k) + " " + ptr(t) + " " + ptr((void*)fn) + " " + ptr(a)); }
        int detach(thread* t) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("thread.detach", me() + ptr(t)); }
        int equal(thread* a, thread* b) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("thread.equal", me() + ptr(a) + " " + ptr(b)); }
        int join(thread* t, void** r) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("thread.join", me() + ptr(t) + " " + ptr(r)); }
        thread* self() WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<thread>("thread.self", me()); }
        int setschedparam(thread* t, int p, const struct sched_param* s) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("thread.setsched", me() + ptr(t) + " " + num(p) + " " + ptr(s)); }
        int getschedparam(thread* t, int* p, struct sched_param* s) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("thread.getsched", me() + ptr(t) + " " + ptr(p) + " " + ptr(s)); }
        const mutex_key* create_mutex_key(const char* n) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<mutex_key>("mutex.key", me() + n); }
        mutex* init_mutex(const mutex_key* k, void* b, size_t n) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<mutex>("mutex.init", me() + ptr(k) + " " + ptr(b) + " " + num((long long)n)); }
        int destroy(mutex* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("mutex.destroy", me() + ptr(m)); }
        int lock(mutex* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("mutex.lock", me() + ptr(m)); }
        int trylock(mutex* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("mutex.trylock", me() + ptr(m)); }
        int unlock(mutex* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("mutex.unlock", me() + ptr(m)); }
        const cond_key* create_cond_key(const char* n) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<cond_key>("cond.key", me() + n); }
        cond* init_cond(const cond_key* k, void* b, size_t n) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<cond>("cond.init", me() + ptr(k) + " " + ptr(b) + " " + num((long long)n)); }
        int destroy(cond* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("cond.destroy", me() + ptr(m)); }
        int wait(cond* c, mutex* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("cond.wait", me() + ptr(c) + " " + ptr(m)); }
        int timedwait(cond* c, mutex* m, const struct timespec* t) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("cond.timedwait", me() + ptr(c) + " " + ptr(m) + " " + ptr(t)); }
        int signal(cond* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("cond.signal", me() + ptr(m)); }
        int broadcast(cond* m) WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("cond.broadcast", me() + ptr(m)); }
    };
    struct Tls : wsrep::tls_service
    {
        int who;
        explicit Tls(int w) : who(w) { }
        std::string me() const { return num(who) + " "; }
        // the value the provider is to get for a result of the application
        static status st(const char* what, const std::string& args)
        {
            Got g(what, args, true);
            const int s = int(sim::choose(5, "tls"));
            g.result(num(s));
            return static_cast<status>(s);
        }
        wsrep::tls_stream* create_tls_stream(int fd) WSREP_NOEXCEPT WSREP_OVERRIDE
        { Got g("tls.init", me() + num(fd), true); auto r = fake<wsrep::tls_stream>("stream"); g.result(r ? "0 " + ptr(r) : num(ENOMEM)); return r; }
        void destroy(wsrep::tls_stream* s) WSREP_NOEXCEPT WSREP_OVERRIDE { Got g("tls.deinit", me() + ptr(s), true); g.result(""); }
        int get_error_number(const wsrep::tls_stream* s) const WSREP_NOEXCEPT WSREP_OVERRIDE { return answer("tls.errno", me() + ptr(s)); }
        const void* get_error_category(const wsrep::tls_stream* s) const WSREP_NOEXCEPT WSREP_OVERRIDE { return answer_ptr<void>("tls.category", me() + ptr(s)); }
        const char* get_error_message(const wsrep::tls_stream* s, int v, const void* c) const WSREP_NOEXCEPT WSREP_OVERRIDE
        { return answer_ptr<char>("tls.message", me() + ptr(s) + " " + num(v) + " " + ptr(c)); }
        status client_handshake(wsrep::tls_stream* s) WSREP_NOEXCEPT WSREP_OVERRIDE { return st("tls.client", me() + ptr(s)); }
        status server_handshake(wsrep::tls_stream* s) WSREP_NOEXCEPT WSREP_OVERRIDE { return st("tls.server", me() + ptr(s)); }
        op_result io(const char* what, const std::string& args)
        {
            Got g(what, args, true);
            op_result r = { ssize_t(sim::choose(5, "tls")), sim::choose(1000, "moved") };
            g.result(num(r.status) + " " + num((long long)r.bytes_transferred));
            return r;
        }
        op_result read(wsrep::tls_stream* s, void* b, size_t n) WSREP_NOEXCEPT WSREP_OVERRIDE { return io("tls.read", me() + ptr(s) + " " + ptr(b) + " " + num((long long)n)); }
        op_result write(wsrep::tls_stream* s, const void* b, size_t n) WSREP_NOEXCEPT WSREP_OVERRIDE { return io("tls.write", me() + ptr(s) + " " + ptr(b) + " " + num((long long)n)); }
        status shutdown(wsrep::tls_stream* s) WSREP_NOEXCEPT WSREP_OVERRIDE { return st("tls.shutdown", me() + ptr(s)); }
    };
    struct Allow : wsrep::allowlist_service
    {
        int who;
        explicit Allow(int w) : who(w) { }
        bool allowlist_cb(allowlist_key k, const wsrep::const_buffer& v) WSREP_NOEXCEPT WSREP_OVERRIDE
        {
            Got g("allow", num(who) + (k == allowlist_ip ? " ip " : " ssl ") + txt(v), true);
            const bool r = sim::chance(0.5, "allowed");
            g.result(r ? "yes" : "no");
            return r;
        }
    };
    struct Event : wsrep::event_service
    {
        int who;
        explicit Event(int w) : who(w) { }
        void process_event(const std::string& n, const std::string& v) WSREP_OVERRIDE { Got g("event", num(who) + " " + n + " " + v, true); g.result(""); }
    };
    struct Conn : wsrep::connection_monitor_service
    {
        int who;
        explicit Conn(int w) : who(w) { }
        bool connection_monitor_connect_cb(wsrep_connection_key_t id, const wsrep::const_buffer& s, const wsrep::const_buffer& l, const wsrep::const_buffer& r) WSREP_NOEXCEPT WSREP_OVERRIDE
        { Got g("conn.connect", num(who) + " " + ptr(id) + " " + txt(s) + " local " + txt(l) + " remote " + txt(r), true); g.result(""); return true; }
        bool connection_monitor_disconnect_cb(wsrep_connection_key_t id) WSREP_NOEXCEPT WSREP_OVERRIDE
        { Got g("conn.disconnect", num(who) + " " + ptr(id), true); g.result(""); return true; }
        bool connection_monitor_ssl_info_cb(wsrep_connection_key_t id, const wsrep::const_buffer& c, const wsrep::const_buffer& s, const wsrep::const_buffer& i, const wsrep::const_buffer& v) WSREP_NOEXCEPT WSREP_OVERRIDE
        { Got g("conn.ssl", num(who) + " " + ptr(id) + " " + txt(c) + " " + txt(s) + " " + txt(i) + " " + txt(v), true); g.result(""); return true; }
    };
    struct Enc : wsrep::encryption_service
    {
        bool on = false;
        int do_crypt(void** ctx, wsrep::const_buffer& key, const char (*iv)[32], wsrep::const_buffer& in, void* out, bool encrypt, bool last) WSREP_OVERRIDE
        {
            Got g("crypt", ptr(ctx) + " " + txt(key) + " " + bytes(*iv, 32) + " " + txt(in) + " " + ptr(out) + (encrypt ? " encrypt" : " decrypt") + (last ? " last" : ""), true);
            if (!*ctx) *ctx = malloc(8);
            if (sim::fault(0.2, "crypt-throws")) { g.result("failed"); throw wsrep::runtime_error("simulated"); }
            static const int v[] = { 0, 1, 16, 4096, -5 };
            const int r = v[sim::choose(5, "crypt")];
            g.result(r < 0 ? "failed" : num(r));
            return r;
        }
        bool encryption_enabled() WSREP_OVERRIDE { return on; }
    };

    static int USER[NSVC];            // which object of the application a service uses now
    struct Buf { std::string s; wsrep_buf_t b; Buf(const char* tag) { uint32_t n = sim::choose(4, tag) * 3; for (uint32_t i = 0; i < n; ++i) s += char(sim::choose(256, "byte")); b.ptr = s.data(); b.len = s.size(); } };
    static void touch_thread()
    {
        const std::string me = num(USER[THREAD]) + " ";
        wsrep_thread_service_v1_t& s = *T_THREAD;
        auto* t = fake<wsrep_thread_t>("thread"); auto* t2 = fake<wsrep_thread_t>("thread2"); auto* m = fake<wsrep_mutex_t>("mutex"); auto* c = fake<wsrep_cond_t>("cond");
        void* p = fake<void>("arg"); void** pp = fake<void*>("out");
        auto* sp = fake<struct sched_param>("sp"); auto* ts = fake<struct timespec>("ts");
        auto fn = reinterpret_cast<void* (*)(void*)>(uintptr_t(sim::choose(3, "fn")) * 4096);
        const int n = int(sim::choose(100, "n"));
#define TP(what, args, e) { Call k(what, me + args, 0, 0, true); auto r = e; k.done(ptr(r)); }
#define TI(what, args, e) { Call k(what, me + args, 0, 0, true); auto r = e; k.done(num(r)); }
        switch (sim::choose(22, "thread-call"))
        {
        case 0: { auto* key = fake<const wsrep_thread_key_t>("key"); TI("thread.create", ptr(key) + " " + ptr(pp) + " " + ptr((void*)fn) + " " + ptr(p), s.thread_create_cb(key, (wsrep_thread_t**)pp, fn, p)) break; }
        case 1: TP("thread.key", std::string("k") + num(n), s.thread_key_create_cb((std::string("k") + num(n)).c_str())) break;
        case 2: TI("thread.detach", ptr(t), s.thread_detach_cb(t)) break;
        case 3: TI("thread.equal", ptr(t) + " " + ptr(t2), s.thread_equal_cb(t, t2)) break;
        case 4:
        {
            Call k("thread.exit", me + ptr(t) + " " + ptr(p), 0, 0, true);
            try { s.thread_exit_cb(t, p); }
            catch (const ExitCalled&) { }
            k.done("");
            break;
        }
        case 5: TI("thread.join", ptr(t) + " " + ptr(pp), s.thread_join_cb(t, pp)) break;
        case 6: TP("thread.self", "", s.thread_self_cb()) break;
        case 7: TI("thread.setsched", ptr(t) + " " + num(n) + " " + ptr(sp), s.thread_setschedparam_cb(t, n, sp)) break;
        case 8: TI("thread.getsched", ptr(t) + " " + ptr(p) + " " + ptr(sp), s.thread_getschedparam_cb(t, (int*)p, sp)) break;
        case 9: TP("mutex.key", std::string("m") + num(n), s.mutex_key_create_cb((std::string("m") + num(n)).c_str())) break;
        case 10: { auto* key = fake<const wsrep_mutex_key_t>("key"); TP("mutex.init", ptr(key) + " " + ptr(p) + " " + num(n), s.mutex_init_cb(key, p, size_t(n))) break; }
        case 11: TI("mutex.destroy", ptr(m), s.mutex_destroy_cb(m)) break;
        case 12: TI("mutex.lock", ptr(m), s.mutex_lock_cb(m)) break;
        case 13: TI("mutex.trylock", ptr(m), s.mutex_trylock_cb(m)) break;
        case 14: TI("mutex.unlock", ptr(m), s.mutex_unlock_cb(m)) break;
        case 15: TP("cond.key", std::string("c") + num(n), s.cond_key_create_cb((std::string("c") + num(n)).c_str())) break;
        case 16: { auto* key = fake<const wsrep_cond_key_t>("key"); TP("cond.init", ptr(key) + " " + ptr(p) + " " + num(n), s.cond_init_cb(key, p, size_t(n))) break; }
        case 17: TI("cond.destroy", ptr(c), s.cond_destroy_cb(c)) break;
        case 18: TI("cond.wait", ptr(c) + " " + ptr(m), s.cond_wait_cb(c, m)) break;
        case 19: TI("cond.timedwait", ptr(c) + " " + ptr(m) + " " + ptr(ts), s.cond_timedwait_cb(c, m, ts)) break;
        case 20: TI("cond.signal", ptr(c), s.cond_signal_cb(c)) break;
        default: TI("cond.broadcast", ptr(c), s.cond_broadcast_cb(c)) break;
        }
    }
    static void touch_tls()
    {
        static const enum wsrep_tls_result res[] = { wsrep_tls_result_success, wsrep_tls_result_want_read, wsrep_tls_result_want_write, wsrep_tls_result_eof, wsrep_tls_result_error };
        // position of a native result in the list of the library's results
        auto pos = [](enum wsrep_tls_result r) { for (int i = 0; i < 5; ++i) if (res[i] == r) return i; return -1; };
        const std::string me = num(USER[TLS]) + " ";
        wsrep_tls_service_v1_t& s = *T_TLS;
        wsrep_tls_stream_t st;
        st.fd = int(sim::choose(9, "fd"));
        st.opaque = fake<void>("stream");
        void* b = fake<void>("buffer");
        const size_t n = sim::choose(5000, "n");
        size_t moved = 77;
        const std::string io = me + ptr(st.opaque) + " " + ptr(b) + " " + num((long long)n);
        switch (sim::choose(10, "tls-call"))
        {
        case 0:
        {
            Call k("tls.init", me + num(st.fd), 0, 0, true);
            int r = s.stream_init(s.context, &st);
            k.done(num(r) + (r ? "" : " " + ptr(st.opaque)));
            break;
        }
        case 1: { Call k("tls.deinit", me + ptr(st.opaque), 0, 0, true); s.stream_deinit(s.context, &st); k.done(""); break; }
        case 2: TI("tls.errno", ptr(st.opaque), s.stream_get_error_number(s.context, &st)) break;
        case 3: TP("tls.category", ptr(st.opaque), s.stream_get_error_category(s.context, &st)) break;
        case 4: TI("tls.client", ptr(st.opaque), pos(s.stream_client_handshake(s.context, &st))) break;
        case 5: TI("tls.server", ptr(st.opaque), pos(s.stream_server_handshake(s.context, &st))) break;
        case 6: { Call k("tls.read", io, 0, 0, true); int r = pos(s.stream_read(s.context, &st, b, n, &moved)); k.done(num(r) + " " + num((long long)moved)); break; }
        case 7: { Call k("tls.write", io, 0, 0, true); int r = pos(s.stream_write(s.context, &st, b, n, &moved)); k.done(num(r) + " " + num((long long)moved)); break; }
        case 8: TI("tls.shutdown", ptr(st.opaque), pos(s.stream_shutdown(s.context, &st))) break;
        default: TP("tls.message", ptr(st.opaque) + " " + num((long long)n) + " " + ptr(b), s.error_message_get(s.context, &st, int(n), b)) break;
        }
    }
    static int log_seen; static int log_level; static std::string log_text; static std::string log_want;
    static void log_fn(wsrep::log::level l, const char*, const char* m)
    { if (!log_want.empty() && std::string(m) == log_want) { ++log_seen; log_level = l; } }
    static void touch_log(wsrep_log_cb_t cb)
    {
        static const wsrep_log_level_t in[] = { WSREP_LOG_FATAL, WSREP_LOG_ERROR, WSREP_LOG_WARN, WSREP_LOG_INFO, WSREP_LOG_DEBUG };
        static const int out[] = { wsrep::log::error, wsrep::log::error, wsrep::log::warning, wsrep::log::info, wsrep::log::debug };
        const uint32_t i = sim::choose(5, "log");
        log_seen = 0; log_want = "message " + num(sim::choose(1000, "m"));
        cb(in[i], log_want.c_str());
        SIM_CHECK("C22", "log", log_seen == 1 && log_level == out[i], "message logged by the provider at level " << in[i] << " is passed on " << log_seen << " times, level " << log_level);
        log_want.clear();
    }
    // the provider uses what it was given
    static void touch_services(Lib& l)
    {
        const int n = int(sim::choose(4, "touches"));
        for (int i = 0; i < n; ++i)
        {
            const int k = int(sim::choose(NSVC, "service"));
            if (!l.svc_on[k]) continue;
            const std::string me = num(USER[k]) + " ";
            switch (k)
            {
            case THREAD: touch_thread(); break;
            case TLS: touch_tls(); break;
            case ALLOW:
            {
                Buf v("value");
                const bool ip = sim::chance(0.5, "ip");
                Call c("allow", me + (ip ? "ip " : "ssl ") + txt(v.b), 0, 0, true);
                wsrep_status_t r = T_ALLOW->allowlist_cb(T_ALLOW->context, ip ? WSREP_ALLOWLIST_KEY_IP : WSREP_ALLOWLIST_KEY_SSL, &v.b);
                c.done(r == WSREP_OK ? "yes" : r == WSREP_NOT_ALLOWED ? "no" : "odd");
                break;
            }
            case EVENT:
            {
                const std::string v = "v" + num(sim::choose(100, "v"));
                Call c("event", me + "name " + v, 0, 0, true);
                l.event.event_cb(l.event.context, "name", v.c_str());
                c.done("");
                break;
            }
            default:
            {
                void* id = fake<void>("connection");
                Buf a("a"), b("b"), d("d"), e("e");
                switch (sim::choose(3, "conn-call"))
                {
                case 0:
                {
                    Call c("conn.connect", me + ptr(id) + " " + txt(a.b) + " local " + txt(b.b) + " remote " + txt(d.b), 0, 0, true);
                    T_CONN->connection_monitor_connect_cb(T_CONN->context, id, &a.b, &b.b, &d.b);
                    c.done("");
                    break;
                }
                case 1: { Call c("conn.disconnect", me + ptr(id), 0, 0, true); T_CONN->connection_monitor_disconnect_cb(T_CONN->context, id); c.done(""); break; }
                default:
                    Call c("conn.ssl", me + ptr(id) + " " + txt(a.b) + " " + txt(b.b) + " " + txt(d.b) + " " + txt(e.b), 0, 0, true);
                    T_CONN->connection_monitor_ssl_info_cb(T_CONN->context, id, &a.b, &b.b, &d.b, &e.b);
                    c.done("");
                }
            }
            }
        }
    }

    // ---- provider which answers at random -----------------------------------------------------
    static enum P::status any_status() { return static_cast<enum P::status>(sim::choose(12, "status")); }
    static wsrep::id any_id()
    { char b[16]; for (auto& c : b) c = char(sim::choose(4, "id")); if (sim::chance(0.3, "undef")) memset(b, 0, 16); return wsrep::id(b, 16); }
    static long long any_num()
    { static const long long v[] = { -1, 0, 1, 77, 1LL << 31, (1LL << 40) + 5, 0x7fffffffffffffffLL }; return v[sim::choose(7, "number")]; }
    static wsrep::gtid any_gtid() { return wsrep::gtid(any_id(), wsrep::seqno(any_num())); }
    static int any_flags() { int r = 0; for (auto& f : flag_map) if (sim::chance(0.4, "flag")) r |= f.lib; return r; }
    static wsrep::ws_meta any_meta(int flags)
    { return wsrep::ws_meta(any_gtid(), wsrep::stid(any_id(), wsrep::transaction_id(uint64_t(any_num())), wsrep::client_id(uint64_t(any_num()))), wsrep::seqno(any_num()), flags); }
    static wsrep::ws_handle any_handle() { return wsrep::ws_handle(wsrep::transaction_id(uint64_t(any_num())), fake<void>("opaque")); }
    static void other_handle(wsrep::ws_handle& h) { if (sim::chance(0.5, "keep-handle")) h = any_handle(); }
    static void other_meta(wsrep::ws_meta& m) { if (sim::chance(0.7, "keep-meta")) m = any_meta(m.flags()); }
    struct RandProvider : wsrep::provider
    {
        explicit RandProvider(wsrep::server_state& ss) : wsrep::provider(ss) { }
        static int fails() { return sim::fault(0.3, "provider-call-fails"); }
        enum status connect(const std::string&, const std::string&, const std::string&, bool) WSREP_OVERRIDE { return any_status(); }
        int disconnect() WSREP_OVERRIDE { return fails(); }
        int capabilities() const WSREP_OVERRIDE { return int(sim::choose(1 << 18, "caps")); }
        int desync() WSREP_OVERRIDE { return fails(); }
        int resync() WSREP_OVERRIDE { return fails(); }
        wsrep::seqno pause() WSREP_OVERRIDE { return wsrep::seqno(any_num()); }
        int resume() WSREP_OVERRIDE { return fails(); }
        enum status run_applier(wsrep::high_priority_service*) WSREP_OVERRIDE { return any_status(); }
        int start_transaction(wsrep::ws_handle&) WSREP_OVERRIDE { return 0; }
        enum status assign_read_view(wsrep::ws_handle& h, const wsrep::gtid*) WSREP_OVERRIDE { other_handle(h); return any_status(); }
        int append_key(wsrep::ws_handle& h, const wsrep::key&) WSREP_OVERRIDE { other_handle(h); return fails(); }
        enum status append_data(wsrep::ws_handle& h, const wsrep::const_buffer&) WSREP_OVERRIDE { other_handle(h); return any_status(); }
        enum status certify(wsrep::client_id, wsrep::ws_handle& h, int, wsrep::ws_meta& m, const seq_cb_t*) WSREP_OVERRIDE { other_handle(h); other_meta(m); return any_status(); }
        enum status bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno& s) WSREP_OVERRIDE { s = wsrep::seqno(any_num()); return any_status(); }
        enum status rollback(wsrep::transaction_id) WSREP_OVERRIDE { return any_status(); }
        enum status commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) WSREP_OVERRIDE { return any_status(); }
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) WSREP_OVERRIDE { return fails(); }
        int release(wsrep::ws_handle&) WSREP_OVERRIDE { return fails(); }
        enum status replay(const wsrep::ws_handle&, wsrep::high_priority_service*) WSREP_OVERRIDE { return any_status(); }
        enum status enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta& m, int) WSREP_OVERRIDE { other_meta(m); return any_status(); }
        enum status leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) WSREP_OVERRIDE { return any_status(); }
        std::pair<wsrep::gtid, enum status> causal_read(int) const WSREP_OVERRIDE { auto g = any_gtid(); return std::make_pair(g, any_status()); }
        enum status wait_for_gtid(const wsrep::gtid&, int) const WSREP_OVERRIDE { return any_status(); }
        wsrep::gtid last_committed_gtid() const WSREP_OVERRIDE { return any_gtid(); }
        enum status sst_sent(const wsrep::gtid&, int) WSREP_OVERRIDE { return any_status(); }
        enum status sst_received(const wsrep::gtid&, int) WSREP_OVERRIDE { return any_status(); }
        enum status enc_set_key(const wsrep::const_buffer&) WSREP_OVERRIDE { return success; }
        std::vector<status_variable> status() const WSREP_OVERRIDE { return std::vector<status_variable>(); }
        void reset_status() WSREP_OVERRIDE { }
        std::string options() const WSREP_OVERRIDE { return ""; }
        enum status options(const std::string&) WSREP_OVERRIDE { return success; }
        enum status set_node_isolation(enum node_isolation) WSREP_OVERRIDE { return success; }
        std::string name() const WSREP_OVERRIDE { return ""; }
        std::string version() const WSREP_OVERRIDE { return ""; }
        std::string vendor() const WSREP_OVERRIDE { return ""; }
        void* native() const WSREP_OVERRIDE { return 0; }
    };
    static std::string any_bytes(const char* tag)
    { std::string s; uint32_t n = sim::choose(4, tag) * 7; for (uint32_t i = 0; i < n; ++i) s += char(sim::choose(256, "byte")); return s; }
    static wsrep::key any_key()
    {
        static std::vector<std::string> keep;
        static const enum wsrep::key::type t[] = { wsrep::key::shared, wsrep::key::reference, wsrep::key::update, wsrep::key::exclusive };
        wsrep::key k(t[sim::choose(4, "key-type")]);
        const int n = int(sim::choose(4, "parts"));
        static char store[64][32]; static int at;
        for (int i = 0; i < n; ++i)
        {
            std::string p = any_bytes("part");
            at = (at + 1) % 64;
            memcpy(store[at], p.data(), p.size());
            k.append_key_part(store[at], p.size());
        }
        return k;
    }
    static uint64_t unum() { return uint64_t(any_num()); }
    // one call of the library's side
    static void any_call(Outer& o, w::ClientSvc& cs)
    {
        wsrep::ws_handle h = any_handle();
        const wsrep::client_id id(unum());
        const int flags = any_flags();
        wsrep::ws_meta m = any_meta(any_flags());
        wsrep::mutable_buffer err;
        std::string e = any_bytes("err");
        if (!e.empty()) err.push_back(e.data(), e.data() + e.size());
        std::string d = any_bytes("data");
        const wsrep::const_buffer data(d.data(), d.size());
        switch (sim::choose(32, "call"))
        {
        case 0: o.capabilities(); break;
        case 1: o.options("x=" + num(sim::choose(9, "v"))); break;
        case 2: try { o.options(); } catch (const wsrep::runtime_error&) { } break;
        case 3: o.connect("c" + num(sim::choose(3, "c")), "gcomm://" + num(sim::choose(3, "u")), sim::chance(0.5, "donor") ? "d" : "", sim::chance(0.5, "boot")); break;
        case 4: o.disconnect(); break;
        case 5: o.desync(); break;
        case 6: o.resync(); break;
        case 7: o.pause(); break;
        case 8: o.resume(); break;
        case 9: o.run_applier(fake<wsrep::high_priority_service>("hps")); break;
        case 10: { wsrep::gtid g = any_gtid(); o.assign_read_view(h, sim::chance(0.5, "gtid") ? &g : 0); break; }
        case 11: case 12: o.append_key(h, any_key()); break;
        case 13: o.append_data(h, data); break;
        case 14: case 15: { P::seq_cb_t cb = { fake<void>("cb"), reinterpret_cast<void (*)(void*)>(4096) }; o.certify(id, h, flags, m, sim::chance(0.5, "cb") ? &cb : 0); break; }
        case 16: { wsrep::seqno s(sim::choose(2, "old") ? 55 : -1); o.bf_abort(wsrep::seqno(any_num()), wsrep::transaction_id(unum()), cs, s); break; }
        case 17: o.rollback(wsrep::transaction_id(unum())); break;
        case 18: o.commit_order_enter(h, m); break;
        case 19: o.commit_order_leave(h, m, err); break;
        case 20: o.release(h); break;
        case 21: o.replay(h, fake<wsrep::high_priority_service>("hps")); break;
        case 22: case 23: { wsrep::key_array ka; const int n = int(sim::choose(4, "keys")); for (int i = 0; i < n; ++i) ka.push_back(any_key()); o.enter_toi(id, ka, data, m, flags); break; }
        case 24: o.leave_toi(id, m, err); break;
        case 25: o.causal_read(int(any_num())); break;
        case 26: o.wait_for_gtid(any_gtid(), int(any_num())); break;
        case 27: try { o.last_committed_gtid(); } catch (const wsrep::runtime_error&) { } break;
        case 28: if (sim::chance(0.5, "sent")) o.sst_sent(any_gtid(), int(sim::choose(3, "e"))); else o.sst_received(any_gtid(), -int(sim::choose(3, "e"))); break;
        case 29: o.status(); o.reset_status(); SIM_CHECK("C22", "stats-leak", stats_out == 0, "status variables of the provider are not returned to it"); break;
        case 30: o.set_node_isolation(static_cast<enum P::node_isolation>(sim::choose(3, "iso"))); break;
        default:
            SIM_CHECK("C22", "names", o.name() == (o.l_->no_names ? "unknown" : "sim") && o.version() == (o.l_->no_names ? "unknown" : "26.4") && o.vendor() == (o.l_->no_names ? "unknown" : "simulator"),
                      "provider names itself sim 26.4 simulator, reported is " << o.name() << " " << o.version() << " " << o.vendor());
        }
    }
    struct Srv : private w::SsSync, public wsrep::server_state
    {
        Srv(w::ServerSvc& svc, Enc* e, const std::string& tag, const wsrep::gtid& pos, int proto)
            : SsSync(), wsrep::server_state(SsSync::m, SsSync::c, svc, e, "name" + tag, "incoming" + tag, "address" + tag, "/dir" + tag, pos, proto, rm_sync) { }
    };
    // applier of the loading world, nothing is applied
    struct NoHps : wsrep::high_priority_service
    {
        const wsrep::transaction& trx;
        NoHps(wsrep::server_state& ss, const wsrep::transaction& t) : wsrep::high_priority_service(ss), trx(t) { }
        void set_exit(bool e) { must_exit_ = e; }
        typedef const wsrep::ws_handle& H; typedef const wsrep::ws_meta& M; typedef const wsrep::const_buffer& B; typedef wsrep::mutable_buffer& E;
        int start_transaction(H, M) WSREP_OVERRIDE { return 0; }
        int next_fragment(M) WSREP_OVERRIDE { return 0; }
        const wsrep::transaction& transaction() const WSREP_OVERRIDE { return trx; }
        int adopt_transaction(const wsrep::transaction&) WSREP_OVERRIDE { return 0; }
        int apply_write_set(M, B, E) WSREP_OVERRIDE { return 0; }
        int append_fragment_and_commit(H, M, B, const wsrep::xid&) WSREP_OVERRIDE { return 0; }
        int remove_fragments(M) WSREP_OVERRIDE { return 0; }
        int commit(H, M) WSREP_OVERRIDE { return 0; }
        int rollback(H, M) WSREP_OVERRIDE { return 0; }
        int apply_toi(M, B, E) WSREP_OVERRIDE { return 0; }
        int apply_nbo_begin(M, B, E) WSREP_OVERRIDE { return 0; }
        void after_apply() WSREP_OVERRIDE { }
        void store_globals() WSREP_OVERRIDE { }
        void reset_globals() WSREP_OVERRIDE { }
        void switch_execution_context(wsrep::high_priority_service&) WSREP_OVERRIDE { }
        int log_dummy_write_set(H, M, E) WSREP_OVERRIDE { return 0; }
        void adopt_apply_error(E) WSREP_OVERRIDE { }
        bool is_replaying() const WSREP_OVERRIDE { return false; }
        void debug_crash(const char*) WSREP_OVERRIDE { }
    };
    static void make_exit(wsrep::high_priority_service& h) { static_cast<NoHps&>(h).set_exit(true); }
    struct App                 // one server using the library
    {
        w::Node* node; Srv* ss = 0; Enc* enc = 0;
        std::vector<unsigned char> key;
        Lib* lib = 0;
        Outer* outer = 0;
        NoHps* hps = 0;
        w::Hps* other = 0;
    };
    // one call of the provider's side; what arrives is answered at random (see arrived_script)
    static void any_upcall(App& a)
    {
        const wsrep_init_args& x = a.lib->args;
        switch (sim::choose(7, "upcall"))
        {
        case 0:
        {
            a.hps->set_exit(sim::chance(0.3, "exit"));
            std::string d = any_bytes("ws");
            try { WRAPPED(S_APPLY)(a.ss, *a.hps, any_handle(), any_meta(any_flags()), wsrep::const_buffer(d.data(), d.size())); } catch (const wsrep::runtime_error&) { }
            break;
        }
        case 1: case 2:
        {
            std::vector<wsrep::view::member> ms;
            const int n = int(sim::choose(5, "members"));
            const bool known = !a.ss->id().is_undefined();
            int own = -1;
            const int at = n ? int(sim::choose(uint32_t(n + 1), "own")) - 1 : -1;
            for (int i = 0; i < n; ++i)
            {
                char b[16] = "member"; b[7] = char(1 + i); b[8] = known;
                wsrep::id id(b, 16);
                if (i == at) { own = i; if (known) id = a.ss->id(); }
                ms.push_back(wsrep::view::member(id, "", ""));
            }
            static const enum wsrep::view::status st[] = { wsrep::view::primary, wsrep::view::non_primary, wsrep::view::disconnected };
            wsrep::view v(any_gtid(), wsrep::seqno(any_num()), st[sim::choose(3, "view-status")], 0, own, int(sim::choose(5, "proto")), ms);
            try { if (own >= 0 && sim::chance(0.4, "connected")) WRAPPED(S_CONNECT)(a.ss, v); else WRAPPED(S_VIEW)(a.ss, v, sim::chance(0.5, "hps") ? a.hps : 0); }
            catch (const wsrep::runtime_error&) { }
            break;
        }
        case 3: try { WRAPPED(S_SYNC)(a.ss); } catch (const wsrep::runtime_error&) { } break;
        case 4: try { WRAPPED(S_PREPARE)(a.ss); } catch (const wsrep::runtime_error&) { } break;
        case 5: try { WRAPPED(S_DONATE)(a.ss, "req" + num(sim::choose(100, "r")), any_gtid(), sim::chance(0.5, "bypass")); } catch (const wsrep::runtime_error&) { } break;
        default: touch_log(x.logger_cb);
        }
        if (x.encrypt_cb && sim::chance(0.5, "crypt"))
        {
            std::string k = any_bytes("key"), in = any_bytes("in");
            char iv[32];
            for (auto& c : iv) c = char(sim::choose(256, "iv"));
            wsrep_enc_key_t ek = { k.data(), k.size() };
            wsrep_enc_ctx_t ec = { &ek, &iv, sim::chance(0.5, "ctx") ? malloc(8) : 0 };
            wsrep_buf_t ib = { in.data(), in.size() };
            void* out = fake<void>("out");
            const bool en = sim::chance(0.5, "enc"), last = sim::chance(0.5, "last");
            Call c("crypt", ptr(&ec.ctx) + " " + bytes(k.data(), k.size()) + " " + bytes(iv, 32) + " " + txt(ib) + " " + ptr(out) + (en ? " encrypt" : " decrypt") + (last ? " last" : ""), 0, 0, true);
            const int r = x.encrypt_cb(x.app_ctx, &ec, &ib, out, en ? WSREP_ENC : WSREP_DEC, last);
            c.done(r < 0 ? "failed" : num(r));
        }
    }
    static void any_config(App& a)
    {
        const Exports& exp = a.lib->exp;
        PARAMS.clear(); params_fail = cfg_init_fails = false;
        const int n = int(sim::choose(6, "params"));
        for (int i = 0; i < n; ++i)
        {
            static const int types[] = { 0, WSREP_PARAM_TYPE_BOOL, WSREP_PARAM_TYPE_INTEGER, WSREP_PARAM_TYPE_DOUBLE };
            Param p;
            p.name = "p" + num(i) + (sim::chance(0.5, "dot") ? ".x" : "");
            p.flags = types[sim::choose(4, "type")] | (sim::chance(0.3, "ro") ? WSREP_PARAM_READONLY : 0) | (sim::chance(0.3, "depr") ? WSREP_PARAM_DEPRECATED : 0);
            p.s = "s" + num(sim::choose(100, "v")); p.i = any_num(); p.d = double(sim::choose(1000, "v")) / 8; p.b = sim::chance(0.5, "v");
            PARAMS.push_back(p);
        }
        typedef wsrep::provider_options PO;
        PO po(*a.outer);
        const enum P::status r = po.initial_options();
        const bool want = exp.config && exp.config_deinit && !params_fail && !cfg_init_fails;
        SIM_CHECK("C22", "config-result", (r == P::success) == want, "reading the options gives " << txt(r) << ", it should " << (want ? "" : "not ") << "succeed");
        SIM_CHECK("C22", "config-left", cfg_on == 0, "configuration service is left initialized");
        if (r != P::success) return;
        sim::probe("config-read");
        size_t count = 0;
        po.for_each([&](PO::option*) { ++count; });
        SIM_CHECK("C22", "config-count", count == PARAMS.size(), "provider has " << PARAMS.size() << " options, " << count << " are listed");
        for (auto& p : PARAMS)
        {
            std::string nm = p.name;
            for (auto& c : nm) if (c == '.') c = '_';
            const PO::option* o = po.get_option(nm);
            if (!o) { SIM_CHECK("C22", "config-lost", false, "option " << p.name << " is not listed"); continue; }
            const int t = p.flags & WSREP_PARAM_TYPE_MASK;
            std::string v = t == WSREP_PARAM_TYPE_BOOL ? (p.b ? "yes" : "no") : t == WSREP_PARAM_TYPE_INTEGER ? num(p.i) : t == WSREP_PARAM_TYPE_DOUBLE ? std::to_string(p.d) : p.s;
            int f = 0;
            if (p.flags & WSREP_PARAM_DEPRECATED) f |= PO::flag::deprecated;
            if (p.flags & WSREP_PARAM_READONLY) f |= PO::flag::readonly;
            if (t == WSREP_PARAM_TYPE_BOOL) f |= PO::flag::type_bool;
            if (t == WSREP_PARAM_TYPE_INTEGER) f |= PO::flag::type_integer;
            if (t == WSREP_PARAM_TYPE_DOUBLE) f |= PO::flag::type_double;
            SIM_CHECK("C22", "config-value", o->flags() == f && std::string(o->value()->as_string()) == v && std::string(o->default_value()->as_string()) == v && p.name == o->real_name(),
                      "option " << p.name << " has value " << v << " flags " << f << ", listed is " << o->real_name() << " value " << o->value()->as_string() << " flags " << o->flags());
        }
    }

    static bool supported(int k) { return EXP.init[k] && EXP.deinit[k]; }
    static void loading(const std::string&)
    {
        w::W = new w::World();
        wsrep::log::logger_fn(log_fn);
        const int napps = 1 + int(sim::choose(2, "apps"));
        std::vector<App> apps;
        for (int i = 0; i < napps; ++i)
        {
            w::W->nodes.push_back(std::unique_ptr<w::Node>(new w::Node(i)));
            w::Node& n = *w::W->nodes.back();
            n.svc.reset(new w::ServerSvc(n));
            n.ss.reset(new w::ServerState(n, *n.svc, wsrep::gtid::undefined(), wsrep::server_state::rm_sync));
            n.locks.reset(new w::LockMgr(n));
            App a;
            a.node = &n;
            a.other = new w::Hps(n, false);
            apps.push_back(a);
        }
        Thr thr[2] = { Thr(0), Thr(1) }; Tls tls[2] = { Tls(0), Tls(1) }; Allow allow[2] = { Allow(0), Allow(1) }; Event ev[2] = { Event(0), Event(1) }; Conn conn[2] = { Conn(0), Conn(1) };
        int users[NSVC] = { 0, 0, 0, 0, 0 };
        w::ClientSvc cs(*apps[0].node);
        const bool faulty = sim::chance(0.7, "faulty-library");
        if (!faulty) sim::stop_faults();
        // one entry point for the process: the same for all libraries of a run
        const bool certify = !sim::chance(0.3, "no-certify"), isolation = !sim::chance(0.3, "no-isolation");
        auto unload = [&](App& a)
        {
            Lib* l = a.lib;
            BY_SS.erase(a.ss);
            a.outer->a_.release();
            delete a.outer;
            a.outer = 0; a.lib = 0;
            for (int k = 0; k < NSVC; ++k) if (l->svc_on[k]) --users[k];
            a.ss->unload_provider();
            SIM_CHECK("C22", "free-missing", l->freed, "provider is not freed when it is unloaded");
            SIM_CHECK("C22", "unload-missing", l->unloaded, "provider library stays loaded");
            sim::probe("unloaded");
            delete a.ss; a.ss = 0;
        };
        const int steps = 3 + int(sim::choose(20, "steps"));
        for (int s = 0; s < steps; ++s)
        {
            App& a = apps[sim::choose(uint32_t(napps), "app")];
            if (a.lib)
            {
                switch (sim::choose(6, "step"))
                {
                case 0: unload(a); break;
                case 1: touch_services(*a.lib); break;
                case 2: any_config(a); break;
                case 3: any_upcall(a); break;
                default: any_call(*a.outer, cs); break;
                }
                continue;
            }
            // load
            EXP = Exports();
            EXP.certify = certify; EXP.isolation = isolation;
            if (faulty)
            {
                for (int k = 0; k < NSVC; ++k) { EXP.init[k] = !sim::chance(0.07, "no-init"); EXP.deinit[k] = !sim::chance(0.07, "no-deinit"); }
                EXP.config = !sim::chance(0.2, "no-config"); EXP.config_deinit = !sim::chance(0.1, "no-config-deinit");
            }
            no_names = sim::chance(0.2, "no-names");
            bool want[NSVC];
            for (int k = 0; k < NSVC; ++k)
            {
                want[k] = sim::chance(0.6, "want");
                if (users[k] == 0) USER[k] = int(sim::choose(2, "user"));
            }
            wsrep::provider::services svcs;
            if (want[THREAD]) svcs.thread_service = &thr[USER[THREAD]];
            if (want[TLS]) svcs.tls_service = &tls[USER[TLS]];
            if (want[ALLOW]) svcs.allowlist_service = &allow[USER[ALLOW]];
            if (want[EVENT]) svcs.event_service = &ev[USER[EVENT]];
            if (want[CONN]) svcs.connection_monitor_service = &conn[USER[CONN]];
            a.enc = sim::chance(0.5, "enc-service") ? new Enc() : 0;
            if (a.enc) a.enc->on = sim::chance(0.7, "enc-on");
            a.node->last_state = int(wsrep::server_state::s_disconnected);
            a.ss = new Srv(*a.node->svc, a.enc, num(s), any_gtid(), int(sim::choose(5, "proto")));
            std::vector<unsigned char> key;
            if (sim::chance(0.6, "key")) { const int n = 1 + int(sim::choose(32, "key-len")); for (int i = 0; i < n; ++i) key.push_back((unsigned char)(sim::choose(256, "key-byte"))); }
            if (!key.empty()) { std::vector<unsigned char> k = key; a.ss->set_encryption_key(k); }
            const bool enc_on = a.enc && a.enc->on;
            load_fails = init_fails = key_fails = before_fails = after_fails = false; thread_stage = 0;
            memset(svc_init_failed, 0, sizeof svc_init_failed);
            NEXT_NODE = a.node; NEXT_PROV = new RandProvider(*a.ss); NEXT_SCRIPTED = true;
            const std::string opts = "o" + num(sim::choose(100, "o"));
            const size_t before = LIBS.size();
            int ret;
            bool key_set;
            {
                Call c("enc_set_key", bytes(key.data(), key.size()));
                ret = a.ss->load_provider("sim" + num(s), opts, svcs);
                key_set = c.f().entered;
            }
            bool ok = !load_fails && !init_fails && !key_fails;
            for (int k : { THREAD, TLS, ALLOW }) if (want[k] && (!supported(k) || svc_init_failed[k])) ok = false;
            if (before_fails || after_fails) ok = false;
            SIM_CHECK("C22", "load-result", (ret == 0) == ok, "loading the provider returns " << ret << ", it should " << (ok ? "succeed" : "fail") << " (load " << load_fails << " init "
                      << init_fails << " key " << key_fails << " before " << before_fails << " after " << after_fails << ")");
            if (ret)
            {
                sim::probe("load-failed");
                if (LIBS.size() > before)
                {
                    Lib* l = LIBS.back();
                    for (int k = 0; k < NSVC; ++k)
                        SIM_CHECK("C22", "service-left", !l->svc_on[k], svc_name[k] << " service is left initialized by a provider which failed to load");
                    SIM_CHECK("C22", "unload-missing", l->unloaded, "library of a provider which failed to load stays loaded");
                    SIM_CHECK("C22", "free-missing", !l->inited || l->freed, "provider which failed to load is not freed");
                }
                delete a.ss; a.ss = 0;
                continue;
            }
            sim::probe("loaded");
            Lib* l = LIBS.back();
            SIM_CHECK("C22", "thread-init-order", !l->svc_on[THREAD] || thread_stage == 3, "after_init() of the thread service is not called");
            a.lib = l;
            for (int k = 0; k < NSVC; ++k)
            {
                bool on = want[k] && supported(k) && !svc_init_failed[k];
                if (k == EVENT && users[k]) on = false;        // one provider at a time
                SIM_CHECK("C22", "service-state", l->svc_on[k] == on, svc_name[k] << " service is " << (l->svc_on[k] ? "" : "not ") << "initialized, it should " << (on ? "" : "not ") << "be");
                if (l->svc_on[k]) ++users[k];
            }
            SIM_CHECK("C22", "key", key_set == (enc_on && !key.empty()), "encryption key is " << (key_set ? "" : "not ") << "passed to the provider");
            check_args(*l, *a.ss, opts, enc_on);
            a.outer = new Outer(*a.ss, 0, &a.ss->provider(), l);
            BY_SS[a.ss] = l;
            a.hps = new NoHps(*a.ss, a.other->transaction());
        }
        for (auto& a : apps) if (a.lib) unload(a);
        for (Lib* l : LIBS) SIM_CHECK("C22", "unload-missing", l->unloaded, "provider library stays loaded");
        sim::state_hash(sim::hash_str(num((long long)LIBS.size())));
    }
    void scenario(const std::string& prop)
    {
        FR.clear(); LIBS.clear(); BY_SS.clear(); TAGS.clear(); CUR = 0; stats_out = 0; cfg_on = 0; unloads = 0; no_names = false; PARAMS.clear();
        w::wrap_provider = 0;
        if (sim::choose(3, "world") == 0) loading(prop); else cluster(prop);
    }
}
