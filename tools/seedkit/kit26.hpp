// Test kit for the adapter of loadable providers: a small provider "library" inside the program.
#ifndef KIT26_HPP
#define KIT26_HPP
#define KIT_ADAPTER
#define KIT_OWN_FETCH
#include "kit.hpp"
#include "wsrep_provider_v26.hpp"
#include "wsrep/allowlist_service.hpp"
#include "wsrep/tls_service.hpp"
#include "v26/wsrep_api.h"
#include "v26/wsrep_allowlist_service.h"
#include <dlfcn.h>
#include <cstring>
#include <errno.h>

namespace kit26
{
    struct lib { wsrep_t api; bool freed = false, unloaded = false; wsrep_init_args args; };
    inline std::vector<lib*>& libs() { static std::vector<lib*> v; return v; }
    inline std::function<void(wsrep_t&)>& setup() { static std::function<void(wsrep_t&)> f; return f; }
    inline lib& of(wsrep_t* t) { for (auto l : libs()) if (&l->api == t) return *l; abort(); }
    inline wsrep_status_t init(wsrep_t* t, const struct wsrep_init_args* a) { of(t).args = *a; return WSREP_OK; }
    inline void freed(wsrep_t* t) { of(t).freed = true; }

    struct server
    {
        kit::service svc;
        wsrep::default_mutex m; wsrep::default_condition_variable c;
        struct state : wsrep::server_state { using wsrep::server_state::server_state; state(wsrep::mutex& m, wsrep::condition_variable& c, wsrep::server_service& s, const char* n)
            : wsrep::server_state(m, c, s, NULL, n, "", "", "./", wsrep::gtid::undefined(), 1, wsrep::server_state::rm_sync) {} } ss;
        std::unique_ptr<wsrep::wsrep_provider_v26> p;
        explicit server(const char* name) : svc(&ss), ss(m, c, svc, name) {}
        bool load(const wsrep::provider::services& s = wsrep::provider::services())
        {
            try { p.reset(new wsrep::wsrep_provider_v26(ss, "", "lib", s)); return true; }
            catch (const wsrep::runtime_error&) { return false; }
        }
        lib& l() { return *libs().back(); }
    };
}
extern "C" int wsrep_load(const char*, wsrep_t** h, wsrep_log_cb_t)
{
    kit26::lib* l = new kit26::lib;
    memset(&l->api, 0, sizeof l->api);
    l->api.version = "26";
    l->api.init = kit26::init;
    l->api.free = kit26::freed;
    l->api.dlh = dlopen(0, RTLD_NOW);
    if (kit26::setup()) kit26::setup()(l->api);
    kit26::libs().push_back(l);
    *h = &l->api;
    return 0;
}
extern "C" void wsrep_unload(wsrep_t* h) { kit26::of(h).unloaded = true; }
#endif
