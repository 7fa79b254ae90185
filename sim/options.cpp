// Provider options (C20): the list the provider announced against the list kept by the library.
#include "world.hpp"
#include "nullprov.hpp"
#include "wsrep/provider_options.hpp"
#include <cmath>
#include <limits>
#include <new>
#include <cstdlib>

namespace sim
{
    // Failing allocations: the n-th allocation from now fails.
    static long alloc_left = -1;
    void arm_alloc(long n) { alloc_left = n; }
    bool disarm_alloc() { bool hit = alloc_left == 0; alloc_left = -1; return hit; }
    static void* alloc(size_t n)
    {
        if (__builtin_expect(alloc_left > 0, 0) && --alloc_left == 0) throw std::bad_alloc();
        void* p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        if (__builtin_expect(race::on, 0)) race::fresh(p, n ? n : 1);
        return p;
    }
}
void* operator new(size_t n) { return sim::alloc(n); }
void* operator new[](size_t n) { return sim::alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace ro
{
    typedef wsrep::provider_options PO;
    typedef wsrep::provider P;
    struct Opt
    {
        std::string real;             // name in provider
        int flags = 0;
        int type = 0;                 // 0 string 1 bool 2 int 3 double
        std::string s; bool b = false; int64_t i = 0; double d = 0;
        std::string str, def_str;     // string form of value and default
        std::string def_s; bool def_b = false; int64_t def_i = 0; double def_d = 0;
    };
    static std::string pub(std::string n) { for (auto& c : n) if (c == '.') c = '_'; return n; }

    // The provider behind the list: parses what it is told, accepts or rejects.
    struct OptProvider : NullProvider
    {
        explicit OptProvider(wsrep::server_state& ss) : NullProvider(ss) { }
        std::map<std::string, std::string> values;    // by real name
        double p_fail = 0;
        int calls = 0;
        std::string last_name, last_value;
        bool last_accepted = false;
        enum status last_status = success;
        std::string bad;
        bool fetch_fails = false; size_t fetch_stop = 0;
        std::vector<Opt>* announce = 0;
        enum status options(const std::string& s) WSREP_OVERRIDE
        {
            sim::disarm_alloc();
            ++calls;
            last_accepted = false;
            size_t e = s.find('=');
            if (e == std::string::npos || s.empty() || s[s.size() - 1] != ';') { bad = "malformed option string '" + s + "'"; return last_status = error_warning; }
            last_name = s.substr(0, e);
            last_value = s.substr(e + 1, s.size() - e - 2);
            auto i = values.find(last_name);
            if (i == values.end()) { bad = "provider does not know '" + last_name + "'"; return last_status = error_warning; }
            if (sim::fault(p_fail, "option-rejected"))
            {
                static const enum status st[] = { error_warning, error_not_allowed, error_provider_failed, error_not_implemented,
                    error_connection_failed, error_size_exceeded, error_fatal, error_unknown };
                return last_status = st[sim::choose(8, "option-status")];
            }
            i->second = last_value;
            last_accepted = true;
            return last_status = success;
        }
        std::string options() const WSREP_OVERRIDE
        { std::string s; for (auto& v : values) s += v.first + "=" + v.second + ";"; return s; }
    };
    static OptProvider* PROV;
    static std::unique_ptr<PO::option_value> make(const Opt& o, bool def)
    {
        typedef std::unique_ptr<PO::option_value> U;
        switch (o.type)
        {
        case 1: return U(new PO::option_value_bool(def ? o.def_b : o.b));
        case 2: return U(new PO::option_value_int(def ? o.def_i : o.i));
        case 3: return U(new PO::option_value_double(def ? o.def_d : o.d));
        default: return U(new PO::option_value_string(def ? o.def_s : o.s));
        }
    }
    static void stringify(const Opt& o, bool def, std::string& r)
    {
        switch (o.type)
        {
        case 1: r = (def ? o.def_b : o.b) ? "yes" : "no"; break;
        case 2: r = std::to_string(def ? o.def_i : o.i); break;
        case 3: { char b[400]; snprintf(b, sizeof b, "%f", def ? o.def_d : o.d); r = b; break; }
        default: r = def ? o.def_s : o.s;
        }
    }
    static void draw_value(Opt& o)
    {
        switch (o.type)
        {
        case 1: o.b = sim::choose(2, "bool"); break;
        case 2:
        {
            static const int64_t v[] = { 0, 1, -1, 42, 1LL << 40, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min() };
            o.i = v[sim::choose(7, "int")];
            break;
        }
        case 3: { static const double v[] = { 0, 1.5, -2.25, 1e10, 0.125, 1234567.875 }; o.d = v[sim::choose(6, "double")]; break; }
        default:
        {
            static const char* const v[] = { "", "P1D", "128M", "a b", "tcp://0.0.0.0:4567", "x.y_z", "value with ' quote", "0" };
            o.s = v[sim::choose(8, "string")];
        }
        }
        stringify(o, false, o.str);
    }
    static int fetch(PO* po)
    {
        std::vector<Opt>& a = *PROV->announce;
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (PROV->fetch_fails && i == PROV->fetch_stop) return 1;
            a[i].str.clear();
            auto st = po->set_default(a[i].real, make(a[i], false), make(a[i], true), a[i].flags);
            SIM_CHECK("C20", "option-announce", st == P::success, "announced option " << a[i].real << " is refused with " << int(st));
        }
        return PROV->fetch_fails ? 1 : 0;
    }
    static std::string value_of(const PO::option_value* v, int type)
    {
        if (!v) return "(null)";
        std::ostringstream os;
        os.precision(17);
        switch (type)
        {
        case 1: os << *static_cast<const bool*>(v->get_ptr()); break;
        case 2: os << *static_cast<const int64_t*>(v->get_ptr()); break;
        case 3: os << *static_cast<const double*>(v->get_ptr()); break;
        default: os << static_cast<const char*>(v->get_ptr());
        }
        return os.str() + "|" + v->as_string();
    }
    static std::string expect(const Opt& o, bool def)
    {
        std::ostringstream os;
        os.precision(17);
        switch (o.type)
        {
        case 1: os << (def ? o.def_b : o.b); break;
        case 2: os << (def ? o.def_i : o.i); break;
        case 3: os << (def ? o.def_d : o.d); break;
        default: os << (def ? o.def_s : o.s);
        }
        std::string t;
        stringify(o, def, t);
        return os.str() + "|" + t;
    }
    static void check_all(PO& po, const std::map<std::string, Opt>& model, const char* when)
    {
        size_t n = 0;
        std::string prev;
        po.for_each([&](PO::option* o)
        {
            ++n;
            auto i = model.find(o->name());
            if (i == model.end()) { sim::violation("C20", "option-unknown", std::string("option list has ") + o->name() + " which was not announced, " + when); return; }
            const Opt& m = i->second;
            SIM_CHECK("C20", "option-name", m.real == o->real_name(), "real name of " << o->name() << " is " << o->real_name() << ", announced " << m.real << ", " << when);
            SIM_CHECK("C20", "option-flags", m.flags == o->flags(), "flags of " << o->name() << " are " << o->flags() << ", announced " << m.flags << ", " << when);
            std::string v = value_of(o->value(), m.type), d = value_of(o->default_value(), m.type);
            SIM_CHECK("C20", "option-value", v == expect(m, false), "value of " << o->name() << " is " << v << ", provider accepted " << expect(m, false) << ", " << when);
            SIM_CHECK("C20", "option-default", d == expect(m, true), "default of " << o->name() << " is " << d << ", announced " << expect(m, true) << ", " << when);
            const PO::option* g = po.get_option(o->name());
            SIM_CHECK("C20", "option-get", g == o, "get_option(" << o->name() << ") does not find the listed option, " << when);
        });
        SIM_CHECK("C20", "option-count", n == model.size(), "list has " << n << " options, announced " << model.size() << ", " << when);
        for (auto& m : model)
            SIM_CHECK("C20", "option-lost", po.get_option(m.first), "option " << m.first << " is not found, " << when);
    }
    void options_scenario(const std::string&)
    {
        w::W = new w::World();
        w::W->nodes.push_back(std::unique_ptr<w::Node>(new w::Node(0)));
        w::Node& n = *w::W->nodes[0];
        n.svc.reset(new w::ServerSvc(n));
        n.ss.reset(new w::ServerState(n, *n.svc, wsrep::gtid::undefined(), wsrep::server_state::rm_sync));
        OptProvider* prov = new OptProvider(*n.ss);
        PROV = prov;
        n.ss->set_provider_factory([prov](wsrep::server_state&, const std::string&, const std::string&, const wsrep::provider::services&)
        { return std::unique_ptr<wsrep::provider>(prov); });
        n.ss->load_provider("opt", "", wsrep::provider::services());
        static const char* const names[] = { "debug", "repl.max_ws_size", "repl.proto_max", "evs.send_window", "evs.user.send_window",
            "gcache.size", "pc.weight", "pc_weight2", "cert.log_conflicts", "base_dir", "a", "a.b", "a.b.c", "gmcast.listen_addr", ".x", "x." };
        const double p_fail = sim::chance(0.3, "reliable") ? 0 : 0.4;
        const double p_alloc = sim::chance(0.5, "alloc-faults") ? 0.3 : 0;
        PO* po = new PO(*prov);
        std::vector<Opt> announce;
        std::map<std::string, Opt> model;
        const int rounds = int(1 + sim::choose(3, "rounds"));
        check_all(*po, model, "before announcement");
        for (int r = 0; r < rounds; ++r)
        {
            announce.clear();
            prov->values.clear();
            std::set<std::string> used;
            const int count = int(sim::choose(7, "options"));
            for (int i = 0; i < count; ++i)
            {
                Opt o;
                o.real = names[sim::choose(sizeof names / sizeof *names, "name")];
                if (!used.insert(pub(o.real)).second) continue;
                o.type = int(sim::choose(4, "type"));
                o.flags = o.type == 1 ? PO::flag::type_bool : o.type == 2 ? PO::flag::type_integer : o.type == 3 ? PO::flag::type_double : 0;
                if (sim::chance(0.2, "deprecated")) o.flags |= PO::flag::deprecated;
                if (sim::chance(0.2, "readonly")) o.flags |= PO::flag::readonly;
                draw_value(o);
                o.def_s = o.s; o.def_b = o.b; o.def_i = o.i; o.def_d = o.d;
                if (sim::chance(0.3, "value-differs")) draw_value(o);
                announce.push_back(o);
                prov->values[o.real] = o.str;
            }
            prov->announce = &announce;
            prov->p_fail = p_fail;
            prov->fetch_fails = sim::fault(0.1, "option-fetch-fails");
            prov->fetch_stop = sim::choose(uint32_t(announce.size()) + 1, "fetch-stop");
            auto st = po->initial_options();
            SIM_CHECK("C20", "option-fetch", (st == P::success) == !prov->fetch_fails, "initial options " << (prov->fetch_fails ? "failed" : "succeeded") << " but status is " << int(st));
            if (prov->fetch_fails) { prov->fetch_fails = false; st = po->initial_options(); }
            model.clear();
            for (auto& o : announce) model[pub(o.real)] = o;
            check_all(*po, model, "after announcement");
            const int ops = int(sim::choose(12, "ops"));
            for (int k = 0; k < ops; ++k)
            {
                std::string name;
                Opt v;
                auto i = model.end();
                if (model.size() && !sim::chance(0.15, "unknown"))
                {
                    i = model.begin();
                    std::advance(i, sim::choose(uint32_t(model.size()), "which"));
                    name = i->first;
                    v = i->second;
                }
                else
                {
                    static const char* const un[] = { "no_such", "", "repl.max_ws_size", "evs.user.send_window", "a.b" };
                    name = un[sim::choose(5, "unknown-name")];
                    v.type = int(sim::choose(4, "type"));
                }
                const bool known = model.count(name);
                draw_value(v);
                prov->calls = 0; prov->bad.clear();
                bool threw = false;
                enum P::status ret = P::success;
                {
                    auto val = make(v, false);
                    const bool af = p_alloc > 0 && sim::fault(p_alloc, "allocation-fails");
                    const long nth = af ? 1 + long(sim::choose(6, "nth-alloc")) : -1;
                    if (af) sim::arm_alloc(nth);
                    try { ret = po->set(name, std::move(val)); }
                    catch (const std::bad_alloc&) { threw = true; }
                    sim::disarm_alloc();
                }
                SIM_EV("set " << name << "=" << v.str << " -> " << (threw ? std::string("no memory") : std::to_string(int(ret))) << " calls " << prov->calls);
                sim::probe("option");
                SIM_CHECK("C20", "option-string", prov->bad.empty(), prov->bad);
                if (threw)
                {
                    SIM_CHECK("C20", "option-throw", !(prov->calls && prov->last_accepted), "the provider accepted the change but the caller gets an exception");
                    sim::probe("option-alloc-failed");
                }
                else if (!known)
                {
                    SIM_CHECK("C20", "option-unknown-set", ret != P::success, "setting the unknown option '" << name << "' succeeds");
                    SIM_CHECK("C20", "option-unknown-set", prov->calls == 0, "setting the unknown option '" << name << "' reaches the provider");
                    sim::probe("option-unknown");
                }
                else
                {
                    SIM_CHECK("C20", "option-calls", prov->calls == 1, "provider was called " << prov->calls << " times to set " << name);
                    if (prov->calls)
                    {
                        SIM_CHECK("C20", "option-status", ret == prov->last_status, "provider returned " << int(prov->last_status) << ", caller sees " << int(ret));
                        SIM_CHECK("C20", "option-sent", prov->last_name == i->second.real && prov->last_value == v.str,
                                  "setting " << name << " to '" << v.str << "' told the provider " << prov->last_name << "=" << prov->last_value);
                        if (prov->last_accepted) i->second = v;
                        else sim::probe("option-rejected");
                    }
                }
                check_all(*po, model, "after a change");
                sim::yield_point("opt");
            }
            uint64_t h = 1;
            for (auto& m : model) h = sim::hash_str(m.first + "=" + m.second.str, h);
            sim::state_hash(h);
        }
        delete po;
    }
}

namespace wsrep
{
    __attribute__((weak)) int config_service_v1_fetch(wsrep::provider&, wsrep::provider_options* po) { return ro::fetch(po); }
}
