#include "race.hpp"
#include "core.hpp"
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <unordered_map>

extern "C" char __executable_start;
namespace sim { bool on_fiber_stack(const void*); }

namespace race
{
    bool on = false;
    namespace
    {
        // Call stacks as nodes of a tree of calls: an access refers to one.
        struct Call { const void* pc; Call* up; Call* child; Call* next; };
        std::deque<Call> calls;
        Call root = { 0, 0, 0, 0 };
        Call* call(Call* up, const void* pc)
        {
            for (Call* c = up->child; c; c = c->next) if (c->pc == pc) return c;
            calls.push_back(Call{ pc, up, 0, up->child });
            return up->child = &calls.back();
        }
        struct Access { uint32_t tid = 0, clk = 0; const void* pc = 0; const Call* stack = &root; };
        struct Cell { uint16_t off; uint8_t size; Access w; std::vector<Access> r; };
        struct Held { const void* m; const char* name; };
        struct Thread { clock c; Call* stack = &root; std::vector<Held> held; };
        struct Order { std::string first, second; Access at; };     // second locked while first was held
        std::vector<Order> orders;
        std::vector<Thread> threads;
        std::unordered_map<uintptr_t, std::vector<Cell>> shadow;
        std::unordered_map<const void*, clock> comps, atomics;
        struct Dead { uintptr_t end; const char* what; Access by; };
        std::map<uintptr_t, Dead> dead;
        bool busy = false;
        uint32_t me() { sim::fiber* f = sim::current(); return f ? uint32_t(sim::fiber_id(f)) : 0; }
        Thread& th(uint32_t i)
        {
            if (threads.size() <= i) threads.resize(i + 1);
            Thread& t = threads[i];
            if (t.c.size() <= i) { t.c.resize(i + 1); t.c[i] = 1; }
            return t;
        }
        void join(clock& a, const clock& b)
        {
            if (a.size() < b.size()) a.resize(b.size());
            for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i];
        }
        struct Sym { uintptr_t a, e; std::string n; };
        std::vector<Sym> syms;
        void load_syms()
        {
            int fd = ::open("/proc/self/exe", O_RDONLY);
            if (fd < 0) return;
            off_t n = ::lseek(fd, 0, SEEK_END);
            std::vector<char> b(n > 0 ? size_t(n) : 0);
            size_t got = 0;
            while (got < b.size()) { ssize_t k = ::pread(fd, &b[got], b.size() - got, off_t(got)); if (k <= 0) break; got += size_t(k); }
            ::close(fd);
            const Elf64_Ehdr* h = reinterpret_cast<const Elf64_Ehdr*>(b.data());
            const Elf64_Shdr* s = reinterpret_cast<const Elf64_Shdr*>(b.data() + h->e_shoff);
            const uintptr_t base = h->e_type == ET_DYN ? uintptr_t(&__executable_start) : 0;
            for (int i = 0; i < h->e_shnum; ++i)
            {
                if (s[i].sh_type != SHT_SYMTAB) continue;
                const Elf64_Sym* y = reinterpret_cast<const Elf64_Sym*>(b.data() + s[i].sh_offset);
                const char* str = b.data() + s[s[i].sh_link].sh_offset;
                for (size_t k = 0; k < s[i].sh_size / sizeof(Elf64_Sym); ++k)
                    if (ELF64_ST_TYPE(y[k].st_info) == STT_FUNC && y[k].st_size)
                        syms.push_back(Sym{ base + y[k].st_value, base + y[k].st_value + y[k].st_size, str + y[k].st_name });
            }
            std::sort(syms.begin(), syms.end(), [](const Sym& x, const Sym& y) { return x.a < y.a; });
        }
        std::string name_of(const void* pc)
        {
            if (!pc) return "";
            if (syms.empty()) load_syms();
            const uintptr_t a = uintptr_t(pc) - 1;
            size_t l = 0, r = syms.size();
            while (l < r) { size_t m = (l + r) / 2; if (syms[m].a <= a) l = m + 1; else r = m; }
            for (size_t i = l; i > 0 && i + 8 > l; --i)
                if (a >= syms[i - 1].a && a < syms[i - 1].e)
                {
                    int st = 0;
                    char* d = abi::__cxa_demangle(syms[i - 1].n.c_str(), 0, 0, &st);
                    std::string s = d ? d : syms[i - 1].n;
                    free(d);
                    size_t p = s.find('(');
                    return p == std::string::npos ? s : s.substr(0, p);
                }
            return "?";
        }
        std::string where(const Access& a, int depth)
        {
            std::string s = name_of(a.pc);
            for (const Call* c = a.stack; c->up && depth > 0; c = c->up, --depth) s += (s.empty() ? "" : " < ") + name_of(c->pc);
            if (getenv("RACE_PC")) { char b[40]; snprintf(b, sizeof b, " [%p]", a.pc); s += b; }
            return s;
        }
        enum { shown = 6, whole = 64 };
        void fill(Access& a, uint32_t t, const Thread& x, const void* pc)
        {
            a.tid = t; a.clk = x.c[t]; a.pc = pc; a.stack = x.stack;
        }
        bool before(const Access& a, const Thread& x) { return a.tid < x.c.size() && a.clk <= x.c[a.tid]; }
        bool has(const std::string& s, const char* f) { return (s + " ").find(f) != std::string::npos; }
        void report(const Access& a, bool aw, uint32_t t, const Thread& x, bool w, const void* pc)
        {
            Access b; fill(b, t, x, pc);
            std::string wa = where(a, whole), wb = where(b, whole);
            // KNOWN_FINDINGS.txt, by the accesses which race
            struct { const char* id; const char* one; std::vector<const char*> other; } known[] =
            {
                { "KF-2", "wsrep::transaction::adopt ", { "wsrep::transaction::", "wsrep::client_state::" } },
                { "KF-3", "wsrep::server_state::go_final ", { "wsrep::transaction::", "wsrep::client_state::" } },
                { "KF-4", "wsrep::server_state::close_orphaned_sr_transactions ", { "wsrep::transaction::" } },
                { "KF-5", "wsrep::server_state::find_streaming_applier ", { "wsrep::transaction::" } },
            };
            for (auto& k : known)
                for (const char* o : k.other)
                    if ((has(wa, k.one) && has(wb, o)) || (has(wb, k.one) && has(wa, o)))
                    { sim::probe(std::string("known-finding:") + k.id); return; }
            wa = where(a, shown); wb = where(b, shown);
            std::ostringstream os;
            os << (w ? "write" : "read") << " in " << wb << " is not ordered with " << (aw ? "write" : "read") << " in " << wa << " by another thread";
            static const bool list = getenv("RACE_LIST") != 0;
            if (list) { fprintf(stderr, "RACE %s\n", os.str().c_str()); return; }
            sim::violation("C23", "data-race", os.str());
        }
        // KF-6 (KNOWN_FINDINGS.txt): view processing does not keep the session alive
        bool known_lifetime(const std::string& w)
        { return has(w, "wsrep::server_state::close_orphaned_sr_transactions "); }
        void report_dead(const Access& a, const char* what, const Access& by, bool after)
        {
            const std::string wa = where(a, shown);
            if (known_lifetime(where(a, whole))) { sim::probe("known-finding:KF-6"); return; }
            std::ostringstream os;
            if (after) os << "access in " << wa << " to " << what << " which was destroyed by thread " << by.tid;
            else os << "access in " << wa << " to " << what << " is not ordered with its destruction by another thread";
            static const bool list = getenv("RACE_LIST") != 0;
            if (list) { fprintf(stderr, "RACE %s\n", os.str().c_str()); return; }
            sim::violation("C23", after ? "use-after-destroy" : "destroyed-in-use", os.str());
        }
        void access(const void* p, size_t n, bool w, const void* pc)
        {
            if (!on || busy || !sim::current() || sim::on_fiber_stack(p)) return;
            busy = true;
            const uint32_t t = me();
            Thread& x = th(t);
            const uintptr_t a = uintptr_t(p);
            if (!dead.empty())
            {
                auto d = dead.upper_bound(a);
                if (d != dead.begin() && a < (--d)->second.end)
                {
                    Access here; fill(here, t, x, pc);
                    const Dead dd = d->second;
                    busy = false;
                    report_dead(here, dd.what, dd.by, true);
                    return;
                }
            }
            std::vector<Cell>& v = shadow[a >> 6];
            const uint16_t off = uint16_t(a & 63);
            Cell* c = 0;
            for (Cell& i : v) if (i.off == off) { c = &i; break; }
            if (!c) { v.push_back(Cell()); c = &v.back(); c->off = off; }
            c->size = uint8_t(n);
            bool bad = false, bad_w = false; Access other;
            if (c->w.tid && c->w.tid != t && !before(c->w, x)) { bad = true; bad_w = true; other = c->w; }
            if (w && !bad) for (const Access& i : c->r) if (i.tid != t && !before(i, x)) { bad = true; other = i; break; }
            if (w) { fill(c->w, t, x, pc); c->r.clear(); }
            else
            {
                Access* m = 0;
                for (Access& i : c->r) if (i.tid == t) { m = &i; break; }
                if (!m) { c->r.push_back(Access()); m = &c->r.back(); }
                fill(*m, t, x, pc);
            }
            busy = false;
            if (bad) { Thread y = x; report(other, bad_w, t, y, w, pc); }
        }
    }
    void begin() { calls.clear(); root.child = 0; dead.clear(); threads.clear(); shadow.clear(); comps.clear(); atomics.clear(); orders.clear(); busy = false; }
    void acquire(const clock& c) { if (!on) return; busy = true; join(th(me()).c, c); busy = false; }
    void release(clock& c) { if (!on) return; busy = true; uint32_t t = me(); Thread& x = th(t); join(c, x.c); ++x.c[t]; busy = false; }
    void locking(const void* m, const char* name)
    {
        if (!on || busy || !sim::current()) return;
        busy = true;
        std::string bad;
        const uint32_t t = me(); Thread& x = th(t);
        for (const Held& h : x.held)
        {
            if (!strcmp(h.name, name)) continue;
            const Order *same = 0, *opp = 0;
            for (const Order& o : orders)
            {
                if (o.first == h.name && o.second == name) same = &o;
                if (o.first == name && o.second == h.name) opp = &o;
            }
            Access a; fill(a, t, x, 0);
            if (opp) bad = std::string(name) + " mutex is locked while " + h.name + " mutex is held in" + where(a, shown) + ", the other order in" + where(opp->at, shown);
            else if (!same) orders.push_back(Order{ h.name, name, a });
        }
        x.held.push_back(Held{ m, name });
        busy = false;
        if (bad.empty()) return;
        if (getenv("RACE_LIST")) fprintf(stderr, "RACE lock order %s\n", bad.c_str());
        else sim::violation("C23", "lock-order", bad);
    }
    void unlocked(const void* m)
    {
        if (!on || busy || !sim::current()) return;
        std::vector<Held>& h = th(me()).held;
        for (size_t i = h.size(); i-- > 0; ) if (h[i].m == m) { h.erase(h.begin() + long(i)); break; }
    }
    void acquire_all()
    {
        if (!on) return;
        busy = true;
        uint32_t t = me(); th(t);
        for (size_t i = 0; i < threads.size(); ++i)
            if (i != t && threads[i].c.size() > i) { join(threads[t].c, threads[i].c); ++threads[i].c[i]; }
        busy = false;
    }
    void forked(uint64_t child)
    {
        if (!on) return;
        busy = true;
        uint32_t t = me();
        th(uint32_t(child));
        if (t) { th(t); join(threads[child].c, threads[t].c); ++threads[t].c[t]; }
        busy = false;
    }
    void sync(const void* k)
    {
        if (!on || !sim::current()) return;
        busy = true;
        clock& c = comps[k];
        uint32_t t = me(); Thread& x = th(t);
        join(x.c, c); join(c, x.c); ++x.c[t];
        busy = false;
    }
    void fresh(void* p, size_t n)
    {
        if (busy || !sim::current()) return;
        busy = true;
        if (!dead.empty())
        {
            auto d = dead.lower_bound(uintptr_t(p));
            if (d != dead.begin() && std::prev(d)->second.end > uintptr_t(p)) --d;
            while (d != dead.end() && d->first < uintptr_t(p) + n) d = dead.erase(d);
        }
        if (n > 65536) n = 65536;
        for (uintptr_t a = uintptr_t(p) >> 6; a <= (uintptr_t(p) + n - 1) >> 6; ++a)
        {
            auto i = shadow.find(a);
            if (i == shadow.end()) continue;
            std::vector<Cell>& v = i->second;
            v.erase(std::remove_if(v.begin(), v.end(), [&](const Cell& c)
            { uintptr_t x = (a << 6) + c.off; return x >= uintptr_t(p) && x < uintptr_t(p) + n; }), v.end());
        }
        busy = false;
    }
    void destroyed(const void* p, size_t n, const char* what)
    {
        if (!on || busy || !sim::current()) return;
        busy = true;
        const uint32_t t = me();
        Thread& x = th(t);
        Dead d; d.end = uintptr_t(p) + n; d.what = what;
        fill(d.by, t, x, 0);
        std::vector<Access> bad;
        for (uintptr_t a = uintptr_t(p) >> 6; a <= (uintptr_t(p) + n - 1) >> 6; ++a)
        {
            auto i = shadow.find(a);
            if (i == shadow.end()) continue;
            for (const Cell& c : i->second)
            {
                const uintptr_t q = (a << 6) + c.off;
                if (q < uintptr_t(p) || q >= d.end) continue;
                if (c.w.tid && c.w.tid != t && !before(c.w, x)) bad.push_back(c.w);
                for (const Access& r : c.r) if (r.tid != t && !before(r, x)) bad.push_back(r);
            }
        }
        dead[uintptr_t(p)] = d;
        busy = false;
        for (const Access& b : bad) report_dead(b, what, d.by, false);
    }
    void at(const void* a, bool rel)
    {
        if (!on || busy || !sim::current()) return;
        busy = true;
        clock& c = atomics[a];
        uint32_t t = me(); Thread& x = th(t);
        join(x.c, c);
        if (rel) { join(c, x.c); ++x.c[t]; }
        busy = false;
    }
    void enter(const void* pc) { if (!on || busy || !sim::current()) return; busy = true; Thread& x = th(me()); x.stack = call(x.stack, pc); busy = false; }
    void leave() { if (!on || busy || !sim::current()) return; Thread& x = th(me()); if (x.stack->up) x.stack = x.stack->up; }
}

extern "C"
{
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* p) { race::access(p, n, false, PC); } void __tsan_write##n(void* p) { race::access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { race::access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { race::access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { race::access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { race::access(p, n, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { race::access(p, n, false, PC); }
    void __tsan_write_range(void* p, size_t n) { race::access(p, n, true, PC); }
    void __tsan_vptr_update(void** p, void*) { race::access(p, 8, true, PC); }
    void __tsan_vptr_read(void** p) { race::access(p, 8, false, PC); }
    void __tsan_init(void) { }
    void __tsan_func_entry(void* pc) { race::enter(pc); }
    void __tsan_func_exit(void) { race::leave(); }
    void __tsan_atomic_thread_fence(int) { }
    void __tsan_atomic_signal_fence(int) { }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { race::at(const_cast<T*>(p), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { race::at(const_cast<T*>(p), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { race::at(const_cast<T*>(p), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { race::at(const_cast<T*>(p), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { race::at(const_cast<T*>(p), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
