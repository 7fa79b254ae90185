#include "core.hpp"
#include <boost/context/detail/fcontext.hpp>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <random>

namespace bc = boost::context::detail;

namespace sim
{
    static const size_t stack_size = 256 * 1024;
    struct eh_globals { void* caught; unsigned int uncaught; };

    struct fiber
    {
        uint64_t id;
        std::string name;
        int group;
        std::function<void()> fn;
        bc::fcontext_t ctx;
        void* stack;
        bool runnable, done, killed, started;
        bool timed; usec_t wake_at; bool timed_out;
        wait_queue* wq;
        const char* where;
        eh_globals eh;
        void* local = 0;
    };

    namespace
    {
        struct state_t
        {
            run_config cfg;
            run_result res;
            std::mt19937_64 rng;
            size_t replay_pos;
            std::vector<fiber*> fibers;   // all alive, by id
            fiber* cur;
            bc::fcontext_t main_ctx;
            eh_globals main_eh;
            usec_t now;
            bool active, ended;
            bool faults_stopped;
            double p_yield, p_bb, p_spurious, p_jump;
            std::function<void(fiber*)> cond_hook;
            uint64_t bb_count, bb_next;
            int in_sim;
            uint64_t next_id;
            std::set<int> killed_groups;
            int policy; fiber* favoured;
            std::vector<uint32_t> prio;
        };
        state_t* S = 0;
        std::vector<void*> stack_pool;
        const size_t arena_size = 512 * stack_size;
        std::vector<char*> arenas;
        char* arena = 0;
        size_t arena_used = arena_size;
        char dump_path[512];

        eh_globals* eh() { return reinterpret_cast<eh_globals*>(abi::__cxa_get_globals()); }

        void* get_stack()
        {
            if (!stack_pool.empty())
            { void* s = stack_pool.back(); stack_pool.pop_back(); return s; }
            if (arena_used == arena_size)
            {
                arena = static_cast<char*>(mmap(0, arena_size, PROT_READ|PROT_WRITE,
                                                MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0));
                if (arena == MAP_FAILED) { perror("mmap"); _exit(3); }
                arenas.push_back(arena);
                arena_used = 0;
            }
            void* p = arena + arena_used;
            arena_used += stack_size;
            mprotect(p, 4096, PROT_NONE);
            return p;
        }

        uint16_t decide(uint32_t n, const char* tag, std::function<uint32_t()> gen)
        {
            (void)tag;
            uint32_t v;
            if (S->cfg.replay)
            {
                v = S->replay_pos < S->cfg.replay->size() ? (*S->cfg.replay)[S->replay_pos] : 0;
                ++S->replay_pos;
                if (v >= n) v = n - 1;
            }
            else v = gen();
            S->res.decisions.push_back(uint16_t(v));
            return uint16_t(v);
        }

        // bare rng helper
        double frand() { return double(S->rng() >> 11) / double(1ULL << 53); }

        void switch_to_main()
        {
            fiber* f = S->cur;
            const int err = errno;
            f->eh = *eh();
            *eh() = S->main_eh;
            bc::transfer_t t = bc::jump_fcontext(S->main_ctx, 0);
            errno = err;
            // resumed
            S->main_ctx = t.fctx;
            S->main_eh = *eh();
            *eh() = f->eh;
        }
        void fiber_main(bc::transfer_t t)
        {
            S->main_ctx = t.fctx;
            fiber* f = static_cast<fiber*>(t.data);
            S->main_eh = *eh();
            *eh() = f->eh;
            try { f->fn(); }
            catch (const std::exception& e)
            { fatal_violation("uncaught-exception", std::string(e.what()) + " in " + f->name); }
            catch (...)
            { fatal_violation("uncaught-exception", "unknown in " + f->name); }
            f->done = true; f->runnable = false;
            for (;;) switch_to_main();
        }
        // Give control back to scheduler; current fiber stays runnable or not.
        void reschedule(const char* where)
        {
            fiber* f = S->cur;
            f->where = where;
            switch_to_main();
        }
        void hash_mix(uint64_t& h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); }
        void arm_bb()
        {
            // Distance in executed basic blocks to the next forced yield.
            S->bb_next = 0;
            if (S->p_bb <= 0) return;
            uint16_t v = decide(120, "bb", [] { return frand() < S->p_bb ? 1 + S->rng() % 119 : 0; });
            if (v) { double d = 1; for (int i = 0; i < v; ++i) d *= 1.12; S->bb_next = S->bb_count + 20 + uint64_t(d); }
        }
    }

    uint64_t hash_str(const std::string& s, uint64_t h)
    { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

    bool on_fiber_stack(const void* p)
    {
        const char* c = static_cast<const char*>(p);
        for (char* a : arenas) if (c >= a && c < a + arena_size) return true;
        return false;
    }
    const run_config& config() { return S->cfg; }
    uint32_t choose(uint32_t n, const char* tag)
    {
        if (n <= 1) return 0;
        return decide(n, tag, [n] { return uint32_t(S->rng() % n); });
    }
    bool chance(double p, const char* tag)
    {
        if (p <= 0) return false;
        return decide(2, tag, [p] { return frand() < p ? 1u : 0u; });
    }
    bool fault(double p, const char* kind)
    {
        if (S->faults_stopped || p <= 0) return false;
        bool r = chance(p, kind);
        if (r) note_fault(kind);
        return r;
    }
    void note_fault(const char* kind)
    { ++S->res.faults[kind]; SIM_EV("FAULT " << kind); }
    void stop_faults() { S->faults_stopped = true; S->p_spurious = 0; S->p_jump = 0; }
    bool faults_stopped() { return S->faults_stopped; }
    void set_preempt(double y, double bb) { S->p_yield = y; S->p_bb = bb; arm_bb(); }
    void set_cond_hook(std::function<void(fiber*)> fn) { S->cond_hook = fn; }
    void allow_spurious(double p) { S->p_spurious = p; }
    void set_time_jump(double p) { S->p_jump = p; }

    fiber* spawn(const std::string& name, int group, std::function<void()> fn)
    {
        fiber* f = new fiber();
        f->id = ++S->next_id; f->name = name; f->group = group; f->fn = fn;
        f->stack = get_stack();
        f->ctx = bc::make_fcontext(static_cast<char*>(f->stack) + stack_size, stack_size - 4096, fiber_main);
        f->runnable = true; f->done = f->killed = f->started = false;
        f->timed = false; f->wq = 0; f->where = "start";
        f->eh.caught = 0; f->eh.uncaught = 0;
        S->fibers.push_back(f);
        race::forked(f->id);
        SIM_EV("spawn " << name);
        return f;
    }
    fiber* current() { return S ? S->cur : 0; }
    void*& local() { static void* none; return S->cur ? S->cur->local : none; }
    int current_group() { return S->cur ? S->cur->group : -1; }
    const std::string& fiber_name(fiber* f) { return f->name; }
    uint64_t fiber_id(fiber* f) { return f->id; }
    bool fiber_done(fiber* f) { return f->done; }
    bool group_killed(int g) { return S->killed_groups.count(g) != 0; }
    void kill_group(int group)
    {
        S->killed_groups.insert(group);
        bool self = false;
        for (fiber* f : S->fibers)
        {
            if (f->group != group || f->done) continue;
            f->killed = true; f->runnable = false; f->timed = false;
            if (f == S->cur) self = true;
        }
        if (self) for (;;) switch_to_main();
    }
    usec_t now() { return S->now; }
    uint64_t steps() { return S->res.steps; }

    void end_run()
    {
        S->ended = true;
        if (S->cur) for (;;) switch_to_main();
        abort();
    }

    void yield_point(const char* tag)
    {
        if (!S || !S->cur || S->ended) return;
        S->bb_next = 0; // no nested preemption before rescheduling
        reschedule(tag);
    }

    void sleep_us(usec_t us)
    {
        fiber* f = S->cur;
        f->timed = true; f->wake_at = S->now + us; f->runnable = false; f->timed_out = false;
        reschedule("sleep");
        race::acquire_all();
    }
    void wait_queue::remove(fiber* f)
    { waiters_.erase(std::remove(waiters_.begin(), waiters_.end(), f), waiters_.end()); }
    void wait_queue::wait()
    {
        fiber* f = S->cur;
        waiters_.push_back(f); f->wq = this; f->runnable = false;
        reschedule(name_);
        f->wq = 0;
        race::acquire(vc_);
    }
    bool wait_queue::wait_for(usec_t us)
    {
        fiber* f = S->cur;
        waiters_.push_back(f); f->wq = this; f->runnable = false;
        f->timed = true; f->wake_at = S->now + us; f->timed_out = false;
        reschedule(name_);
        f->wq = 0; f->timed = false;
        if (f->timed_out) race::acquire_all(); else race::acquire(vc_);
        return !f->timed_out;
    }
    void wait_queue::wake_all()
    {
        for (fiber* f : waiters_) { if (!f->killed) { f->runnable = true; f->timed = false; } }
        waiters_.clear();
        race::release(vc_);
    }

    void mutex::lock()
    {
        if (!S || !S->cur) return;   // outside of simulation
        yield_point("lock");
        if (owner_ == S->cur) fatal_violation("self-deadlock", std::string("mutex ") + name_ + " locked twice by " + S->cur->name);
        race::locking(this, name_);
        while (owner_) wq_.wait();
        owner_ = S->cur;
        race::acquire(vc_);
    }
    void mutex::unlock()
    {
        if (!S || !S->cur) return;
        if (owner_ != S->cur) fatal_violation("bad-unlock", std::string("mutex ") + name_ + " unlocked by non owner " + S->cur->name);
        owner_ = 0;
        race::unlocked(this);
        race::release(vc_);
        wq_.wake_all();
        yield_point("unlock");
    }
    bool mutex::held_by_current() const { return owner_ == S->cur; }

    void cond::notify_one()
    {
        if (!S || !S->cur) return;
        if (tokens_.empty()) return;
        uint32_t i = choose(uint32_t(tokens_.size()), "notify_one");
        tokens_[i]->signalled = true;
        tokens_.erase(tokens_.begin() + i);
        waiters_.wake_all();
    }
    void cond::notify_all()
    {
        if (!S || !S->cur) return;
        for (token* t : tokens_) t->signalled = true;
        tokens_.clear();
        waiters_.wake_all();
    }
    void cond::wait(wsrep::unique_lock<wsrep::mutex>& lock)
    {
        sim::mutex* m = static_cast<sim::mutex*>(lock.mutex());
        if (m->owner_ != S->cur) fatal_violation("bad-cond-wait", "cond wait without mutex in " + S->cur->name);
        token t = { S->cur, false };
        if (S->cond_hook) S->cond_hook(S->cur);
        race::unlocked(m);
        race::release(m->vc_);
        if (!S->faults_stopped && S->p_spurious > 0 && chance(S->p_spurious, "spurious"))
        {
            note_fault("spurious-wakeup");
            m->owner_ = 0; m->wq_.wake_all();
            yield_point("spurious");
        }
        else
        {
            tokens_.push_back(&t);
            m->owner_ = 0; m->wq_.wake_all();
            while (!t.signalled) waiters_.wait();
        }
        race::locking(m, m->name_);
        while (m->owner_) m->wq_.wait();
        m->owner_ = S->cur;
        race::acquire(m->vc_);
    }

    void event(const std::string& s)
    {
        if (!S) return;
        S->res.log_hash = hash_str(s, S->res.log_hash ^ (S->cur ? S->cur->id : 0));
        if (S->cfg.trace)
        {
            std::ostringstream os;
            os << S->res.steps << " t=" << S->now << " [" << (S->cur ? S->cur->name : "-") << "] " << s << "\n";
            S->res.trace += os.str();
            static bool live = getenv("SIM_LIVE") != 0;
            if (live) fputs(os.str().c_str(), stderr);
        }
    }
    void probe(const char* name) { ++S->res.probes[name]; }
    void probe(const std::string& name) { ++S->res.probes[name]; }
    void state_hash(uint64_t h) { if (S->res.states.size() < 4000) S->res.states.push_back(h); }

    static bool accepted(const std::string& tags)
    {
        if (tags == "*") return true;
        std::istringstream is(tags);
        std::string t;
        while (std::getline(is, t, ','))
            if (t == S->cfg.prop || S->cfg.accept.count(t)) return true;
        return false;
    }
    void violation(const std::string& tags, const std::string& kind, const std::string& detail)
    {
        SIM_EV("VIOLATION " << tags << " " << kind << ": " << detail);
        if (!accepted(tags)) { ++S->res.foreign[tags + ":" + kind]; return; }
        if (!S->res.violated)
        {
            S->res.violated = true; S->res.tags = tags; S->res.kind = kind; S->res.detail = detail;
        }
        end_run();
    }
    void fatal_violation(const std::string& kind, const std::string& detail)
    {
        SIM_EV("VIOLATION * " << kind << ": " << detail);
        if (!S->res.violated)
        {
            S->res.violated = true; S->res.tags = "*"; S->res.kind = kind; S->res.detail = detail;
        }
        end_run();
    }

    static void crash_handler(int sig)
    {
        // Dump decisions so that the run can be replayed.
        if (S && dump_path[0])
        {
            int fd = ::open(dump_path, O_WRONLY|O_CREAT|O_TRUNC, 0644);
            if (fd >= 0)
            {
                size_t n = S->res.decisions.size() * 2;
                ssize_t r = ::write(fd, S->res.decisions.data(), n); (void)r;
                ::close(fd);
            }
        }
        _exit(100 + sig);
    }
    void install_crash_handler()
    {
        static char alt[65536];
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
        sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK;
        int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
        for (int s : sigs) sigaction(s, &sa, 0);
    }

    run_result run(const run_config& cfg, std::function<void()> scenario)
    {
        state_t st;
        st.cfg = cfg; st.rng.seed(cfg.seed * 0x9E3779B97F4A7C15ULL + 12345);
        st.replay_pos = 0; st.cur = 0; st.now = 1000000; st.active = true; st.ended = false;
        st.faults_stopped = false; st.p_yield = 0.1; st.p_bb = 0; st.p_spurious = 0; st.p_jump = 0;
        st.bb_count = st.bb_next = 0; st.in_sim = 0; st.next_id = 0; st.favoured = 0;
        st.res.log_hash = 7;
        S = &st;
        if (race::on) race::begin();
        snprintf(dump_path, sizeof dump_path, "%s", cfg.dump_file.c_str());
        spawn("main", 0, scenario);
        fiber* last = 0;
        std::vector<fiber*> cand;
        while (!st.ended)
        {
            if (st.fibers[0]->done) break;
            // timers
            bool any = false;
            for (fiber* f : st.fibers)
            {
                if (f->timed && f->wake_at <= st.now)
                {
                    f->timed = false; f->timed_out = true; f->runnable = true;
                    if (f->wq) f->wq->remove(f);
                }
                if (f->runnable) any = true;
            }
            if (!any)
            {
                fiber* e = 0;
                for (fiber* f : st.fibers)
                    if (f->timed && (!e || f->wake_at < e->wake_at)) e = f;
                if (!e)
                {
                    std::ostringstream os;
                    for (fiber* f : st.fibers)
                        if (!f->done && !f->killed) os << f->name << "@" << f->where << " ";
                    SIM_EV("DEADLOCK " << os.str());
                    if (!st.res.violated)
                    { st.res.violated = true; st.res.tags = "*"; st.res.kind = "deadlock"; st.res.detail = os.str(); }
                    break;
                }
                if (e->wake_at > st.now) st.now = e->wake_at;
                continue;
            }
            cand.clear();
            if (last && last->runnable) cand.push_back(last);
            for (fiber* f : st.fibers) if (f->runnable && f != last) cand.push_back(f);
            fiber* next = cand[0];
            if (cand.size() > 1)
            {
                bool keep = (cand[0] == last);
                uint32_t n = uint32_t(cand.size());
                uint16_t v = decide(n, "sched", [&]() -> uint32_t {
                    if (keep) { if (frand() >= st.p_yield) return 0; return 1 + st.rng() % (n - 1); }
                    return st.rng() % n; });
                next = cand[v];
            }
            if (next != last) { ++st.res.switches; hash_mix(st.res.sched_hash, next->id * 131 + hash_str(next->where)); }
            last = next;
            ++st.res.steps;
            st.now += 1;
            if (st.p_jump > 0 && !st.faults_stopped)
            {
                if (decide(2, "jump", [&] { return frand() < st.p_jump ? 1u : 0u; }))
                { st.now += 200000; ++st.res.faults["clock-jump"]; }
            }
            if (st.res.steps > cfg.max_steps)
            {
                std::ostringstream os;
                for (fiber* f : st.fibers) if (!f->done && !f->killed) os << f->name << "@" << f->where << " ";
                if (!st.res.violated)
                { st.res.violated = true; st.res.tags = "*"; st.res.kind = "no-progress"; st.res.detail = os.str(); }
                break;
            }
            st.cur = next;
            if (!st.bb_next && st.p_bb > 0) arm_bb();
            st.main_eh = *eh();
            bc::transfer_t t = bc::jump_fcontext(next->ctx, next);
            next->ctx = t.fctx;
            st.cur = 0;
            if (next->done)
            {
                stack_pool.push_back(next->stack); next->stack = 0;
                if (next != st.fibers[0])
                    st.fibers.erase(std::find(st.fibers.begin(), st.fibers.end(), next));
                if (last == next) last = 0;
            }
        }
        for (fiber* f : st.fibers) if (f->stack) stack_pool.push_back(f->stack);
        st.res.sim_time = st.now - 1000000;
        run_result r = st.res;
        S = 0;
        return r;
    }
}

using sim::S;
extern "C"
{
    void sim_assert_fail(const char* e, const char* file, int line, const char* fn)
    {
        std::ostringstream os;
        const char* b = strrchr(file, '/');
        os << (b ? b + 1 : file) << ":" << line << " " << e << " in " << fn;
        if (!S || !S->cur) { fprintf(stderr, "assert outside simulation: %s\n", os.str().c_str()); abort(); }
        sim::fatal_violation("assertion", os.str());
    }
    // Basic block hook (code under test only): forced preemption.
    void __sanitizer_cov_trace_pc(void);
    void __sanitizer_cov_trace_pc(void)
    {
        if (!S || !S->cur) return;
        ++S->bb_count;
        if (S->bb_next && S->bb_count >= S->bb_next && !S->ended)
        {
            S->bb_next = 0;
            ++S->res.probes["preempt-bb"];
            sim::yield_point("bb");
        }
    }
    // Wrapped sources of nondeterminism.
    pthread_t __real_pthread_self(void);
    pthread_t __wrap_pthread_self(void)
    { return (S && S->cur) ? pthread_t(S->cur->id + 1000) : __real_pthread_self(); }
    int __real_usleep(useconds_t);
    int __wrap_usleep(useconds_t us)
    { if (S && S->cur) { sim::sleep_us(us); return 0; } return __real_usleep(us); }
    int __real_nanosleep(const struct timespec*, struct timespec*);
    int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
    { if (S && S->cur) { sim::sleep_us(a->tv_sec * 1000000ULL + a->tv_nsec / 1000); return 0; } return __real_nanosleep(a, b); }
    int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
    int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b)
    {
        if (S && S->cur)
        {
            uint64_t us = a->tv_sec * 1000000ULL + a->tv_nsec / 1000;
            if (f) us = us > S->now ? us - S->now : 0;
            sim::sleep_us(us); return 0;
        }
        return __real_clock_nanosleep(c, f, a, b);
    }
    int __real_clock_gettime(clockid_t, struct timespec*);
    int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
    {
        if (S && S->cur)
        {
            uint64_t base = (c == CLOCK_REALTIME) ? 1700000000ULL * 1000000ULL : 0;
            ts->tv_sec = (base + S->now) / 1000000; ts->tv_nsec = ((base + S->now) % 1000000) * 1000;
            return 0;
        }
        return __real_clock_gettime(c, ts);
    }
    int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv(void);
    int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void)
    { if (S && S->cur) return int64_t(S->now) * 1000; return __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
    int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(void);
    int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv(void)
    { if (S && S->cur) return (1700000000LL * 1000000LL + int64_t(S->now)) * 1000; return __real__ZNSt6chrono3_V212system_clock3nowEv(); }
}
