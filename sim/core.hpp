// Deterministic simulation core: fibers, seeded scheduler, virtual time,
// decision stream, violations, event log.
#pragma once
#include "wsrep/mutex.hpp"
#include "wsrep/lock.hpp"
#include "wsrep/condition_variable.hpp"
#include "race.hpp"
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim
{
    typedef uint64_t usec_t;

    // ---- decision stream -------------------------------------------------
    // Every nondeterministic choice is one decision. Value 0 always stands
    // for the simplest alternative (no fault, no preemption).
    uint32_t choose(uint32_t n, const char* tag);           // uniform 0..n-1
    bool chance(double p, const char* tag);                 // true with prob p
    // Fault decision: as chance() but counted as an injected fault, and
    // always false after stop_faults().
    bool fault(double p, const char* kind);
    void stop_faults();
    bool faults_stopped();
    void note_fault(const char* kind);
    // Per run configuration number, drawn from decision stream as well.
    inline uint32_t range(uint32_t lo, uint32_t hi, const char* tag)
    { return lo + choose(hi - lo + 1, tag); }

    // ---- fibers ----------------------------------------------------------
    struct fiber;
    fiber* spawn(const std::string& name, int group, std::function<void()> fn);
    fiber* current();
    int current_group();
    void*& local();                  // one pointer per fiber
    const std::string& fiber_name(fiber*);
    uint64_t fiber_id(fiber*);
    bool fiber_done(fiber*);
    void kill_group(int group);      // crash: fibers never run again
    bool group_killed(int group);
    void yield_point(const char* tag);
    usec_t now();
    void sleep_us(usec_t us);
    uint64_t steps();
    [[noreturn]] void end_run();     // finishes the whole run

    // Wait queue: blocking primitive for models.
    class wait_queue
    {
    public:
        explicit wait_queue(const char* name) : name_(name) { }
        void wait();                          // until woken (or spurious)
        bool wait_for(usec_t us);             // false on timeout
        void wake_all();
        bool empty() const { return waiters_.empty(); }
        template <class P> void wait_until(P p) { while (!p()) wait(); }
        void remove(fiber*);
    private:
        const char* name_;
        std::vector<fiber*> waiters_;
        race::clock vc_;
    };

    class mutex : public wsrep::mutex
    {
    public:
        explicit mutex(const char* name = "mutex") : name_(name), owner_(0), wq_("mutex") { }
        void lock() WSREP_OVERRIDE;
        void unlock() WSREP_OVERRIDE;
        void* native() WSREP_OVERRIDE { return this; }
        bool held_by_current() const;
        bool held() const { return owner_ != 0; }
    private:
        friend class cond;
        const char* name_;
        fiber* owner_;
        wait_queue wq_;
        race::clock vc_;
    };

    class cond : public wsrep::condition_variable
    {
    public:
        cond() : waiters_("cond"), tokens_() { }
        void notify_one() WSREP_OVERRIDE;
        void notify_all() WSREP_OVERRIDE;
        void wait(wsrep::unique_lock<wsrep::mutex>& lock) WSREP_OVERRIDE;
    private:
        struct token { fiber* f; bool signalled; };
        wait_queue waiters_;
        std::vector<token*> tokens_;
    };

    // ---- observation -----------------------------------------------------
    // Append to event log (hashed always, text kept when tracing).
    void event(const std::string& s);
    struct ev_stream
    {
        std::ostringstream os;
        ~ev_stream() { event(os.str()); }
    };
#define SIM_EV(expr) do { ::sim::ev_stream ev__; ev__.os << expr; } while (0)
    void probe(const char* name);             // rare situation reached
    void probe(const std::string& name);
    void state_hash(uint64_t h);              // abstract state sample

    // Report a violation. tags: comma separated property ids or "*" for
    // failures which break any property (crash, assertion, deadlock).
    // If accepted by the running profile the run ends here, otherwise the
    // violation is counted as foreign and the run continues.
    void violation(const std::string& tags, const std::string& kind,
                   const std::string& detail);
    [[noreturn]] void fatal_violation(const std::string& kind,
                                      const std::string& detail);
#define SIM_CHECK(tags, kind, cond, detail) do { if (!(cond)) { \
        std::ostringstream os__; os__ << detail; \
        ::sim::violation(tags, kind, os__.str()); } } while (0)

    // ---- run control -----------------------------------------------------
    struct run_result
    {
        bool violated = false;
        std::string tags, kind, detail;
        uint64_t log_hash = 0;
        uint64_t sched_hash = 0;
        uint64_t steps = 0;
        usec_t sim_time = 0;
        uint64_t switches = 0;
        std::vector<uint16_t> decisions;
        std::map<std::string, uint64_t> probes;
        std::map<std::string, uint64_t> faults;
        std::map<std::string, uint64_t> foreign;
        std::vector<uint64_t> states;
        std::string trace;
        std::string nondet;
    };
    struct run_config
    {
        std::string prop;           // accepted tag
        std::set<std::string> accept;   // further accepted tags
        uint64_t seed = 0;
        const std::vector<uint16_t>* replay = 0;
        bool trace = false;
        uint64_t max_steps = 400000;
        std::string dump_file;      // where a crash handler dumps decisions
    };
    const run_config& config();
    run_result run(const run_config& cfg, std::function<void()> scenario);
    void install_crash_handler();
    uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL);
    void set_preempt(double p_yield, double p_bb);
    void allow_spurious(double p);
    void set_time_jump(double p);
    void set_cond_hook(std::function<void(fiber*)> fn);   // called when a fiber is about to wait for a condition
}
