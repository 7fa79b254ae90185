// Happens-before data race detection over simulated threads (check C23).
// Active only in the simulator built with -fsanitize=thread instrumentation of
// the code under test (sim_race): its memory accesses arrive in the callbacks
// of race.cpp. Everywhere else these functions only maintain vector clocks if
// `on` is set.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace race
{
    typedef std::vector<uint32_t> clock;
    extern bool on;                       // run looks for races
    void begin();                         // new run
    void acquire(const clock& c);         // current thread has seen c
    void release(clock& c);               // what current thread did is published in c
    void acquire_all();                   // as if joined all threads
    void forked(uint64_t child);          // current thread started child
    void locking(const void* m, const char* name);   // before the lock is taken: lock order
    void unlocked(const void* m);
    void fresh(void* p, size_t n);        // memory was allocated
    // The object is destroyed by the current thread: accesses by other threads
    // must be ordered before it, and nobody may access it from now on.
    void destroyed(const void* p, size_t n, const char* what);
    // Synchronisation inside of a component which is a model here: everything
    // the thread did before is seen by threads which enter later.
    void sync(const void* component);
    struct scope { const void* c; explicit scope(const void* p) : c(p) { if (on) sync(c); } ~scope() { if (on) sync(c); } };
}
