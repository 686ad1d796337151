// Deterministic simulator core: the choice tape, the event log, and the seams.
//
// One run is a pure function of (code, tape). Every decision of a run - which task runs,
// which operation comes next, where a fault strikes, what the entropy source returns - is a
// call of choose(). In search mode choose() draws from a PRNG seeded by (VERIF_SEED, property,
// run index) and records the value; in replay mode it reads the recorded values, and 0 past
// their end. 0 always means the dullest outcome (no fault, no preemption, first alternative).
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim {

    // ---- decisions
    uint32_t choose(uint32_t n);                 // in [0,n)
    bool chance(uint32_t num, uint32_t den);     // true with probability num/den; tape 0 = false
    double rnd(double lo, double hi);            // 1001 grid values; tape 0 = lo

    // Now and then a run works with unusual magnitudes. 1: still tame enough for arithmetic, 2: anything admissible.
    inline int wild = 0;                         // 0 at the beginning of every run

    // ---- history
    void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // log without hashing
    void mix(uint64_t v);                        // into the history hash only
    void fault(const char* kind);                // a fault really fired
    void probe(const char* name);                // a rare condition was reached
    void component(const char* name);            // a piece of real code was exercised
    void step(uint64_t n = 1);                   // simulated time
    void nontrivial();                           // this run exercised what the property is about
    [[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void discard();                 // the generated case is outside the property: not counted

    // ---- allocation seam: operator new, and on request malloc of header-only libraries (Eigen's dense storage does not
    // survive a failing malloc: it frees the old buffer first and frees it again when unwinding)
    void alloc_include_malloc(bool on);
    // The k-th allocation (1 = first) from now on fails, and `burst` - 1 following ones too.
    void alloc_arm(long k, long burst = 1);
    // Disarms; returns how many allocations failed since alloc_arm.
    long alloc_disarm();
    long alloc_seen();                           // allocations since alloc_arm/alloc_count
    void alloc_reuse(bool on);                   // freed addresses are given out again at once (asan build)
    long live_blocks();                          // blocks allocated and not freed
    long live_bytes(); long live_heap();
    void peak_reset();                           // peak_bytes(): most bytes live since then
    long peak_bytes();
    struct Harness {                             // harness code inside a call: not subject to faults
        Harness(); ~Harness();
        int saved;
    };

    // ---- entropy seam (std::random_device) and clock seam
    void entropy_set(uint64_t base);             // the next values are a function of base
    void entropy_exact(uint32_t v);              // the next value is exactly v
    void entropy_fail(int n);                    // the next n uses throw
    long entropy_used();

    // ---- scheduler seam (only in the threaded build)
    typedef void (*TaskFn)(void*);
    void spawn(TaskFn f, void* arg);             // task becomes runnable; runs when scheduled
    void run_tasks();                            // run all spawned tasks to completion under the scheduler
    void yield_point();
    int task_id();
    uint64_t sched_switches();
    extern int sched_intensity;                  // 0 = only voluntary yields are scheduling points, 1.. = memory accesses

    // ---- run control
    struct Scenario { const char* prop; void (*fn)(); };
    extern Scenario scenarios[];                 // terminated by prop == nullptr
}
