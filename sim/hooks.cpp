// Seams below the library: allocator, entropy source, clock. Not instrumented, no STL containers.
#include "hot.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <random>
#include <stdexcept>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));   // also what malloc gave
extern "C" { void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak)); void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
    int __asan_address_is_poisoned(void const volatile*) __attribute__((weak)); void* __real_malloc(size_t); void __real_free(void*); }
namespace sim {
    static __thread int off = 0;              // > 0: harness code
    static __thread long seen = 0, arm_at = 0, arm_n = 0, fired = 0;
    static long blocks = 0, bytes = 0, peak = 0;

    static int malloc_too = 0;
    void alloc_include_malloc(bool on) { malloc_too = on; }
    static inline bool fail_now(bool is_new = true) {
        if (off > 0 || !(is_new || malloc_too)) return false;
        ++seen;
        if (arm_n > 0 && seen >= arm_at) { --arm_n; ++fired; return true; }
        return false;
    }
    void alloc_arm(long k, long burst) { seen = 0; arm_at = k; arm_n = k > 0 ? burst : 0; fired = 0; }
    long alloc_disarm() { arm_n = 0; const long f = fired; fired = 0; if (f) { fault("alloc-fail"); } return f; }
    long alloc_seen() { return seen; }
    long live_blocks() { return blocks; }
    long live_bytes() { return bytes; }
    // Address reuse: a new block takes the place of the one of that size freed last, as allocators do outside sanitizers.
    // Freed blocks stay poisoned meanwhile. One lock-free slot per size and place; other threads leave it alone.
    static const int PLACES = 48, SIZES = 257; static void* pool[SIZES][PLACES]; static int npool[SIZES]; static long pooled = 0; static int reuse = 0; static __thread int pool_main = 0;
    void alloc_reuse(bool on) { reuse = on; pool_main = 1; }
    static inline bool pooling() { return reuse && pool_main && __asan_poison_memory_region; }
    static inline void* take(size_t n) {
        const size_t b = (n + 7) / 8;
        if (!pooling() || b >= SIZES || !npool[b]) return nullptr;
        void* p = pool[b][npool[b] - 1];
        const size_t m = malloc_usable_size(p);
        if (m < n) return nullptr;
        --npool[b]; pooled -= m; __asan_unpoison_memory_region(p, m);
        return p;
    }
    static inline bool give(void* p) {
        if (!pooling() || !p) return false;
        const size_t m = malloc_usable_size(p), b = (m + 7) / 8;
        if (b >= SIZES || npool[b] >= PLACES) return false;
        pool[b][npool[b]++] = p; pooled += m; __asan_poison_memory_region(p, m);
        return true;
    }
    static inline bool freed_twice(void* p) { return reuse && p && __asan_address_is_poisoned && __asan_address_is_poisoned(p) && malloc_usable_size(p); }
    long live_heap() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() - pooled : bytes; }
    void peak_reset() { peak = bytes; }
    long peak_bytes() { return peak; }
    Harness::Harness() { saved = off; ++off; }
    Harness::~Harness() { off = saved; }

    static inline void* track(void* p) { if (p) { ++blocks; bytes += malloc_usable_size(p); if (bytes > peak) peak = bytes; } return p; }
    static inline void untrack(void* p) { if (p) { --blocks; bytes -= malloc_usable_size(p); } }

    // entropy
    static uint64_t ebase = 0x1234567, ecount = 0;
    static uint32_t eexact = 0; static bool ehas = false;
    static int efail = 0; static long eused = 0;
    static uint64_t clk = 1700000000ull * 1000000000ull;
    void entropy_set(uint64_t b) { ebase = b; ecount = 0; ehas = false; clk = (1700000000ull + (b & 0xffffff)) * 1000000000ull; }
    void entropy_exact(uint32_t v) { eexact = v; ehas = true; }
    void entropy_fail(int n) { efail = n; }
    long entropy_used() { return eused; }
    static uint32_t entropy_next() {
        ++eused;
        if (ehas) { ehas = false; return eexact; }
        uint64_t z = ebase + 0x9e3779b97f4a7c15ull * ++ecount;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return (uint32_t)(z ^ (z >> 31));
    }
    static void entropy_check() { if (efail > 0) { --efail; fault("entropy-fail"); throw std::runtime_error("simulated entropy failure"); } }
    struct Access { static uint32_t raw() { return entropy_next(); } static bool failing() { if (efail <= 0) return false; --efail; fault("entropy-fail"); return true; } static uint32_t get() { entropy_check(); return entropy_next(); } static void init() { entropy_check(); } };
    uint64_t sim_clock() { clk += 1000; return clk; }
    int clock_virtual = 0;
}

extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t); }
// ---- operator new / delete
static void* do_new(size_t n) {
    if (sim::fail_now()) throw std::bad_alloc();
    void* p = sim::take(n ? n : 1);
    if (!p) p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return sim::track(p);
}
static void do_delete(void* p) noexcept {
    if (sim::freed_twice(p)) sim::violate("memory:double-free", "a block is given back twice");
    sim::untrack(p);
    if (!sim::give(p)) __real_free(p);
}
static void* do_new_al(size_t n, size_t al) {
    if (sim::fail_now()) throw std::bad_alloc();
    void* p = nullptr;
    if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1)) throw std::bad_alloc();
    return sim::track(p);
}
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::fail_now() ? nullptr : sim::track(__real_malloc(n ? n : 1)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::fail_now() ? nullptr : sim::track(__real_malloc(n ? n : 1)); }
void* operator new(size_t n, std::align_val_t a) { return do_new_al(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new_al(n, (size_t)a); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

// ---- malloc of this program's own objects (header-only libraries such as Eigen): linked with --wrap
extern "C" {
    void* __wrap_malloc(size_t n) { if (sim::fail_now(false)) return nullptr; return sim::track(__real_malloc(n)); }
    void __wrap_free(void* p) { sim::untrack(p); __real_free(p); }
    void* __wrap_realloc(void* p, size_t n) {
        if (sim::fail_now(false)) return nullptr;
        sim::untrack(p); return sim::track(__real_realloc(p, n));
    }
    void* __wrap_calloc(size_t a, size_t b) { if (sim::fail_now(false)) return nullptr; return sim::track(__real_calloc(a, b)); }
}

// ---- std::random_device
namespace std {
    void random_device::_M_init(const std::string&) { sim::Access::init(); }
    void random_device::_M_init_pretr1(const std::string&) { sim::Access::init(); }
    void random_device::_M_fini() {}
    random_device::result_type random_device::_M_getval() { return sim::Access::get(); }
    random_device::result_type random_device::_M_getval_pretr1() { return sim::Access::get(); }
    double random_device::_M_getentropy() const noexcept { return 32.0; }
}

// ---- clocks
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (!sim::clock_virtual) return (int)syscall(SYS_clock_gettime, id, ts);
    const uint64_t t = sim::sim_clock();
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
    return 0;
}
extern "C" time_t time(time_t* t) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
// ---- other ways to the system entropy, and the process number
extern "C" ssize_t getrandom(void* p, size_t n, unsigned flags) {
    if (!sim::clock_virtual) return syscall(SYS_getrandom, p, n, flags);
    if (sim::Access::failing()) { errno = EIO; return -1; }
    for (size_t i = 0; i < n;) { const uint32_t v = sim::Access::raw(); const size_t k = n - i < 4 ? n - i : 4; memcpy((char*)p + i, &v, k); i += k; }
    return (ssize_t)n;
}
extern "C" int getentropy(void* p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
extern "C" pid_t getpid() noexcept { return sim::clock_virtual ? 4242 : (pid_t)syscall(SYS_getpid); }
