// Threaded build: every thread is a task of one scheduler, exactly one runs at a time, and who runs next is a
// decision on the tape. The code under test is compiled with -fsanitize=thread, but instead of the sanitizer's
// runtime this file provides the instrumentation's entry points: each memory access outside the own stack, each
// atomic operation, lock, static-initialisation guard and thread operation is an event at which the scheduler may
// preempt. A vector-clock happens-before detector over the same events reports data races. Not instrumented, no STL.
#include "hot.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
extern "C" char __executable_start;
extern "C" char __libc_single_threaded;

namespace sim {
    constexpr int MAXT = 8;
    constexpr size_t STACK = 4u << 20;
    constexpr uint64_t EVENT_CAP = 60000000;
    int sched_intensity = 0;

    struct VC { uint32_t c[MAXT]; };
    static inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

    enum State { FREE, RUNNABLE, BLOCKED, TIMED, DONE };
    struct TlsDtor { void (*f)(void*); void* obj; TlsDtor* next; };
    struct Task {
        int state; const void* waiting; bool timed_out;
        VC vc; char *lo, *hi; sem_t go; pthread_t th; bool detached, joined, fenced;
        TaskFn f; void* arg; void* (*start)(void*); void* ret; TlsDtor* dtors;
        char* stack;
    };
    static Task T[MAXT];
    static int cur = -1, alive = 0;
    static bool active = false;
    static int64_t gap = 0;
    static uint64_t events = 0, nswitch = 0;
    static VC fencevc;
    static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static int (*real_join)(pthread_t, void**);

    // ---- shadow memory: one cell per 4 bytes, the last access of each kind by each task
    struct Cell {
        uint32_t w[MAXT], r[MAXT], wpc[MAXT], rpc[MAXT];
        uint8_t wm[MAXT], rm[MAXT];          // low 4 bits: bytes, bit 7: plain (not atomic)
    };
    struct Sync { const void* addr; VC vc; int owner, rec, readers; Sync* next; };
    struct Page { uint64_t no; Sync* syncs; Cell cell[1024]; };
    constexpr uint32_t NPT = 1u << 16;
    static Page* pt[NPT];
    static char *arena = nullptr, *arena_end = nullptr;
    static void* raw(size_t n) {
        n = (n + 63) & ~63ull;
        if (arena == nullptr || arena + n > arena_end) {
            const size_t c = n > (32u << 20) ? n : (32u << 20);
            arena = (char*)mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (arena == MAP_FAILED) violate("harness:shadow", "no memory for the shadow");
            arena_end = arena + c;
        }
        void* p = arena; arena += n; return p;
    }
    static Page* page(uint64_t addr, bool make) {
        const uint64_t no = addr >> 12;
        uint32_t h = (uint32_t)((no * 0x9e3779b97f4a7c15ull) >> 48) & (NPT - 1);
        for (uint32_t k = 0; k < NPT; ++k, h = (h + 1) & (NPT - 1)) {
            if (!pt[h]) {
                if (!make) return nullptr;
                pt[h] = (Page*)raw(sizeof(Page)); pt[h]->no = no; return pt[h];
            }
            if (pt[h]->no == no) return pt[h];
        }
        violate("harness:shadow", "shadow table full");
    }
    static Sync* sync_of(const void* a) {
        Page* p = page((uint64_t)a, true);
        for (Sync* s = p->syncs; s; s = s->next) if (s->addr == a) return s;
        Sync* s = (Sync*)raw(sizeof(Sync));
        for (size_t i = 0; i < sizeof *s; ++i) ((volatile char*)s)[i] = 0;
        s->addr = a; s->owner = -1; s->next = p->syncs; p->syncs = s;
        return s;
    }
    static void forget(const void* a, size_t n) {        // the memory is new: nothing happened to it yet
        if (!active || !a) return;
        uint64_t b = (uint64_t)a & ~3ull; const uint64_t e = ((uint64_t)a + n + 3) & ~3ull;
        while (b < e) {
            const uint64_t pe = (b | 4095) + 1, stop = pe < e ? pe : e;
            if (Page* p = page(b, false)) {
                for (uint64_t x = b; x < stop; x += 4) {
                    Cell& c = p->cell[(x & 4095) >> 2];
                    for (int i = 0; i < MAXT; ++i) { c.w[i] = c.r[i] = 0; c.wm[i] = c.rm[i] = 0; }
                }
                for (Sync** s = &p->syncs; *s;) if ((uint64_t)(*s)->addr >= b && (uint64_t)(*s)->addr < stop) *s = (*s)->next; else s = &(*s)->next;
            }
            b = stop;
        }
    }
    [[noreturn]] static void race(const char* what, int u, uint32_t pu, const char* how, uint32_t pc, size_t size) {
        violate("data-race", "data race: task %d %s %zu bytes at +0x%x, unordered with task %d %s at +0x%x", cur, how, size, pc, u, what, pu);
    }
    static void touch(const void* addr, size_t size, bool write, bool atomic, uint32_t pc) {
        uint64_t a = (uint64_t)addr; const uint64_t e = a + size;
        const int me = cur; const VC& vc = T[me].vc; const uint32_t now = vc.c[me];
        while (a < e) {
            Page* p = page(a, true);
            const uint64_t pe = (a | 4095) + 1, stop = pe < e ? pe : e;
            while (a < stop) {
                Cell& c = p->cell[(a & 4095) >> 2];
                const uint64_t ce = (a | 3) + 1, to = ce < stop ? ce : stop;
                const uint8_t m = (uint8_t)(((1u << (to - a)) - 1) << (a & 3));
                const uint8_t full = m | (atomic ? 0 : 0x80);
                for (int u = 0; u < MAXT; ++u) {
                    if (u == me) continue;
                    if ((c.wm[u] & m) && c.w[u] > vc.c[u] && (!atomic || (c.wm[u] & 0x80))) race("writing", u, c.wpc[u], write ? "writes" : "reads", pc, size);
                    if (write && (c.rm[u] & m) && c.r[u] > vc.c[u] && (!atomic || (c.rm[u] & 0x80))) race("reading", u, c.rpc[u], "writes", pc, size);
                }
                uint32_t* k = write ? c.w : c.r; uint8_t* km = write ? c.wm : c.rm; uint32_t* kp = write ? c.wpc : c.rpc;
                if (k[me] == now) km[me] |= full; else { k[me] = now; km[me] = full; }
                kp[me] = pc;
                a = to;
            }
        }
    }

    // ---- scheduling
    static int runnable(int* out) {
        int n = 0;
        for (int i = 0; i < MAXT; ++i) { const int t = (cur + i + MAXT) % MAXT; if (T[t].state == RUNNABLE) out[n++] = t; }
        if (!n) for (int i = 0; i < MAXT; ++i) { const int t = (cur + i + MAXT) % MAXT; if (T[t].state == TIMED) out[n++] = t; }
        return n;
    }
    static void draw_gap() {
        static const int lim[] = {0, 3000, 400, 60, 8};
        int64_t g = lim[sched_intensity > 4 ? 4 : sched_intensity < 0 ? 0 : sched_intensity];
        if (nswitch > 400) g *= 10;
        if (nswitch > 4000) g *= 10;
        const uint32_t v = g ? choose(64) : 0;
        gap = v ? 1 + (int64_t)v * g / 32 : 12000;
    }
    static int zombie = -1;
    static void reap() {                // a finished thread's last instructions happen before anything else does
        if (zombie < 0) return;
        real_join(T[zombie].th, nullptr); zombie = -1;
    }
    static void go_to(int t) {          // hand the baton over and wait for it
        const int me = cur;
        if (t == me) return;
        ++nswitch; sh->switches = nswitch;
        mix(((uint64_t)t << 48) ^ events);
        cur = t;
        if (T[me].state == DONE) { zombie = me; sem_post(&T[t].go); return; }
        sem_post(&T[t].go);
        while (sem_wait(&T[me].go)) {}
        reap();
    }
    static void wake_state(int t) { if (T[t].state == TIMED) { T[t].timed_out = true; T[t].state = RUNNABLE; } }
    static void preempt(bool forced) {
        int o[MAXT]; const int n = runnable(o);
        if (n <= 1) { draw_gap(); return; }
        const int t = forced ? o[1 + choose(n - 1)] : o[choose(n)];
        draw_gap();
        if (t != cur) go_to(t);
    }
    static inline void event(int weight) {
        ++events;
        if ((gap -= weight) <= 0) {
            if (events > EVENT_CAP) violate("livelock", "the tasks made %llu steps without finishing", (unsigned long long)events);
            preempt(sched_intensity == 0);
        }
    }
    static const char* dead_text(char* b, size_t n) {
        int k = 0; b[0] = 0;
        for (int i = 0; i < MAXT; ++i) if (T[i].state == BLOCKED) k += snprintf(b + k, n - k, " task %d", i);
        return b;
    }
    static void pick_next() {            // the current task cannot go on
        int o[MAXT]; const int n = runnable(o);
        if (!n) { char b[200]; violate("deadlock", "every task waits for another:%s", dead_text(b, sizeof b)); }
        const int t = o[choose(n)];
        wake_state(t);
        draw_gap();
        go_to(t);
    }
    static void block_on(const void* what, bool timed = false) {
        T[cur].state = timed ? TIMED : BLOCKED; T[cur].waiting = what; T[cur].timed_out = false;
        pick_next();
        T[cur].waiting = nullptr;
    }
    static void wake(const void* what, bool one = false) {
        int o[MAXT], n = 0;
        for (int i = 0; i < MAXT; ++i) if ((T[i].state == BLOCKED || T[i].state == TIMED) && T[i].waiting == what) o[n++] = i;
        if (one && n) { T[o[choose(n)]].state = RUNNABLE; return; }
        for (int i = 0; i < n; ++i) T[o[i]].state = RUNNABLE;
    }
    static inline void acquire(Sync* s) { join(T[cur].vc, s->vc); }
    static inline void release(Sync* s) { join(s->vc, T[cur].vc); T[cur].vc.c[cur]++; }
    static inline bool live() { return active && alive > 1; }

    static void acc(const void* a, size_t n, bool w, uint32_t pc) {
        if (!live()) return;
        const char* p = (const char*)a; const Task& t = T[cur];
        if (p >= t.lo && p < t.hi) return;
        event(1);
        touch(a, n, w, false, pc);
    }

    // ---- tasks
    static void* body(void* x) {
        Task& t = *(Task*)x; const int id = (int)(&t - T);
        while (sem_wait(&t.go)) {}
        reap();
        try {
            if (t.start) t.ret = t.start(t.arg); else t.f(t.arg);
        } catch (...) { violate("exception", "an exception left task %d", id); }
        while (TlsDtor* d = t.dtors) { t.dtors = d->next; d->f(d->obj); }
        release(sync_of(&t));
        t.state = DONE; --alive;
        sh->steps += events; events = 0;
        wake(&t);
        if (t.detached) t.joined = true;
        pick_next();
        return t.ret;
    }
    static int create(void* (*start)(void*), TaskFn f, void* arg) {
        int id = -1;
        for (int i = 1; i < MAXT && id < 0; ++i) if (T[i].state == FREE || (T[i].state == DONE && T[i].joined)) id = i;
        if (id < 0) return -1;
        Task& t = T[id];
        const uint32_t own = t.vc.c[id];
        t.start = start; t.f = f; t.arg = arg; t.detached = t.joined = t.fenced = false; t.dtors = nullptr; t.ret = nullptr;
        t.vc = T[cur].vc; if (own > t.vc.c[id]) t.vc.c[id] = own;
        t.vc.c[id]++; T[cur].vc.c[cur]++;
        if (!t.stack) {
            t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            t.lo = t.stack; t.hi = t.stack + STACK;
            sem_init(&t.go, 0, 0);
        } else forget(t.stack, STACK);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t.stack, STACK);
        t.state = RUNNABLE; ++alive;
        const int r = real_create(&t.th, &at, body, &t);
        pthread_attr_destroy(&at);
        if (r) violate("harness:thread", "pthread_create failed: %d", r);
        return id;
    }
    static void join_task(int id) {
        Task& t = T[id];
        while (t.state != DONE) block_on(&t);
        acquire(sync_of(&t));
        t.joined = true;
    }
    void sched_begin() {
        real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
        real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
        __libc_single_threaded = 0;
        Task& t = T[0]; t.state = RUNNABLE; t.vc.c[0] = 1; alive = 1; cur = 0;
        sem_init(&t.go, 0, 0);
        char* here = (char*)__builtin_frame_address(0);
        t.lo = here - (8u << 20); t.hi = here + (1u << 20);
        t.th = pthread_self();
        gap = 12000;
        active = true;
    }
    void spawn(TaskFn f, void* arg) { if (create(nullptr, f, arg) < 0) violate("harness:tasks", "too many tasks"); }
    void run_tasks() {
        for (int i = 1; i < MAXT; ++i) if (T[i].state != FREE && !T[i].joined) join_task(i);
        sh->steps += events; events = 0;
    }
    void yield_point() { if (live()) event(10); }
    int task_id() { return cur < 0 ? 0 : cur; }
    uint64_t sched_switches() { return nswitch; }
}
using namespace sim;
#define PC ((uint32_t)((char*)__builtin_return_address(0) - &__executable_start))

extern "C" {
// ---- memory
void* __real_malloc(size_t n) { void* p = __libc_malloc(n); if (p && live()) forget(p, malloc_usable_size(p)); return p; }
void __real_free(void* p) { __libc_free(p); }
void* __real_calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && live()) forget(p, malloc_usable_size(p)); return p; }
void* __real_realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p && live()) forget(p, malloc_usable_size(p)); return p; }
void* malloc(size_t n) { return __real_malloc(n); }
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void* realloc(void* q, size_t n) { return __real_realloc(q, n); }
void* memalign(size_t al, size_t n) { void* p = __libc_memalign(al, n); if (p && live()) forget(p, malloc_usable_size(p)); return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }

// ---- instrumentation: plain accesses
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc(a, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc(p, sizeof *p, true, PC); }   // also if unchanged: old memory must not decide
void __tsan_vptr_read(void** p) { acc(p, sizeof *p, false, PC); }

// ---- instrumentation: atomics (memory order: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst)
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4 || T[cur].fenced; }
static inline bool is_rel(int mo) { return mo >= 3 || T[cur].fenced; }
static inline void before_atomic(const volatile void* a, size_t n, bool w, uint32_t pc) {
    if (!live()) return;
    event(8);
    touch((const void*)a, n, w, true, pc);
}
static inline void after_load(const volatile void* a, int mo) { if (live() && is_acq(mo)) acquire(sync_of((const void*)a)); }
static inline void before_store(const volatile void* a, int mo) { if (active && is_rel(mo)) release(sync_of((const void*)a)); }
#define RMW(b, ty, name, builtin) \
    ty __tsan_atomic##b##_##name(volatile ty* a, ty v, int mo) { before_atomic(a, sizeof(ty), true, PC); after_load(a, mo); before_store(a, mo); return builtin(a, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(b, ty) \
    ty __tsan_atomic##b##_load(const volatile ty* a, int mo) { before_atomic(a, sizeof(ty), false, PC); after_load(a, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile ty* a, ty v, int mo) { before_atomic(a, sizeof(ty), true, PC); before_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    RMW(b, ty, exchange, __atomic_exchange_n) RMW(b, ty, fetch_add, __atomic_fetch_add) RMW(b, ty, fetch_sub, __atomic_fetch_sub) \
    RMW(b, ty, fetch_and, __atomic_fetch_and) RMW(b, ty, fetch_or, __atomic_fetch_or) RMW(b, ty, fetch_xor, __atomic_fetch_xor) RMW(b, ty, fetch_nand, __atomic_fetch_nand) \
    static bool cas##b(volatile ty* a, ty* c, ty v, int mo, int fmo, uint32_t pc) { \
        before_atomic(a, sizeof(ty), true, pc); \
        const bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        after_load(a, ok ? mo : fmo); if (ok) before_store(a, mo); \
        return ok; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { return cas##b(a, c, v, mo, fmo, PC); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { return cas##b(a, c, v, mo, fmo, PC); } \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { cas##b(a, &c, v, mo, fmo, PC); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
    if (!active) return;
    T[cur].fenced = true;
    join(fencevc, T[cur].vc); join(T[cur].vc, fencevc); T[cur].vc.c[cur]++;
    if (live()) event(8);
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void* a) { if (active) acquire(sync_of(a)); }
void __tsan_release(void* a) { if (active) release(sync_of(a)); }
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* a, unsigned, int) { if (active) acquire(sync_of(a)); }
int __tsan_mutex_pre_unlock(void* a, unsigned) { if (active) release(sync_of(a)); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

// ---- mutexes, read-write locks, condition variables
static int lock(pthread_mutex_t* m, bool try_only, bool timed) {
    if (!active) return 0;
    if (live()) event(40);
    for (;;) {
        Sync* s = sync_of(m);
        if (s->owner < 0) { s->owner = cur; s->rec = 1; acquire(s); return 0; }
        const int kind = m->__data.__kind & 3;
        if (s->owner == cur && kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->rec; return 0; }
        if (try_only) return EBUSY;
        if (s->owner == cur && kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        block_on(m, timed);
        if (T[cur].timed_out) return ETIMEDOUT;
    }
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
    for (size_t i = 0; i < sizeof *m; ++i) ((volatile char*)m)[i] = 0;
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (active) { Sync* s = sync_of(m); s->owner = -1; s->rec = 0; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return lock(m, false, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return lock(m, true, false); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return lock(m, false, true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { return lock(m, false, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!active) return 0;
    Sync* s = sync_of(m);
    if (s->owner != cur) return EPERM;
    if (--s->rec == 0) { release(s); s->owner = -1; wake(m); }
    if (live()) event(40);
    return 0;
}
static int rw(pthread_rwlock_t* m, bool write, bool try_only) {
    if (!active) return 0;
    if (live()) event(40);
    for (;;) {
        Sync* s = sync_of(m);
        if (s->owner < 0 && (!write || s->readers == 0)) { if (write) s->owner = cur; else ++s->readers; acquire(s); return 0; }
        if (try_only) return EBUSY;
        block_on(m);
    }
}
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { for (size_t i = 0; i < sizeof *m; ++i) ((volatile char*)m)[i] = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return rw(m, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return rw(m, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return rw(m, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return rw(m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (!active) return 0;
    Sync* s = sync_of(m); release(s);
    if (s->owner == cur) s->owner = -1; else if (s->readers > 0) --s->readers;
    wake(m);
    if (live()) event(40);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { for (size_t i = 0; i < sizeof *c; ++i) ((volatile char*)c)[i] = 0; return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cond(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    if (!active) return 0;
    Sync* s = sync_of(m); release(s); s->owner = -1; wake(m);
    block_on(c, timed);
    const bool to = T[cur].timed_out;
    lock(m, false, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (active) { wake(c, true); if (live()) event(40); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (active) { wake(c); if (live()) event(40); } return 0; }

// ---- one-time initialisation
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!active) { if (*o != 2) { *o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; } return 0; }
    if (live()) event(40);
    while (*o == 1) block_on(o);
    if (*o == 2) { acquire(sync_of(o)); return 0; }
    *o = 1;
    try { f(); } catch (...) { *o = 0; release(sync_of(o)); wake(o); throw; }
    *o = 2; release(sync_of(o)); wake(o);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
    volatile char* b = (volatile char*)g;
    if (!active) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (live()) event(40);
    while (!b[0] && b[1]) {
        if (sync_of(g)->owner == cur) violate("deadlock", "a static variable's initialisation needs itself");
        block_on(g);
    }
    acquire(sync_of(g));
    if (b[0]) return 0;
    b[1] = 1; sync_of(g)->owner = cur;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    volatile char* b = (volatile char*)g; b[1] = 0; b[0] = 1;
    if (!active) return;
    Sync* s = sync_of(g); s->owner = -1; release(s); wake(g);
    if (live()) event(40);
}
void __cxa_guard_abort(uint64_t* g) {
    volatile char* b = (volatile char*)g; b[1] = 0;
    if (!active) return;
    Sync* s = sync_of(g); s->owner = -1; release(s); wake(g);
}
int __cxa_thread_atexit(void (*f)(void*), void* obj, void*) {
    if (!active || cur == 0) return 0;         // the main task ends with the process
    TlsDtor* d = (TlsDtor*)raw(sizeof(TlsDtor)); d->f = f; d->obj = obj; d->next = T[cur].dtors; T[cur].dtors = d;
    return 0;
}

// ---- threads made by the code under test
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*start)(void*), void* arg) noexcept {
    if (!active) { if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create"); return real_create(th, at, start, arg); }
    const int id = create(start, nullptr, arg);
    if (id < 0) return EAGAIN;
    *th = T[id].th;
    event(40);
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    if (!active) { if (!real_join) real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join"); return real_join(th, ret); }
    for (int i = 1; i < MAXT; ++i) if (T[i].state != FREE && !T[i].joined && pthread_equal(T[i].th, th)) { join_task(i); if (ret) *ret = T[i].ret; return 0; }
    return ESRCH;
}
int pthread_detach(pthread_t th) noexcept {
    for (int i = 1; active && i < MAXT; ++i) if (T[i].state != FREE && !T[i].joined && pthread_equal(T[i].th, th)) T[i].detached = true;
    return 0;
}
int sched_yield() noexcept { if (live()) preempt(true); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (live()) preempt(true); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (live()) preempt(true); return 0; }
int usleep(useconds_t) { if (live()) preempt(true); return 0; }
// std::atomic::wait and friends: a futex wait may wake spuriously, so it is a yield
long syscall(long nr, ...) noexcept {
    __builtin_va_list ap; __builtin_va_start(ap, nr);
    long a[6]; for (auto& x : a) x = __builtin_va_arg(ap, long);
    __builtin_va_end(ap);
    if (nr == SYS_futex && active) {
        const int opn = (int)a[1] & 127;
        if (opn == FUTEX_WAIT || opn == FUTEX_WAIT_BITSET) { if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; } if (live()) preempt(true); return 0; }
        if (opn == FUTEX_WAKE || opn == FUTEX_WAKE_BITSET) { if (live()) event(40); return 0; }
    }
    long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
}
