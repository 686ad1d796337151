// Decisions, history and counters of the run in progress. No STL here: in the threaded build this
// file is not instrumented and must not lend its template instantiations to code that is.
#include "hot.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <unistd.h>

namespace sim {
    Shared* sh = nullptr;
    static uint64_t rs[4];
    static const uint32_t* rp = nullptr;
    static uint32_t nrp = 0;
    static bool replaying = false;

    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static uint64_t next64() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
        rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45);
        return r;
    }
    void begin_run(Shared* s, uint64_t seed, const uint32_t* replay, uint32_t nreplay) {
        sh = s;
        s->status = RUNNING; s->nontrivial = 0; s->cls[0] = s->msg[0] = 0;
        s->hash = 0xcbf29ce484222325ull; s->steps = s->switches = 0; s->ncnt = 0; s->loglen = 0; s->ntape = 0;
        for (auto& r : rs) r = splitmix(seed);
        rp = replay; nrp = nreplay; replaying = replay != nullptr;
    }
    uint32_t choose(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        const uint32_t pos = sh->ntape;
        if (replaying) v = pos < nrp ? rp[pos] % n : 0;
        else v = (uint32_t)(((next64() >> 32) * (uint64_t)n) >> 32);
        if (pos >= TAPE_MAX) violate("harness:tape-overflow", "more than %u decisions", TAPE_MAX);
        sh->tape[pos] = v;
        sh->ntape = pos + 1;
        return v;
    }
    bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
    double rnd(double lo, double hi) { return lo + (hi - lo) * choose(1001) / 1000.0; }

    static void hash_bytes(const char* p, size_t n) {
        uint64_t h = sh->hash;
        for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 0x100000001b3ull; }
        sh->hash = h;
    }
    void mix(uint64_t v) { hash_bytes((const char*)&v, sizeof v); }
    static void append(bool hashed, const char* fmt, va_list ap) {
        char buf[1024];
        int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
        if (n < 0) n = 0;
        if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
        buf[n++] = '\n';
        if (hashed) hash_bytes(buf, n);
        if (sh->loglen + n < LOG_MAX) { memcpy(sh->log + sh->loglen, buf, n); sh->loglen += n; }
    }
    void log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); append(true, fmt, ap); va_end(ap); }
    void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); append(false, fmt, ap); va_end(ap); }
    static void count(char kind, const char* name) {
        for (uint32_t i = 0; i < sh->ncnt; ++i)
            if (sh->cnt[i].kind == kind && !strncmp(sh->cnt[i].name, name, sizeof sh->cnt[i].name - 1)) { sh->cnt[i].n++; return; }
        if (sh->ncnt >= CNT_MAX) return;
        Counter& c = sh->cnt[sh->ncnt++];
        c.kind = kind; c.n = 1;
        strncpy(c.name, name, sizeof c.name - 1); c.name[sizeof c.name - 1] = 0;
    }
    void fault(const char* k) { count('f', k); log("FAULT %s", k); }
    void probe(const char* k) { count('p', k); }
    void component(const char* k) { count('c', k); }
    void step(uint64_t n) { sh->steps += n; }
    void nontrivial() { sh->nontrivial = 1; }
    void violate(const char* cls, const char* fmt, ...) {
        va_list ap; va_start(ap, fmt);
        strncpy(sh->cls, cls, sizeof sh->cls - 1); sh->cls[sizeof sh->cls - 1] = 0;
        vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
        va_end(ap);
        sh->status = VIOLATION;
        _exit(0);
    }
    void discard() { sh->status = DISCARD; _exit(0); }
}
