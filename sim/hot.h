// What a run leaves behind, in memory shared with its parent, so that a crash loses nothing.
#pragma once
#include "sim.h"
namespace sim {
    enum Status { RUNNING = 0, OK = 1, VIOLATION = 2, DISCARD = 3 };
    constexpr uint32_t TAPE_MAX = 1u << 20, LOG_MAX = 1u << 18, CNT_MAX = 256;
    struct Counter { char kind; char name[47]; uint64_t n; };
    struct Shared {
        volatile int status;
        int nontrivial;
        char cls[96];
        char msg[2048];
        uint64_t hash, steps, switches;
        uint32_t ncnt; Counter cnt[CNT_MAX];
        uint32_t loglen; char log[LOG_MAX];
        uint32_t ntape; uint32_t tape[TAPE_MAX];
    };
    extern Shared* sh;
    void begin_run(Shared* s, uint64_t seed, const uint32_t* replay, uint32_t nreplay);
}
