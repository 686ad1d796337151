#include "sim.h"
namespace sim {
#define X(p, f) void f();
#include "table.inc"
#undef X
    Scenario scenarios[] = {
#define X(p, f) {p, f},
#include "table.inc"
#undef X
        {nullptr, nullptr}};
}
