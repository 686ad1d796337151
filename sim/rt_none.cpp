// Build without threads: nothing to schedule.
#include "sim.h"
namespace sim {
    int sched_intensity = 0;
    void yield_point() {}
    int task_id() { return 0; }
    uint64_t sched_switches() { return 0; }
    void spawn(TaskFn f, void* arg) { f(arg); }
    void run_tasks() {}
}
#ifdef SIM_ASAN
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:halt_on_error=1:abort_on_error=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:quarantine_size_mb=8:log_path=/dev/null";
}
#endif
