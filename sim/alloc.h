// Failing allocations: in nbsim_asan the code under test allocates through nbsim_malloc and friends (its objects are
// rewritten by objcopy), the simulator and the libraries do not.
#pragma once
#include <cstdint>
namespace alloc {
struct Policy { int64_t fail_at = 0; bool persist = false; int64_t min_size = 0; };
// weak: the other simulators have no such seam
extern Policy pol __attribute__((weak));
extern bool active __attribute__((weak));
extern int64_t seen __attribute__((weak)), failed __attribute__((weak));
}
