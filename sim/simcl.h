// Simulated OpenCL runtime: platforms, devices, contexts, queues, buffers, events. Kernels run natively, their work-items as
// fibers; which queue makes progress, when, and in what order work-groups run is decided by the seeded scheduler.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace simcl {
struct DevCfg { int version; uint32_t max_group; };			// 12, 20 or 30
struct Config {
	std::vector<std::vector<DevCfg>> platforms;				// devices of each platform
	int timing = 0;				// 0: at once, in order; 1: only when waited for; 2: at random
	uint32_t eager = 2;			// timing 2: one of <eager> API calls lets the devices run for a while
	bool shuffle = false;		// order of work-groups and work-items is drawn
	bool stall = false;			// one queue makes progress only when nothing else can
	uint64_t garbage = 1;		// content of fresh device memory
	// faults
	int64_t fail_call = -1;		// API call that fails (counted from 0), -1: none
	std::string fail_fn;		// or: of the calls of this function,
	int64_t fail_nth = 0;		// the one that fails
	int fail_code = 0;
	bool fail_persist = false;	// every later call of the same function fails as well
	int64_t fail_command = -1;	// command that fails on the device after it was accepted
};
extern Config cfg;
struct Stats { int64_t calls, commands, kernels, groups, switches, waits, pending_at_return, injected; double clock; int live; std::string failed_in; };
extern Stats st;
void reset();					// forgets every object and command, default configuration
void draw_timing();				// draws timing, order and garbage from the scheduler stream
void drop_pending();			// the devices are gone: no command that is still queued runs any more
}
