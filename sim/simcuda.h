// Simulated CUDA runtime: devices, streams, memory, textures. Kernels run natively, their threads as fibers; which stream makes
// progress, when, and in what order blocks run is decided by the seeded scheduler.
#pragma once
#include <cstdint>
#include <string>
namespace simcuda {
struct Config {
	int devices = 4;
	int timing = 0;				// 0: at once, in order; 1: only when waited for; 2: at random
	uint32_t eager = 2;			// timing 2: one of <eager> API calls lets the devices run for a while
	bool shuffle = false;		// order of blocks and threads is drawn
	bool stall = false;			// one device makes progress only when nothing else can
	uint64_t garbage = 1;		// content of fresh device memory
	int64_t fail_call = -1;		// API call that fails (counted from 0), -1: none
	std::string fail_fn;		// or: of the calls of this function,
	int64_t fail_nth = 0;		// the one that fails
	int fail_code = 0;
	bool fail_persist = false;	// every later call of the same function fails as well
	int64_t fail_command = -1;	// command that fails on the device after it was accepted
};
extern Config cfg;
struct Stats { int64_t calls, commands, kernels, blocks, switches, pending_at_return, injected; double clock; std::string failed_in; };
extern Stats st;
void reset();					// forgets every object and command, default configuration
void draw_timing();
}
