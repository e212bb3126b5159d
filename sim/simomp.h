// Simulated OpenMP runtime: real threads, parked; exactly one runs at a time and the seeded scheduler decides which.
#pragma once
#include <cstdint>
namespace simomp {
struct Config {
	int threads = 1;			// team size of a parallel region
	uint32_t gap = 0;			// upper bound of the number of memory accesses between two preemptions, 0: none
	uint32_t hot_gap = 0;		// same, counting only accesses at sites seen to conflict between threads
	bool defer_tasks = false;	// tasks may be queued instead of being run at once
	int64_t max_switches = 6000;
	bool clock_jumps = false;
	int limit = 0;				// at most that many threads join a team, 0: all that are asked for
	bool vary = false;			// every region gets another number of threads
};
extern Config cfg;
extern int64_t switches, regions, accesses, conflicts;
void draw_config(int max_threads, bool force_parallel);	// swarm: draws a configuration from the scheduler stream
void reset();							// single thread, no preemption
void fresh_memory();			// draws what memory holds when it is handed out
void yield();					// another thread of the team may go on here
double clock_now();
void enter_program();			// from here on the process's clocks and entropy are the simulated ones
}
