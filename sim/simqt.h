// Simulated Qt thread pool and clock: pool tasks are fibers, one runs at a time, switches are seeded choices.
#pragma once
#include <cstdint>
#include <cstddef>

namespace simqt {
struct Cfg {
	int threads = 2;			// what QThread::idealThreadCount() reports and how many tasks run at the same time
	int lazy = 4;				// the larger, the longer tasks wait for the processor
	bool on = false;			// simulated clock and pool in effect
};
struct Stats { uint64_t started = 0, finished = 0, switches = 0, polls = 0; };
extern Cfg cfg;
extern Stats st;
void reset();
size_t pending();				// tasks started and not finished
void point();					// the other fibers may run now
void drain();					// runs all tasks to their end
bool in_task();
double now();					// simulated seconds
void advance(double seconds);
}
