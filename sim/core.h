// Deterministic simulation core: recorded choice streams, event hash, trace, violations, statistics.
// Everything a run decides goes through sim::choose(); one run seed (or one replay file) is one execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

enum Stream { S_WORK = 0, S_FAULT, S_SCHED, S_CRASH, S_TASK, S_CL, S_UI, S_CLOCK, S_MISC, S_COUNT };
extern const char* const stream_names[S_COUNT];

constexpr uint32_t kMaxChoices = 1u << 16;	// per stream; further choices are 0 ("simplest")
constexpr size_t kTraceCap = 1u << 20;
constexpr int kMaxCounters = 160;

struct StreamState {
	uint64_t rng;
	uint32_t n;			// choices recorded
	uint32_t rep_n;		// choices to replay
	uint32_t rec[kMaxChoices];
	uint32_t rep[kMaxChoices];
};
struct Counter { char name[56]; uint64_t value; };

struct Shared {			// lives in a MAP_SHARED mapping: survives the death of a simulated process
	uint64_t seed;
	int replay;			// 1: choices come from rep[]
	int tracing;
	int thorough;
	uint64_t hash;
	uint64_t events;
	uint64_t sched_sig;	// signature of the interleaving / fault history of the run
	double sim_time;	// simulated seconds
	int violated;
	int done;			// run body returned
	int skipped;		// run decided that the generated case is outside its domain
	char cls[96];
	char msg[3000];
	int ncounters;
	Counter counters[kMaxCounters];
	size_t trace_len;
	char trace[kTraceCap];
	StreamState st[S_COUNT];
	// scratch area for workloads (acknowledgements of simulated processes and the like)
	alignas(64) unsigned char user[1 << 20];
};
extern Shared* g;		// current run

uint32_t choose(Stream s, uint32_t n);				// 0 .. n-1, 0 is the simplest choice
bool chance(Stream s, double p);					// false is the simplest choice
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + choose(s, hi - lo + 1); }
template<class T> const T& pick(Stream s, const std::vector<T>& v) { return v[choose(s, static_cast<uint32_t>(v.size()))]; }
uint64_t raw_rand(uint64_t& state);					// splitmix64, for derived (not recorded) data
uint64_t mix(uint64_t a, uint64_t b);

void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));	// hashed and traced
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));	// traced only
void hash_bytes(const void* p, size_t n);
void sig(uint64_t v);								// contributes to the interleaving/fault signature
void count(const char* name, uint64_t n = 1);
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void skip();
bool thorough();

// Runs body in a simulated process (a forked child). Returns its wait status.
struct ProcResult { bool exited; int code; int signal; bool killed; };
ProcResult process(const std::function<int()>& body, unsigned timeout_s = 280);
constexpr int kKilledExit = 137;					// exit code used by an injected kill

struct Property { const char* id; void (*run)(); const char* fault_kinds; const char* real; const char* stub; const char* rule; };
extern const Property properties[];
extern const size_t property_count;
void worker_setup();								// per-binary hook, called once before any run
void run_setup();									// per-binary hook, called in the run's process before the body
}
