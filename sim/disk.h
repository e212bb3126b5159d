// Simulated disk: every file operation of the process under test on a path inside the scratch directory
// passes through here; the simulator decides its outcome.
#pragma once
#include <cstdint>
#include <string>
#include <functional>
#include <vector>

namespace disk {
enum Kind { OPEN, READ, WRITE, SEEK, TRUNC, CLOSE, SYNC, RENAME, UNLINK, MKDIR };
extern const char* const kind_names[];

struct Policy {
	bool active = false;		// count, trace and decide operations
	// probabilities per operation of the given kind; 0 draws nothing
	double write_err = 0, write_short = 0, write_eintr = 0;
	double read_err = 0, read_short = 0, read_eintr = 0;
	double open_err = 0, open_eintr = 0, seek_err = 0, trunc_err = 0, sync_err = 0, rename_err = 0;
	double burst = 0;			// probability that an injected error repeats for the following operations too
	int64_t budget = -1;		// bytes until the disk is full, -1: unlimited
	double refill = 0;			// probability per failed write that space becomes available again
	int64_t kill_at = -1;		// operation number at which the process is killed (it performs kill_part/256 of a write first)
	uint32_t kill_part = 0;
	int64_t max_ops = 2000000;	// step budget: more operations than this is a hang
	std::function<void(Kind, const char* path, bool done)> hook;	// called before (done=false) and after each operation
	std::function<void()> sched;									// called before each operation: other fibers may run
	std::function<bool(const char* path)> applies;					// files that faults are injected into (unset: all)
	std::function<void(const char* path)> failed;					// told about each injected error
	std::function<int64_t(const char* path, int64_t len)> split;	// bytes of a write to make visible first (then hook), or -1
};
extern Policy pol;
extern int64_t ops;				// operations since reset
extern int64_t faults;			// injected since reset
extern int64_t read_faults, write_faults;
int64_t& shared_faults();		// injected faults of all simulated processes since the run's start, kept in shared memory
void reset();					// default policy, inactive
void start();					// activates pol with counters cleared

// raw helpers that bypass the simulation (for the oracle)
std::string slurp(const std::string& path, bool* ok = nullptr);
bool spit(const std::string& path, const std::string& data);
bool exists(const std::string& path);
std::string listing();			// sorted names and sizes of the files in the scratch directory
void remove_file(const std::string& path);
std::vector<std::string> files();
struct Snapshot { std::vector<std::pair<std::string, std::string>> files; };
Snapshot snapshot();
void restore(const Snapshot& s);
}
