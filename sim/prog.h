// The simulation program as a workload: drawn parameters, its recordings, its undisturbed reference run.
#pragma once
#include "world.h"
#include "disk.h"
#include "simomp.h"
#include <functional>

namespace prog {
typedef std::vector<std::string> Args;
struct Prog {
	Args args;
	double dt = 0, dump = 0, max_time = 0;
	uint32_t steps = 0, every = 1;
	size_t nb = 0;
	bool substeps = false;		// the solver counts its inner steps
	bool history = false;		// solver or engine that carries state from earlier steps
	std::string state, type;	// text of the initial state, empty: generated galaxies
	std::vector<uint64_t> dumps() const { std::vector<uint64_t> r; for(uint64_t k = 0; k <= steps; k += every) { r.push_back(k); } return r; }
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string state_text(size_t nb, uint64_t seed, const std::string& type);
Prog draw_prog(bool cheap);
Args with(const Args& a, const std::string& extra);
struct Recording { std::vector<world::Frame> f; std::vector<double> mass; std::vector<nbcolor_t> col; double box = 0; int load = -1, read = 0; };
Recording load_recording(const char* base);
std::string frame_diff(const world::Frame& a, const world::Frame& b, bool content);
void compare_recordings(const Recording& got, const Recording& ref, bool content, bool prefix, const char* cls, const char* when);
int64_t* shared_ops();
extern std::function<void()> before_main, after_main;	// in the process of the program
sim::ProcResult run_prog(const Args& a, bool sim_disk);
Recording reference(const Prog& p);			// runs it undisturbed and checks its cadence
}
