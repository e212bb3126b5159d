// Workload helpers shared by the properties: deterministic particle data and oracles that do not use the code under test.
#pragma once
#include "core.h"
#include "nbody_data.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include <string>
#include <vector>

namespace world {
struct Frame {
	uint64_t step = 0;
	double time = 0;
	std::vector<nbvertex_t> r, v;
};
// content of frame <id>: any bit pattern a double can have
Frame make_frame(uint64_t id, size_t nb, uint64_t step, double time, bool wild);
void set_masses(nbody_data& d, uint64_t salt);
void init_data(nbody_data& d, size_t nb, double box, uint64_t salt);	// masses, colours, box size
void put_frame(nbody_data& d, const Frame& f);
bool same_bits(const void* a, const void* b, size_t n);
bool same_time(double a, double b);
bool close_time(double a, double b);
std::string diff_frame(const nbody_data& d, const Frame& f);			// empty when equal
std::string diff_masses(const nbody_data& d, size_t nb, uint64_t salt);
std::string diff_colors(const nbody_data& d, size_t nb, uint64_t salt);
void poison(nbody_data& d);												// fills the buffers with a pattern no frame has
std::vector<Frame> read_all(const char* base, int* load_rc, int* read_rc);	// fault-free reading of a whole stream
void quiet();															// drop qDebug output

// runs test/main's main() with these arguments (in the current process)
int run_main(const std::vector<std::string>& args);

// independent gravity in long double: f = (v, sum m_j (r_j - r_i) / max(r^2, eps)^1.5)
struct Cloud { size_t n = 0; std::vector<double> x, y, z, vx, vy, vz, m; };
void fill_cloud(Cloud& c, size_t n, uint64_t seed, int kind);
void to_data(const Cloud& c, nbody_data& d);
void accel_ref(const Cloud& c, size_t i, long double out[3]);
double accel_scale(const Cloud& c, size_t i);		// sum of the absolute values of the terms: the scale of rounding
}
extern int nbody_main(int argc, char** argv);
