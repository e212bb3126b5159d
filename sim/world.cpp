#include "simomp.h"
#include "world.h"
#include "disk.h"
#include <cmath>
#include <cstring>
#include <QDebug>
#include <QLoggingCategory>

namespace world {
static double weird(uint64_t& s)
{
	uint64_t x = sim::raw_rand(s);
	switch(x % 13)
	{
	case 0: return -0.0;
	case 1: return 5e-324;
	case 2: return 1.7976931348623157e308;
	case 3: return INFINITY;
	case 4: { uint64_t b = 0x7ff8000000000000ull | (sim::raw_rand(s) & 0xffffffffull); double d; memcpy(&d, &b, 8); return d; }
	case 5: return 0.0;
	default: { uint64_t b = sim::raw_rand(s); double d; memcpy(&d, &b, 8); return d; }
	}
}
static double plain(uint64_t& s) { return (static_cast<double>(sim::raw_rand(s) >> 11) / 9007199254740992.0 - 0.5) * 200.0; }
Frame make_frame(uint64_t id, size_t nb, uint64_t step, double time, bool wild)
{
	Frame f;
	f.step = step;
	f.time = time;
	uint64_t s = sim::mix(sim::g->seed ^ 0x5151, id);
	f.r.resize(nb);
	f.v.resize(nb);
	for(size_t i = 0; i != nb; ++i)
	{
		double c[6];
		for(double& x : c) { x = wild ? weird(s) : plain(s); }
		f.r[i] = nbvertex_t(c[0], c[1], c[2]);
		f.v[i] = nbvertex_t(c[3], c[4], c[5]);
	}
	return f;
}
static double mass_of(uint64_t salt, size_t i) { uint64_t s = sim::mix(salt * 77 + 5, i); return 0.001 + std::fabs(plain(s)); }
static nbcolor_t color_of(uint64_t salt, size_t i)
{
	uint64_t s = sim::mix(salt * 131 + 9, i);
	float c[4];
	for(float& x : c) { x = static_cast<float>(sim::raw_rand(s) % 1000) / 999.0f; }
	return nbcolor_t(c[0], c[1], c[2], c[3]);
}
void set_masses(nbody_data& d, uint64_t salt)
{
	for(size_t i = 0; i != d.get_count(); ++i) { d.get_mass()[i] = mass_of(salt, i); d.get_color()[i] = color_of(salt, i); }
}
void init_data(nbody_data& d, size_t nb, double box, uint64_t salt)
{
	d.make_universe(1, box, box, box);
	d.resize(nb);
	set_masses(d, salt);
}
void put_frame(nbody_data& d, const Frame& f)
{
	std::copy(f.r.begin(), f.r.end(), d.get_vertites());
	std::copy(f.v.begin(), f.v.end(), d.get_velosites());
	d.set_step(f.step);
	d.set_time(f.time);
}
bool same_bits(const void* a, const void* b, size_t n) { return n == 0 || 0 == memcmp(a, b, n); }
bool same_time(double a, double b) { return a == b || std::fabs(a - b) <= 1e-14 * std::max(std::fabs(a), std::fabs(b)); }	// the index stores 15 digits
bool close_time(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }	// also after rounding and adding up
std::string diff_frame(const nbody_data& d, const Frame& f)
{
	char b[200];
	if(d.get_count() != f.r.size()) { snprintf(b, sizeof(b), "body count %zu instead of %zu", d.get_count(), f.r.size()); return b; }
	if(d.get_step() != f.step) { snprintf(b, sizeof(b), "step %zu instead of %llu", d.get_step(), static_cast<unsigned long long>(f.step)); return b; }
	if(!same_time(d.get_time(), f.time)) { snprintf(b, sizeof(b), "time %.17g instead of %.17g", d.get_time(), f.time); return b; }
	for(size_t i = 0; i != f.r.size(); ++i)
	{
		if(!same_bits(&d.get_vertites()[i], &f.r[i], sizeof(nbvertex_t)))
		{
			snprintf(b, sizeof(b), "position of body %zu is (%g %g %g) instead of (%g %g %g)", i, d.get_vertites()[i].x, d.get_vertites()[i].y,
					 d.get_vertites()[i].z, f.r[i].x, f.r[i].y, f.r[i].z);
			return b;
		}
		if(!same_bits(&d.get_velosites()[i], &f.v[i], sizeof(nbvertex_t)))
		{
			snprintf(b, sizeof(b), "velocity of body %zu is (%g %g %g) instead of (%g %g %g)", i, d.get_velosites()[i].x, d.get_velosites()[i].y,
					 d.get_velosites()[i].z, f.v[i].x, f.v[i].y, f.v[i].z);
			return b;
		}
	}
	return std::string();
}
std::string diff_masses(const nbody_data& d, size_t nb, uint64_t salt)
{
	char b[160];
	for(size_t i = 0; i != nb; ++i)
	{
		double m = mass_of(salt, i);
		if(!same_bits(&d.get_mass()[i], &m, sizeof(m))) { snprintf(b, sizeof(b), "mass of body %zu is %g instead of %g", i, d.get_mass()[i], m); return b; }
	}
	return std::string();
}
std::string diff_colors(const nbody_data& d, size_t nb, uint64_t salt)
{
	char b[160];
	for(size_t i = 0; i != nb; ++i)
	{
		nbcolor_t m = color_of(salt, i);
		if(!same_bits(&d.get_color()[i], &m, sizeof(m))) { snprintf(b, sizeof(b), "colour of body %zu differs", i); return b; }
	}
	return std::string();
}
void poison(nbody_data& d)
{
	size_t n = d.get_count();
	for(size_t i = 0; i != n; ++i)
	{
		d.get_vertites()[i] = nbvertex_t(-12345.678, -12345.678, -12345.678);
		d.get_velosites()[i] = nbvertex_t(-12345.678, -12345.678, -12345.678);
		d.get_mass()[i] = -777;
		d.get_color()[i] = nbcolor_t(-7, -7, -7, -7);
	}
	d.set_step(987654321);
	d.set_time(-55.5);
	d.set_box_size(7777777);
}
std::vector<Frame> read_all(const char* base, int* load_rc, int* read_rc)
{
	std::vector<Frame> r;
	nbody_data_stream_reader rd;
	*read_rc = 0;
	*load_rc = rd.load(base);
	if(*load_rc != 0) { return r; }
	nbody_data d;
	d.resize(rd.get_body_count());
	for(size_t i = 0; i != rd.get_frame_count(); ++i)
	{
		poison(d);
		if(rd.seek(i) != 0 || rd.read(&d) != 0) { *read_rc = -1; return r; }
		Frame f;
		f.step = d.get_step();
		f.time = d.get_time();
		f.r.assign(d.get_vertites(), d.get_vertites() + d.get_count());
		f.v.assign(d.get_velosites(), d.get_velosites() + d.get_count());
		r.push_back(f);
	}
	return r;
}
static void drop(QtMsgType, const QMessageLogContext&, const QString& s) { sim::note("log: %s", s.left(300).toUtf8().constData()); }
void quiet() { qInstallMessageHandler(drop); }

int run_main(const std::vector<std::string>& args)
{
	std::vector<std::vector<char>> buf;
	buf.push_back(std::vector<char>());
	const char* n = "nbody-simulation";
	buf.back().assign(n, n + strlen(n) + 1);
	for(const std::string& a : args) { buf.push_back(std::vector<char>(a.c_str(), a.c_str() + a.size() + 1)); }
	std::vector<char*> argv;
	for(auto& b : buf) { argv.push_back(b.data()); }
	int argc = static_cast<int>(argv.size());
	argv.push_back(nullptr);
	simomp::enter_program();
	return nbody_main(argc, argv.data());
}

void fill_cloud(Cloud& c, size_t n, uint64_t seed, int kind)
{
	c.n = n;
	for(auto* v : { &c.x, &c.y, &c.z, &c.vx, &c.vy, &c.vz, &c.m }) { v->assign(n, 0); }
	uint64_t s = sim::mix(seed, 0xC10D);
	double scale = std::pow(10.0, static_cast<double>(seed % 21) - 6), heavy = std::pow(10.0, static_cast<double>(seed % 13) - 6);
	for(size_t i = 0; i != n; ++i)
	{
		c.x[i] = plain(s); c.y[i] = plain(s); c.z[i] = plain(s);
		c.vx[i] = plain(s); c.vy[i] = plain(s); c.vz[i] = plain(s);
		c.m[i] = 0.01 + std::fabs(plain(s));
		switch(kind)
		{
		case 1: c.z[i] = 0; break;																		// planar
		case 2: c.y[i] = c.z[i] = 0; break;																// a line
		case 3: c.x[i] = std::floor(c.x[i] / 40) * 40; c.y[i] = std::floor(c.y[i] / 40) * 40; c.z[i] = std::floor(c.z[i] / 40) * 40; break; // many coincide
		case 4: c.x[i] *= 1e-3; c.m[i] = i == 0 ? 1e6 : c.m[i]; break;									// squeezed, one heavy
		case 5: { double q = (i % 2) ? 1000 : -1000; c.x[i] = c.x[i] * 0.01 + q; break; }				// two clusters
		case 6: c.x[i] *= scale; c.y[i] *= scale; c.z[i] *= scale; c.m[i] *= heavy; break;				// tiny or huge
		case 7: { double q = std::pow(10.0, static_cast<double>(i % 11) - 3); c.x[i] *= q; c.y[i] *= q; c.z[i] *= q; break; }	// shells
		default: break;
		}
	}
}
void to_data(const Cloud& c, nbody_data& d)
{
	d.clear();
	for(size_t i = 0; i != c.n; ++i)
	{
		d.add_body(nbvertex_t(c.x[i], c.y[i], c.z[i]), nbvertex_t(c.vx[i], c.vy[i], c.vz[i]), c.m[i], nbcolor_t(1, 1, 1, 1));
	}
}
void accel_ref(const Cloud& c, size_t i, long double out[3])
{
	long double a[3] = { 0, 0, 0 };
	for(size_t j = 0; j != c.n; ++j)
	{
		if(j == i) { continue; }
		long double dx = static_cast<long double>(c.x[j]) - c.x[i], dy = static_cast<long double>(c.y[j]) - c.y[i], dz = static_cast<long double>(c.z[j]) - c.z[i];
		long double r2 = dx * dx + dy * dy + dz * dz;
		if(r2 < static_cast<long double>(nbody::MinDistance)) { r2 = nbody::MinDistance; }
		long double k = c.m[j] / (r2 * std::sqrt(r2));
		a[0] += dx * k; a[1] += dy * k; a[2] += dz * k;
	}
	out[0] = a[0]; out[1] = a[1]; out[2] = a[2];
}
double accel_scale(const Cloud& c, size_t i)
{
	double a = 0;
	for(size_t j = 0; j != c.n; ++j)
	{
		if(j == i) { continue; }
		double dx = c.x[j] - c.x[i], dy = c.y[j] - c.y[i], dz = c.z[j] - c.z[i];
		double r2 = dx * dx + dy * dy + dz * dz;
		if(r2 < nbody::MinDistance) { r2 = nbody::MinDistance; }
		a += c.m[j] * std::sqrt(dx * dx + dy * dy + dz * dz) / (r2 * std::sqrt(r2));
	}
	return a;
}
}
