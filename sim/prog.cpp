#include "prog.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <algorithm>

using namespace sim;
using world::Frame;

namespace prog {
std::string fmt(const char* f, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof(b), f, ap);
	va_end(ap);
	return b;
}
std::string state_text(size_t nb, uint64_t seed, const std::string& type)
{
	uint64_t s = mix(seed, 0x57A7E);
	auto u = [&]() { return static_cast<double>(raw_rand(s) >> 11) / 9007199254740992.0 - 0.5; };
	std::string t;
	if(type == "Zeno")
	{
		t = fmt("%zu\n3\n0\n", nb);
		for(size_t i = 0; i != nb; ++i) { t += fmt("%.15e\n", 0.1 + std::fabs(u())); }
		for(size_t i = 0; i != nb; ++i) { double a = u() * 20, b = u() * 20, c = u() * 20; t += fmt("%.15e %.15e %.15e\n", a, b, c); }
		for(size_t i = 0; i != nb; ++i) { double a = u(), b = u(), c = u(); t += fmt("%.15e %.15e %.15e\n", a, b, c); }
		return t;
	}
	for(size_t i = 0; i != nb; ++i)
	{
		double c[7];
		for(int k = 0; k != 3; ++k) { c[k] = u() * 20; }
		for(int k = 3; k != 6; ++k) { c[k] = u() * 3; }
		c[6] = 0.1 + std::fabs(u());
		t += fmt("%.16e %.16e %.16e %.16e %.16e %.16e %.16e 0.5\n", c[0], c[1], c[2], c[3], c[4], c[5], c[6]);
	}
	return t;
}
Prog draw_prog(bool cheap)
{
	Prog p;
	static const size_t nbs[] = { 2, 3, 5, 8, 64, 128 };
	p.nb = nbs[choose(S_WORK, cheap ? 5 : 6)];
	uint64_t sseed = 1 + choose(S_WORK, 100);
	bool galaxies = p.nb == 128;
	p.type = choose(S_WORK, 2) ? "Zeno" : "G1";
	if(galaxies) { p.args.push_back("--stars_count=64"); p.args.push_back("--box_size=40"); }
	else
	{
		p.state = state_text(p.nb, sseed, p.type);
		p.args.push_back("--initial_state=state.txt");
		p.args.push_back("--initial_type=" + p.type);
	}
	static const char* engines[] = { "simple", "openmp", "ah", "simple_bh", "block" };
	std::string e = engines[choose(S_WORK, 5)];
	p.args.push_back("--engine=" + e);
	if(e == "ah")
	{
		static const char* rates[] = { "1", "2", "3", "7", "1000" };
		uint32_t k = choose(S_WORK, 5);
		p.args.push_back(std::string("--full_recompute_rate=") + rates[k]);
		p.history = k != 0;
	}
	if(e == "simple_bh")
	{
		static const char* lay[] = { "tree", "heap", "heap_stackless" };
		uint32_t l = choose(S_WORK, 3);
		p.args.push_back(std::string("--tree_layout=") + lay[l]);
		p.args.push_back(std::string("--traverse_type=") + (choose(S_WORK, 2) ? "nested_tree" : "cycle"));
		static const char* rates[] = { "0", "1", "3" };
		uint32_t k = l == 0 ? 0 : choose(S_WORK, 3);
		p.args.push_back(std::string("--tree_build_rate=") + rates[k]);
		p.history = p.history || k != 0;
	}
	static const char* solvers[] = { "euler", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "bs", "midpoint", "trapeze", "rkgl", "adams", "rklc", "rkfeagin12", "rkfeagin14" };
	uint32_t sv = choose(S_WORK, 16);
	static const uint32_t with_state[] = { 12, 11, 8, 13, 1 };	// these keep something from step to step
	if(choose(S_WORK, 4) == 3) { sv = with_state[choose(S_WORK, 5)]; }
	p.args.push_back(std::string("--solver=") + solvers[sv]);
	static const bool hist[] = { false, true, false, false, false, false, false, false, false, false, false, true, true, true, false, false };
	p.history = p.history || hist[sv];
	p.substeps = std::string(solvers[sv]) == "bs";
	if(std::string(solvers[sv]) == "adams") { p.args.push_back("--rank=" + std::to_string(5 - choose(S_WORK, 5))); }
	// step subdivision of the embedded methods: seldom, often or always; refinement of the implicit ones
	static const char* thr[] = { "1e-4", "1e-9", "1e-30" };
	static const uint32_t recs[] = { 1, 0, 2 };
	static const uint32_t subs[] = { 2, 3, 8 };
	uint32_t recursion = recs[choose(S_WORK, 3)];
	uint32_t subdivisions = subs[choose(S_WORK, recursion == 2 ? 2 : 3)];
	uint32_t limit = choose(S_WORK, 3);
	uint32_t refine = choose(S_WORK, 3);
	p.steps = 2 + choose(S_WORK, 15);
	// keep one execution within a few million interactions
	static const double stages[] = { 1, 2, 4, 6, 7, 8, 13, 17, 40, 2, 6, 12, 3, 12, 25, 35 };
	const double budget = cheap ? 1e6 : 4e6;
	auto cost = [&]() { double m = 1, t = 1; for(uint32_t k = 0; k != recursion; ++k) { t *= subdivisions; m += t; } return stages[sv] * m * p.steps * static_cast<double>(p.nb * p.nb); };
	while(cost() > budget && recursion > 0) { --recursion; if(subdivisions > 2) { subdivisions = 2; } }
	while(cost() > budget && p.steps > 3) { --p.steps; }
	p.args.push_back(fmt("--max_recursion=%u", recursion));
	p.args.push_back(fmt("--substep_subdivisions=%u", subdivisions));
	p.args.push_back(std::string("--error_threshold=") + thr[limit]);
	p.args.push_back(fmt("--refine_steps_count=%u", refine));
	p.args.push_back("--max_level=" + std::to_string(3 + choose(S_WORK, 3)));
	if(choose(S_WORK, 4) == 3) { p.args.push_back("--correction=1"); if(sv >= 3) { p.history = true; } }
	static const double dts[] = { 1.0 / 64, 1.0 / 32, 1.0 / 256, 0.01, 0.1 / 3, 0.1 };
	p.dt = dts[choose(S_WORK, 6)];
	// the dump step need not be a whole number of steps: a frame is due at the first step that reaches it (within a tenth of a step)
	static const double part[] = { 0, 0.25, 0.5, 0.75, -0.5 };
	uint32_t whole = 1 + choose(S_WORK, 4);
	double rel = whole + part[choose(S_WORK, 5)];
	p.every = static_cast<uint32_t>(std::ceil(rel - 0.1));
	p.dump = p.dt * rel;
	// the end lies inside a step or, to rounding, where one ends: then no further step is needed
	static const double within[] = { 0.5, 0.95, 0.05, 0 };
	p.max_time = p.dt * (p.steps - within[choose(S_WORK, 4)]);
	p.args.push_back(fmt("--max_step=%.17g", p.dt));
	p.args.push_back(fmt("--max_time=%.17g", p.max_time));
	p.args.push_back(fmt("--dump_step=%.17g", p.dump));
	p.args.push_back(fmt("--check_step=%.17g", p.dt * (1 + choose(S_WORK, 5))));
	static const char* checks[] = { "PLV", "PLVE", "E", "" };
	p.args.push_back(std::string("--check_list=") + checks[choose(S_WORK, 4)]);
	const qint64 b = static_cast<qint64>(48 * p.nb);
	const qint64 parts[] = { 1 << 30, 1, b, b + b / 2, 3 * b };
	p.args.push_back(fmt("--max_part_size=%lld", static_cast<long long>(parts[choose(S_WORK, 5)])));
	if(choose(S_WORK, 3) == 2) { p.args.push_back("--clamp=1"); }
	std::string all;
	for(const std::string& a : p.args) { all += a + " "; }
	event("program %s(history=%d)", all.c_str(), p.history);
	return p;
}
Args with(const Args& a, const std::string& extra)
{
	Args r;
	const std::string key = extra.substr(0, extra.find('=') + 1);
	for(const std::string& x : a) { if(x.compare(0, key.size(), key) != 0) { r.push_back(x); } }
	r.push_back(extra);
	return r;
}

Recording load_recording(const char* base)
{
	Recording r;
	nbody_data_stream_reader rd;
	r.load = rd.load(base);
	if(r.load != 0) { return r; }
	nbody_data d;
	if(rd.get_body_count() > 100000) { r.load = -2; return r; }
	d.resize(rd.get_body_count());
	world::poison(d);
	for(size_t i = 0; i != rd.get_frame_count(); ++i)
	{
		if(rd.seek(i) != 0 || rd.read(&d) != 0) { r.read = -1; return r; }
		Frame f;
		f.step = d.get_step();
		f.time = d.get_time();
		f.r.assign(d.get_vertites(), d.get_vertites() + d.get_count());
		f.v.assign(d.get_velosites(), d.get_velosites() + d.get_count());
		r.f.push_back(f);
	}
	r.mass.assign(d.get_mass(), d.get_mass() + d.get_count());
	r.col.assign(d.get_color(), d.get_color() + d.get_count());
	r.box = rd.get_box_size();
	return r;
}
std::string frame_diff(const Frame& a, const Frame& b, bool content)
{
	if(a.step != b.step) { return fmt("step %llu instead of %llu", static_cast<unsigned long long>(a.step), static_cast<unsigned long long>(b.step)); }
	if(!world::close_time(a.time, b.time)) { return fmt("time %.17g instead of %.17g", a.time, b.time); }
	if(a.r.size() != b.r.size()) { return "different body count"; }
	if(!content) { return std::string(); }
	for(size_t i = 0; i != a.r.size(); ++i)
	{
		if(!world::same_bits(&a.r[i], &b.r[i], sizeof(a.r[i]))) { return fmt("position of body %zu is %.17g %.17g %.17g instead of %.17g %.17g %.17g", i, a.r[i].x, a.r[i].y, a.r[i].z, b.r[i].x, b.r[i].y, b.r[i].z); }
		if(!world::same_bits(&a.v[i], &b.v[i], sizeof(a.v[i]))) { return fmt("velocity of body %zu differs", i); }
	}
	return std::string();
}
void compare_recordings(const Recording& got, const Recording& ref, bool content, bool prefix, const char* cls, const char* when)
{
	if(ref.load != 0 || ref.read != 0) { fail("reference", "%s: the recording of the undisturbed run cannot be read", when); }
	if(prefix && got.load != 0) { return; }
	if(got.load != 0) { fail(cls, "%s: the recording cannot be opened; files: %s", when, disk::listing().c_str()); }
	for(size_t i = 0; i != got.f.size() && i != ref.f.size(); ++i)
	{
		std::string df = frame_diff(got.f[i], ref.f[i], content);
		if(!df.empty()) { fail(cls, "%s: frame %zu: %s", when, i, df.c_str()); }
	}
	if(got.f.size() > ref.f.size() || got.read != 0 || (!prefix && got.f.size() != ref.f.size()))
	{
		fail(cls, "%s: %zu readable frames instead of %zu (read error %d)", when, got.f.size(), ref.f.size(), got.read);
	}
	if(got.f.empty()) { return; }
	if(got.mass.size() != ref.mass.size() || !world::same_bits(got.mass.data(), ref.mass.data(), ref.mass.size() * sizeof(double))) { fail(cls, "%s: masses differ", when); }
	if(got.col.size() != ref.col.size() || !world::same_bits(got.col.data(), ref.col.data(), ref.col.size() * sizeof(nbcolor_t))) { fail(cls, "%s: colours differ", when); }
	if(got.box != ref.box) { fail(cls, "%s: box %g instead of %g", when, got.box, ref.box); }
}
int64_t* shared_ops() { return reinterpret_cast<int64_t*>(g->user + sizeof(g->user) - 128); }
std::function<void()> before_main, after_main;
ProcResult run_prog(const Args& a, bool sim_disk)
{
	return process([&] {
		if(sim_disk) { disk::start(); }
		if(before_main) { before_main(); }
		int rc = world::run_main(a);
		if(after_main) { after_main(); }
		*shared_ops() = disk::ops;
		return rc;
	});
}
Recording reference(const Prog& p)
{
	if(!p.state.empty()) { disk::spit("state.txt", p.state); }
	disk::reset();
	ProcResult r = run_prog(with(p.args, "--output=ref"), true);
	disk::reset();
	if(!r.exited || r.code != 0) { fail("reference", "the undisturbed run ends with status %d, signal %d", r.code, r.signal); }
	Recording ref = load_recording("ref");
	if(ref.load != 0 || ref.read != 0) { fail("reference", "the recording of the undisturbed run cannot be read"); }
	std::vector<uint64_t> dumps = p.dumps();
	if(ref.f.size() != dumps.size()) { fail("cadence", "the undisturbed run recorded %zu frames, its dump step calls for %zu", ref.f.size(), dumps.size()); }
	for(size_t i = 0; i != dumps.size(); ++i)
	{
		if((!p.substeps && ref.f[i].step != dumps[i]) || std::fabs(ref.f[i].time - p.dt * static_cast<double>(dumps[i])) > 1e-9 * p.dt)
		{
			fail("cadence", "frame %zu of the undisturbed run is step %llu time %.12g, the dump step calls for step %llu", i,
				 static_cast<unsigned long long>(ref.f[i].step), ref.f[i].time, static_cast<unsigned long long>(dumps[i]));
		}
	}
	g->sim_time += p.dt * p.steps;
	return ref;
}
}
