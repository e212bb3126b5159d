// Thread-schedule properties C10..C13: the multi-threaded engines under the simulated OpenMP runtime.
#include "world.h"
#include "disk.h"
#include "simomp.h"
#include "prog.h"
#include "engmodel.h"
#include "nbody_step_visitor.h"
#include <functional>
#include <sstream>

namespace {
void coverage()
{
	count("omp:switches", static_cast<uint64_t>(simomp::switches));
	count("omp:regions", static_cast<uint64_t>(simomp::regions));
	count("omp:accesses", static_cast<uint64_t>(simomp::accesses));
	count("omp:conflicting accesses", static_cast<uint64_t>(simomp::conflicts));
	g->sim_time += 1e-9 * static_cast<double>(simomp::accesses);
}

// which bodies the ah engine treats as near, and the pull of the rest at the time of the full evaluation
struct AhModel {
	std::vector<std::vector<size_t>> near;
	std::vector<std::array<long double, 3>> far;
	Vec far_scale;
	bool borderline = false;
	static void pull(const Cloud& c, size_t i, size_t j, long double o[3], long double* r2o)
	{
		long double d[3] = { static_cast<long double>(c.x[j]) - c.x[i], static_cast<long double>(c.y[j]) - c.y[i], static_cast<long double>(c.z[j]) - c.z[i] };
		long double r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
		*r2o = r2;
		if(r2 < static_cast<long double>(nbody::MinDistance)) { r2 = nbody::MinDistance; }
		long double k = c.m[j] / (r2 * std::sqrt(r2));
		for(int q = 0; q != 3; ++q) { o[q] = d[q] * k; }
	}
	void full(const Cloud& c, double max_dist, double min_force)
	{
		near.assign(c.n, std::vector<size_t>());
		far.assign(c.n, std::array<long double, 3>{ { 0, 0, 0 } });
		far_scale.assign(c.n, 0);
		for(size_t i = 0; i != c.n; ++i)
		{
			for(size_t j = 0; j != c.n; ++j)
			{
				if(i == j) { continue; }
				long double a[3], r2;
				pull(c, i, j, a, &r2);
				long double f2 = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) * c.m[i] * c.m[i];
				long double md = static_cast<long double>(max_dist) * max_dist, mf = static_cast<long double>(min_force) * min_force;
				if(std::fabs(r2 - md) < 1e-9L * md || std::fabs(f2 - mf) < 1e-9L * mf) { borderline = true; }
				if(r2 < md || f2 > mf) { near[i].push_back(j); }
				else { for(int q = 0; q != 3; ++q) { far[i][q] += a[q]; } far_scale[i] += static_cast<double>(std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])); }
			}
		}
	}
	void sparse(const Cloud& c, std::vector<std::array<long double, 3>>& acc, Vec& tol) const
	{
		acc = far;
		tol.assign(c.n, 0);
		for(size_t i = 0; i != c.n; ++i)
		{
			double s = far_scale[i];
			for(size_t j : near[i])
			{
				long double a[3], r2;
				pull(c, i, j, a, &r2);
				for(int q = 0; q != 3; ++q) { acc[i][q] += a[q]; }
				s += static_cast<double>(std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]));
			}
			tol[i] = 4 * (static_cast<double>(c.n) + 16) * DBL_EPSILON * s + 1e-290;
		}
	}
};
// ------------------------------------------------------------------------------------------------ C10
void run_c10()
{
	static const size_t ns[] = { 2, 1, 3, 5, 7, 16, 31, 63, 64, 65, 100, 128, 129, 150, 200 };
	size_t n = ns[choose(S_WORK, thorough() ? 15 : 13)];
	if(choose(S_WORK, 3) == 2) { n = 1 + choose(S_WORK, 140); }
	static const size_t big[] = { 256, 300, 512, 577, 640, 700 };
	const bool large = choose(S_WORK, 10) == 9;		// more blocks of bodies than threads and the other way round
	if(large) { n = big[choose(S_WORK, 6)]; }
	if(choose(S_WORK, 100) == 99) { static const size_t huge[] = { 1030, 1024, 1300 }; n = huge[choose(S_WORK, 3)]; count("runs with more than 1000 bodies"); }
	static const char* en[] = { "openmp", "block", "ah" };
	QVariantMap p;
	std::string e = en[choose(S_WORK, 3)];
	p["engine"] = e.c_str();
	uint64_t rate = 1;
	double md = 10, mf = 1e-4;
	if(e == "ah")
	{
		static const uint64_t rates[] = { 2, 1, 3, 5, 1000 };
		static const double mds[] = { 10, 30, 0.5, 0, 1e4 };
		static const double mfs[] = { 1e-4, 1e-2, 1, 1e9 };
		rate = rates[choose(S_WORK, 5)];
		md = mds[choose(S_WORK, 5)];
		mf = mfs[choose(S_WORK, 4)];
		p["full_recompute_rate"] = static_cast<qulonglong>(rate);
		p["max_dist"] = md;
		p["min_force"] = mf;
	}
	int kind = static_cast<int>(choose(S_WORK, 8));
	std::vector<Call> calls = draw_calls(n, kind, 1 + choose(S_WORK, 1000));
	if(large && calls.size() > 2) { calls.resize(2); }
	event("engine %sn=%zu kind=%d calls=%zu", show(p).c_str(), n, kind, calls.size());
	simomp::reset();
	std::vector<Vec> one = evaluate(p, calls, Dom());
	simomp::draw_config(8, false);
	std::vector<Vec> many = evaluate(p, calls, Dom());
	coverage();
	AhModel ah;
	bool have = false;
	for(size_t k = 0; k != calls.size(); ++k)
	{
		std::vector<std::array<long double, 3>> acc;
		Vec tol;
		if(e == "ah")
		{
			bool full = calls[k].step % rate == 0 || !have;
			have = true;
			if(full) { ah.full(calls[k].c, md, mf); direct(calls[k].c, acc, tol); }
			else { ah.sparse(calls[k].c, acc, tol); count("sparse evaluations"); }
			if(!full && ah.borderline) { same(many[k], one[k], e.c_str(), static_cast<int>(k)); continue; }
		}
		else { direct(calls[k].c, acc, tol); }
		check_values(calls[k], many[k], k, e.c_str(), acc, tol);
		same(many[k], one[k], e.c_str(), static_cast<int>(k));
		count("evaluations compared");
		hash_bytes(many[k].data(), many[k].size() * 8);
	}
}

// ------------------------------------------------------------------------------------------------ C11
void run_c11()
{
	static const size_t ns[] = { 2, 3, 1, 5, 8, 33, 64, 65, 66, 100, 129, 131, 150, 200, 260 };
	size_t n = ns[choose(S_WORK, 15)];
	if(choose(S_WORK, 3) == 2) { n = 1 + choose(S_WORK, 200); }
	static const size_t big[] = { 128, 256, 512, 256, 257, 384, 511, 256, 640, 192 };
	const bool large = choose(S_WORK, 4) == 3;
	if(large) { n = big[choose(S_WORK, 10)]; }
	if(choose(S_WORK, 60) == 59) { static const size_t huge[] = { 1030, 1024, 1100 }; n = huge[choose(S_WORK, 3)]; count("runs with more than 1000 bodies"); }
	QVariantMap p;
	p["engine"] = "simple_bh";
	static const char* lay[] = { "tree", "heap", "heap_stackless" };
	const char* layout = lay[choose(S_WORK, 3)];
	p["tree_layout"] = layout;
	const char* tt = choose(S_WORK, 2) ? "nested_tree" : "cycle";
	p["traverse_type"] = tt;
	static const uint64_t rates[] = { 0, 1, 2, 3, 1000 };
	p["tree_build_rate"] = static_cast<qulonglong>(rates[choose(S_WORK, 5)]);
	static const double ratios[] = { 1e9, 10, 4, 30, 1e9, 0, 1, 1e9 };
	double ratio = ratios[choose(S_WORK, 8)];
	static const double large_ratios[] = { 4, 0, 1, 0.5, 10, 2 };	// upper cells are used as a whole, so that their values count
	if(large) { ratio = large_ratios[choose(S_WORK, 6)]; }
	p["distance_to_node_radius_ratio"] = ratio;
	int kind = static_cast<int>(choose(S_WORK, 8));
	std::vector<Call> calls = draw_calls(n, kind, 1 + choose(S_WORK, 1000));
	event("engine %sn=%zu kind=%d calls=%zu", show(p).c_str(), n, kind, calls.size());
	simomp::reset();
	std::vector<Vec> one = evaluate(p, calls, Dom());
	simomp::draw_config(8, false);
	std::vector<Vec> many = evaluate(p, calls, Dom());
	coverage();
	std::string what = std::string(layout) + "/" + tt;
	for(size_t k = 0; k != calls.size(); ++k)
	{
		const Cloud& c(calls[k].c);
		std::vector<std::array<long double, 3>> acc;
		Vec tol;
		direct(c, acc, tol);
		if(ratio < 1e8)
		{
			// a cell of radius R stands for its bodies only from a distance above ratio * R
			double rel = ratio >= 4 ? 8 / (ratio * ratio) * std::pow(ratio / (ratio - 1), 4) : std::numeric_limits<double>::infinity();
			for(size_t i = 0; i != n; ++i) { tol[i] = ratio >= 4 ? tol[i] + rel * world::accel_scale(c, i) : DBL_MAX; }
		}
		else { count("evaluations compared with the direct sum"); for(size_t i = 0; i != n; ++i) { tol[i] *= 2; } }
		check_values(calls[k], many[k], k, what.c_str(), acc, tol);
		same(many[k], one[k], what.c_str(), static_cast<int>(k));
		count("evaluations compared");
		hash_bytes(many[k].data(), many[k].size() * 8);
	}
}

// ------------------------------------------------------------------------------------------------ C12
void run_c12()
{
	static const size_t ns[] = { 1, 2, 3, 5, 8, 13, 40, 64, 100, 131, 256, 700 };
	size_t n = ns[choose(S_WORK, 12)];
	if(choose(S_WORK, 60) == 59) { static const size_t huge[] = { 3000, 1400, 5000, 12000 }; n = huge[choose(S_WORK, 4)]; count("runs with more than 1000 bodies"); }
	const char* en[] = { "openmp", "block", "ah", "simple_bh", "simple" };
	const char* engine = en[choose(S_WORK, 5)];
	Dom dom;
	dom.pad = choose(S_WORK, 2) != 0;
	QVariantMap p;
	p["engine"] = engine;
	event("engine %s n=%zu", engine, n);
	std::vector<Vec> init;
	std::vector<Op> ops;
	draw_ops(n, dom, init, ops);
	const bool at_end = choose(S_WORK, 2) != 0;
	simomp::reset();
	OpRes one = apply(p, n, init, ops, dom);
	simomp::draw_config(8, false);
	OpRes many = apply(p, n, init, ops, dom, at_end);
	coverage();
	same_ops(ops, one, many);
	check_ops(n, dom, init, ops, one, many);
}

// ------------------------------------------------------------------------------------------------ C13
void compare_files(const std::string& a, const std::string& b)
{
	std::set<std::string> fa, fb;
	for(const std::string& f : disk::files())
	{
		if(f.compare(0, a.size(), a) == 0) { fa.insert(f.substr(a.size())); }
		if(f.compare(0, b.size(), b) == 0) { fb.insert(f.substr(b.size())); }
	}
	for(const std::string& f : fa) { if(!fb.count(f)) { fail("files-differ", "the file %s is written on one thread only", f.c_str()); } }
	for(const std::string& f : fb) { if(!fa.count(f)) { fail("files-differ", "the file %s is written under this schedule only", f.c_str()); } }
	for(const std::string& f : fa)
	{
		std::string x = disk::slurp(a + f), y = disk::slurp(b + f);
		if(x != y)
		{
			size_t i = 0;
			while(i < x.size() && i < y.size() && x[i] == y[i]) { ++i; }
			fail("files-differ", "the file %s differs from byte %zu (%zu bytes on one thread, %zu under this schedule)", f.c_str(), i, x.size(), y.size());
		}
		count("files compared");
		hash_bytes(x.data(), x.size());
	}
}
void run_c13()
{
	prog::Prog p = prog::draw_prog(false);
	simomp::reset();
	prog::Recording ref = prog::reference(p);
	simomp::draw_config(8, false);
	sim::ProcResult r = process([&] { disk::start(); int rc = world::run_main(prog::with(p.args, "--output=rec")); coverage(); return rc; });
	simomp::reset();
	disk::reset();
	if(!r.exited) { fail("program-crash", "the program died of signal %d", r.signal); }
	if(r.code != 0) { fail("exit-status", "the program ends with status %d under this schedule and with 0 on one thread", r.code); }
	compare_files("ref", "rec");
	count("programs compared");
}

// ------------------------------------------------------------------------------------------------ C14
struct Seen { uint64_t step; double time; std::vector<nbvertex_t> r, v; size_t cc = 0; };
Seen look(const nbody_data* d)
{
	Seen s;
	s.step = d->get_step();
	s.time = d->get_time();
	s.r.assign(d->get_vertites(), d->get_vertites() + d->get_count());
	s.v.assign(d->get_velosites(), d->get_velosites() + d->get_count());
	return s;
}
struct Watcher : nbody_step_visitor {
	std::vector<Seen> seen;
	nbody_engine* engine = nullptr;
	std::function<void(const nbody_data*, const Seen&)> more;
	void visit(const nbody_data* d) override
	{
		seen.push_back(look(d));
		if(engine) { seen.back().cc = engine->get_compute_count(); }
		if(more) { more(d, seen.back()); }
	}
};
// the lines a run prints
std::vector<std::string> lines;
void hear(QtMsgType, const QMessageLogContext&, const QString& s) { if(s.startsWith('#')) { lines.push_back(s.toStdString()); } }
struct Sums {
	long double p[3] = {}, l[3] = {}, c[3] = {}, e = 0, pa = 0, la = 0, ca = 0, ea = 0;
	bool sharp = true;					// no pair of bodies is so near the softening distance that rounding decides
	static void add(long double* to, long double x, long double y, long double z, long double& mag) { to[0] += x; to[1] += y; to[2] += z; mag += std::fabs(x) + std::fabs(y) + std::fabs(z); }
	explicit Sums(const nbody_data* d)
	{
		long double m = 0;
		for(size_t i = 0; i != d->get_count(); ++i)
		{
			const nbvertex_t& r(d->get_vertites()[i]);
			const nbvertex_t& v(d->get_velosites()[i]);
			long double q = d->get_mass()[i], x = r.x, y = r.y, z = r.z, u = q * v.x, w = q * v.y, o = q * v.z;
			m += q;
			add(p, u, w, o, pa);
			add(c, x * q, y * q, z * q, ca);
			add(l, y * o - z * w, z * u - x * o, x * w - y * u, la);
			la += std::fabs(y * o) + std::fabs(z * w) + std::fabs(z * u) + std::fabs(x * o) + std::fabs(x * w) + std::fabs(y * u);
			long double k = q * (static_cast<long double>(v.x) * v.x + static_cast<long double>(v.y) * v.y + static_cast<long double>(v.z) * v.z) / 2;
			e += k;
			ea += k;
			for(size_t j = 0; j != i; ++j)
			{
				const nbvertex_t& b(d->get_vertites()[j]);
				long double dx = x - b.x, dy = y - b.y, dz = z - b.z, r2 = dx * dx + dy * dy + dz * dz;
				if(std::fabs(r2 - nbody::MinDistance) < 1e-9L * nbody::MinDistance) { sharp = false; }
				if(r2 < nbody::MinDistance) { continue; }
				// the difference of positions is rounded before it is squared
				long double pe = q * d->get_mass()[j] / std::sqrt(r2);
				e -= pe;
				ea += pe;
			}
		}
		for(long double& x : c) { x /= m; }
		ca /= m;
	}
};
void near_to(const nbvertex_t& a, const long double* b, long double mag, const char* what, const std::string& when)
{
	long double tol = 1e-14L * mag;
	if(!(std::fabs(a.x - b[0]) <= tol && std::fabs(a.y - b[1]) <= tol && std::fabs(a.z - b[2]) <= tol))
	{
		fail("report", "%s: the %s is %.17g %.17g %.17g, that of the bodies is %.17Lg %.17Lg %.17Lg", when.c_str(), what, a.x, a.y, a.z, b[0], b[1], b[2]);
	}
}
void same_state(const Seen& a, const Seen& b, const char* cls, const std::string& what)
{
	if(a.step != b.step || memcmp(&a.time, &b.time, 8) != 0) { fail(cls, "%s: step %llu time %.17g instead of step %llu time %.17g", what.c_str(), static_cast<unsigned long long>(a.step), a.time, static_cast<unsigned long long>(b.step), b.time); }
	for(size_t i = 0; i != a.r.size(); ++i)
	{
		if(!world::same_bits(&a.r[i], &b.r[i], sizeof(a.r[i])) || !world::same_bits(&a.v[i], &b.v[i], sizeof(a.v[i])))
		{
			fail(cls, "%s: at time %.12g body %zu is at %.17g %.17g %.17g instead of %.17g %.17g %.17g (or its velocity differs)", what.c_str(), a.time, i, a.r[i].x, a.r[i].y, a.r[i].z, b.r[i].x, b.r[i].y, b.r[i].z);
		}
	}
}
// one simulation: its bodies, engine and solver
struct Sim {
	nbody_data data;
	std::unique_ptr<nbody_engine> engine;
	std::unique_ptr<nbody_solver> solver;
	explicit Sim(const prog::Prog& p, const char* file)
	{
		QVariantMap q;
		for(const std::string& a : p.args)
		{
			size_t e = a.find('=');
			q[QString::fromStdString(a.substr(2, e - 2))] = QString::fromStdString(a.substr(e + 1));
		}
		if(p.state.empty()) { data.make_universe(q["stars_count"].toUInt(), 40, 40, 40); }
		else if(!data.load_initial(file, QString::fromStdString(p.type))) { fail("reference", "the initial state is refused"); }
		data.set_check_list(q["check_list"].toString());
		engine.reset(nbody_create_engine(q));
		if(!engine || !engine->init(&data)) { fail("reference", "the engine cannot be made"); }
		solver.reset(nbody_create_solver(q));
		if(!solver) { fail("reference", "the solver cannot be made"); }
		solver->set_engine(engine.get());
	}
	Seen now() { engine->get_data(&data); return look(&data); }
};
// every state of one undivided run on one thread
std::vector<Seen> trajectory(const prog::Prog& p, const char* file)
{
	Sim s(p, file);
	std::vector<Seen> t(1, s.now());
	auto w = std::make_shared<Watcher>();
	w->engine = s.engine.get();
	s.solver->add_check_visitor(w);
	if(s.solver->run(&s.data, nullptr, p.max_time, 0, p.dt * 0.5) != 0) { fail("reference", "an undisturbed run without a recording fails"); }
	t.insert(t.end(), w->seen.begin(), w->seen.end());
	if(t.size() != p.steps + 1) { fail("visitors", "a run of %u steps with a check at each of them called its visitor %zu times", p.steps, t.size() - 1); }
	return t;
}
struct Run {						// a simulation that is driven in pieces
	prog::Prog p;
	std::string base;
	std::vector<Seen> t;
	std::unique_ptr<Sim> s;
	std::shared_ptr<Watcher> w;
	std::unique_ptr<nbody_data_stream> stream;
	std::string name;				// of the recording that is open
	std::vector<size_t> frames;		// steps it has to hold
	bool torn = false;				// a write to it failed
	size_t at = 0;					// steps done
	unsigned pieces = 0, names = 0;
	// reports
	std::string list;
	std::unique_ptr<Sums> first;
	size_t counted = 0;
	static double printed(const std::string& line, const char* tag, bool& there)
	{
		std::istringstream in(line);
		std::string a, b;
		there = false;
		while(in >> a)
		{
			if(a == tag && in >> b) { there = true; return b == "nan" ? std::nan("") : b == "-nan" ? std::nan("") : b == "inf" ? HUGE_VAL : std::atof(b.c_str()); }
		}
		return 0;
	}
	void report(const nbody_data* d, const Seen& now)
	{
		std::string when = prog::fmt("run %u of %s, report of step %llu", pieces, base.c_str(), static_cast<unsigned long long>(now.step));
		if(lines.size() != 1) { fail("report-lost", "%s: %zu lines are printed", when.c_str(), lines.size()); }
		const std::string line = lines[0];
		lines.clear();
		Sums sums(d);
		if(!first) { first.reset(new Sums(sums)); }
		auto value = [&](const char* tag, bool wanted, double v, double rel)
		{
			bool there = false;
			double x = printed(line, tag, there);
			if(there != wanted) { fail("report", "%s: the line <%s> %s %s", when.c_str(), line.c_str(), there ? "holds" : "lacks", tag); }
			if(wanted && !(x == v || (std::isnan(x) && std::isnan(v)) || std::fabs(x - v) <= rel)) { fail("report", "%s: the line <%s> gives %s as %.12g, it is %.12g", when.c_str(), line.c_str(), tag, x, v); }
		};
		auto e3 = [](double v) { return 6e-4 * std::fabs(v); };
		value("#", true, static_cast<double>(now.step), 0);
		value("t", true, now.time, 6e-7);
		value("CC", true, static_cast<double>(now.cc), 0);
		value("SC", true, static_cast<double>(now.cc - counted), 0);
		counted = now.cc;
		bool P = list.find('P') != std::string::npos, L = list.find('L') != std::string::npos, V = list.find('V') != std::string::npos, E = list.find('E') != std::string::npos;
		value("dP", P, d->get_impulce_err(), e3(d->get_impulce_err()));
		value("dL", L, d->get_impulce_moment_err(), e3(d->get_impulce_moment_err()));
		value("dE", E, d->get_energy_err(), e3(d->get_energy_err()));
		double vcm = (d->get_last_mass_center() - d->get_initial_mass_center()).length() / now.time;
		value("Vcm", V, vcm, e3(vcm));
		auto err = [&](double is, const nbvertex_t& a, const nbvertex_t& b, const char* what)
		{
			double ref = 100.0 * (a - b).length() / b.length();
			if(!(is == ref || (std::isnan(is) && std::isnan(ref)) || std::fabs(is - ref) <= 1e-12 * ref)) { fail("report", "%s: the error of the %s is %.17g instead of %.17g", when.c_str(), what, is, ref); }
		};
		if(P)
		{
			near_to(d->get_last_total_impulce(), sums.p, sums.pa, "impulse", when);
			near_to(d->get_initial_impulce(), first->p, first->pa, "first impulse", when);
			err(d->get_impulce_err(), d->get_last_total_impulce(), d->get_initial_impulce(), "impulse");
		}
		if(L)
		{
			near_to(d->get_last_total_impulce_moment(), sums.l, sums.la, "angular momentum", when);
			near_to(d->get_initial_impulce_moment(), first->l, first->la, "first angular momentum", when);
			err(d->get_impulce_moment_err(), d->get_last_total_impulce_moment(), d->get_initial_impulce_moment(), "angular momentum");
		}
		if(V)
		{
			near_to(d->get_last_mass_center(), sums.c, sums.ca, "mass centre", when);
			near_to(d->get_initial_mass_center(), first->c, first->ca, "first mass centre", when);
		}
		if(E && sums.sharp && first->sharp)
		{
			if(!(std::fabs(d->get_last_total_energy() - sums.e) <= 1e-11L * sums.ea)) { fail("report", "%s: the energy is %.17g, that of the bodies is %.17Lg", when.c_str(), d->get_last_total_energy(), sums.e); }
			if(!(std::fabs(d->get_initial_energy() - first->e) <= 1e-11L * first->ea)) { fail("report", "%s: the first energy is %.17g, that of the bodies was %.17Lg", when.c_str(), d->get_initial_energy(), first->e); }
			double ref = std::fabs(100.0 * (d->get_last_total_energy() - d->get_initial_energy()) / d->get_initial_energy());
			double is = d->get_energy_err();
			if(!(is == ref || (std::isnan(is) && std::isnan(ref)) || std::fabs(is - ref) <= 1e-12 * ref)) { fail("report", "%s: the error of the energy is %.17g instead of %.17g", when.c_str(), is, ref); }
		}
		count("reports compared");
	}
	size_t due(size_t from, double rel) const { return from + std::max<size_t>(1, static_cast<size_t>(std::ceil(rel - 0.1))); }
	void verify(const std::string& what)
	{
		if(name.empty()) { return; }
		nbody_data_stream_reader rd;
		int rc = rd.load(QString::fromStdString(name));
		if(frames.empty()) { return; }
		if(rc != 0) { if(torn) { return; } fail("recording", "%s: the recording cannot be opened", what.c_str()); }
		if(rd.get_frame_count() < frames.size() || (!torn && rd.get_frame_count() != frames.size())) { fail("recording", "%s: %zu frames are recorded, the run acknowledged %zu", what.c_str(), rd.get_frame_count(), frames.size()); }
		nbody_data d;
		d.resize(rd.get_body_count());
		for(size_t i = 0; i != frames.size(); ++i)
		{
			if(rd.seek(i) != 0 || rd.read(&d) != 0) { fail("recording", "%s: frame %zu cannot be read", what.c_str(), i); }
			Seen f = look(&d), r = t[frames[i]];
			if(!world::close_time(f.time, r.time)) { fail("recording", "%s: frame %zu is of time %.17g instead of %.17g", what.c_str(), i, f.time, r.time); }
			f.time = r.time;
			same_state(f, r, "recording", what + ": frame " + std::to_string(i));
			count("recorded frames compared");
		}
	}
	void piece()
	{
		// where to
		size_t to = p.steps;
		uint32_t far = choose(S_WORK, 8);
		if(far > 4) { to = at + choose(S_WORK, static_cast<uint32_t>(p.steps - at) + 1); }
		else if(far > 0) { to = std::min<size_t>(p.steps, at + far); }
		// the end lies inside the step that leads to <to> or at its very end; a run that is there already has nothing to do
		static const double within[] = { 0.5, 0.95, 0.05, 0 };
		double end = to == 0 ? -1.0 : t[to].time - p.dt * within[choose(S_WORK, 4)];
		static const double part[] = { 0, 0.25, 0.5, 0.75, -0.5 };
		double crel = choose(S_WORK, 3) ? 1 + choose(S_WORK, 4) + part[choose(S_WORK, 5)] : 0;
		double drel = choose(S_WORK, 4) ? 1 + choose(S_WORK, 4) + part[choose(S_WORK, 5)] : 0;
		int how = static_cast<int>(choose(S_WORK, 5));		// 0 no recording, 1 one that was never opened, 2.. an open one
		std::string what = prog::fmt("run %u of %s, steps %zu to %zu", pieces, base.c_str(), at, to);
		nbody_data_stream closed;
		nbody_data_stream* st = nullptr;
		if(how == 1) { st = &closed; }
		if(how >= 2)
		{
			if(!stream || torn || (at == 0 && !frames.empty()) || choose(S_WORK, 3) == 2)
			{
				verify(what + " (the recording before)");
				stream.reset(new nbody_data_stream);
				name = prog::fmt("%s%u", base.c_str(), names++);
				frames.clear();
				torn = false;
				static const double rel[] = { 1e9, 0.01, 1, 2.5 };
				if(stream->open(QString::fromStdString(name), static_cast<qint64>(rel[choose(S_WORK, 4)] * 48 * static_cast<double>(p.nb))) != 0) { fail("recording", "%s: the recording cannot be made", what.c_str()); }
			}
			st = stream.get();
			if(choose(S_FAULT, 3) == 2)
			{
				static const double ps[] = { 0.05, 0.3, 1 };
				disk::pol.write_err = ps[choose(S_FAULT, 3)];
				if(choose(S_FAULT, 2)) { disk::pol.budget = static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(96 * p.nb))); }
			}
		}
		bool verbose = list.empty() && choose(S_WORK, 4) == 3;
		if(verbose) { s->data.set_check_list("PLVE"); }
		event("%s: end %.12g check %.3g dump %.3g recording %d", what.c_str(), end, crel, drel, how);
		w->seen.clear();
		disk::start();
		disk::faults = 0;
		int rc = s->solver->run(&s->data, st, end, drel * p.dt, crel * p.dt);
		int64_t faults = disk::faults;
		disk::reset();
		// what should have happened
		size_t step = at, checked = at, dumped = at, visit = 0;
		bool stop = false;
		std::vector<size_t> dumps;
		Seen now = s->now();
		size_t reached = 0;
		while(reached < t.size() && memcmp(&t[reached].time, &now.time, 8) != 0) { ++reached; }
		if(reached == t.size()) { fail("trajectory", "%s: the run ended at time %.17g, no step of the undivided run has it", what.c_str(), now.time); }
		if(reached < at) { fail("trajectory", "%s: the run ended at step %zu, before it began", what.c_str(), reached); }
		if(st && drel > 0 && at == 0) { dumps.push_back(0); if(rc != 0 && reached == 0) { stop = true; } }
		while(!stop && step < to && (rc == 0 || step < reached))
		{
			++step;
			if(crel > 0 && step >= due(checked, crel))
			{
				if(visit >= w->seen.size()) { fail("visitors", "%s: no visit at step %zu, where the check interval calls for one", what.c_str(), step); }
				same_state(w->seen[visit], t[step], "visitors", what + ": visit " + std::to_string(visit));
				if(!list.empty() && w->seen[visit].cc != t[step].cc) { fail("evaluations", "%s: %zu evaluations are counted at step %zu, %zu in the undivided run on one thread", what.c_str(), w->seen[visit].cc, step, t[step].cc); }
				++visit;
				checked = step;
				count("visits compared");
			}
			if(st && drel > 0 && step >= due(dumped, drel)) { dumps.push_back(step); dumped = step; }
		}
		if(!list.empty() && !lines.empty()) { fail("report-lost", "%s: a report that is not due: %.200s", what.c_str(), lines[0].c_str()); }
		if(visit != w->seen.size()) { fail("visitors", "%s: %zu visits, the check interval calls for %zu", what.c_str(), w->seen.size(), visit); }
		if(rc == 0)
		{
			if(reached != std::max(to, at)) { fail("trajectory", "%s: the run ended at step %zu", what.c_str(), reached); }
			if(how == 1 && !dumps.empty()) { fail("status", "%s: a run whose recording is not open reports success", what.c_str()); }
		}
		else
		{
			// stopped by a frame that could not be recorded: one that was due at the step reached
			if(dumps.empty() || dumps.back() != reached) { fail("status", "%s: the run reports failure at step %zu, where no frame was due", what.c_str(), reached); }
			if(how >= 2 && faults == 0) { fail("status", "%s: the run reports failure although nothing failed", what.c_str()); }
			dumps.pop_back();
			count("runs stopped by a failed recording");
			if(how >= 2) { torn = true; }
		}
		same_state(now, t[reached], "trajectory", what);
		if(how >= 2) { if(faults) { torn = true; } frames.insert(frames.end(), dumps.begin(), dumps.end()); }
		at = reached;
		++pieces;
		count("pieces run");
	}
};
void run_pieces(bool reports)
{
	lines.clear();
	unsigned n = choose(S_WORK, 2) ? 2 : 1;
	std::vector<std::unique_ptr<Run>> runs;
	simomp::reset();
	for(unsigned i = 0; i != n; ++i)
	{
		runs.emplace_back(new Run());
		Run& r(*runs.back());
		// the other simulation may be of the same kind, with other bodies or the same
		if(i && choose(S_WORK, 4)) { r.p = runs[0]->p; if(!r.p.state.empty() && choose(S_WORK, 2)) { r.p.state = prog::state_text(r.p.nb, 200, r.p.type); } }
		else { r.p = prog::draw_prog(choose(S_WORK, 8) != 7); }
		r.base = i ? "b" : "a";
		const std::string file = "state" + std::to_string(i) + ".txt";
		if(!r.p.state.empty()) { disk::spit(file, r.p.state); }
		r.t = trajectory(r.p, file.c_str());
		r.s.reset(new Sim(r.p, file.c_str()));
		r.w = std::make_shared<Watcher>();
		r.w->engine = r.s->engine.get();
		r.s->solver->add_check_visitor(r.w);
		if(reports)
		{
			static const char* const lists[] = { "PLV", "PLVE", "E", "P", "LV", "EVLP", "-" };
			r.list = lists[choose(S_WORK, 7)];
			r.s->data.set_check_list(QString::fromStdString(r.list));
			r.w->more = [&r](const nbody_data* d, const Seen& n) { r.report(d, n); };
		}
		g->sim_time += r.p.dt * r.p.steps;
	}
	simomp::draw_config(8, false);
	lines.clear();
	if(reports) { qInstallMessageHandler(hear); }
	for(unsigned k = 0; k != 40; ++k)
	{
		Run* r = runs[choose(S_WORK, n)].get();
		if(n == 2 && r->at == r->p.steps && choose(S_WORK, 4)) { r = r == runs[0].get() ? runs[1].get() : runs[0].get(); }
		r->piece();
		bool done = true;
		for(auto& q : runs) { done = done && q->at == q->p.steps; }
		if(done) { break; }
	}
	for(auto& r : runs) { r->stream.reset(); r->verify("recording of " + r->base); hash_bytes(r->t.back().r.data(), r->t.back().r.size() * sizeof(nbvertex_t)); }
	coverage();
	simomp::reset();
	world::quiet();
	runs.clear();
}
void run_c14() { run_pieces(false); }
void run_c15() { run_pieces(true); }
}

namespace sim {
void run_setup()
{
	world::quiet();
	disk::reset();
	simomp::reset();
}
#define STUB "OpenMP runtime (simulated libgomp: teams, loops, reductions, tasks, locks); every memory access of the library is a scheduling point; wall clock"
const Property properties[] = {
	{ "C10", run_c10, "preemption at any memory access, 1 to 65 threads, teams smaller than asked for, unfair and stalled threads, garbage in fresh memory", "engines openmp, block, ah; nbody_data", STUB,
	  "one run: a drawn engine, body set and sequence of one to four evaluations on one thread and under a drawn schedule; non-trivial: more than one thread ran and was switched" },
	{ "C11", run_c11, "preemption at any memory access, deferred and reordered tasks, 1 to 65 threads, teams smaller than asked for, garbage in fresh memory", "engine simple_bh; nbody_space_tree, nbody_space_heap, nbody_space_heap_stackless; nbody_data", STUB,
	  "one run: a drawn layout, traversal, rebuild rate, opening ratio, body set and sequence of evaluations on one thread and under a drawn schedule; non-trivial: more than one thread ran and was switched" },
	{ "C12", run_c12, "preemption at any memory access, 1 to 65 threads, teams smaller than asked for, garbage in fresh memory", "vector operations of the engines simple and openmp and those that inherit them", STUB,
	  "one run: one to fifteen drawn operations over six buffers on one thread and under a drawn schedule, each compared with its element-wise definition; non-trivial: more than one thread ran and was switched" },
	{ "C13", run_c13, "preemption at any memory access, deferred tasks, 1 to 65 threads, teams smaller than asked for, clock jumps in both directions and stalls, other date and entropy, garbage in fresh memory", "simulation program (test/main), solvers, CPU engines, nbody_data, nbody_data_stream", STUB ", system calls on the recording's files",
	  "one run: the program with drawn engine, solver, bodies, steps and cadence on one thread and under a drawn schedule and clock, files compared byte by byte; non-trivial: more than one thread ran and was switched, or the clock jumped" },
	{ "C14", run_c14, "preemption at any memory access, deferred tasks, 1 to 65 threads, teams smaller than asked for, write errors and a full disk while recording, garbage in fresh memory", "solvers with their run loop and visitors, CPU engines, nbody_data, nbody_data_stream", STUB ", system calls on the recording's files",
	  "one run: one or two simulations of drawn engine, solver and bodies, each driven in up to forty calls of run() with drawn ends, check and dump intervals and recordings, in turn, under a drawn schedule; every visit, frame and end state compared with the undivided run on one thread; non-trivial: more than one piece was run" },
	{ "C15", run_c15, "preemption at any memory access, deferred tasks, 1 to 65 threads, teams smaller than asked for, clock jumps in both directions and stalls, write errors and a full disk while recording, garbage in fresh memory", "solvers with their run loop, CPU engines, nbody_data with its statistics, nbody_data_stream", STUB ", system calls on the recording's files",
	  "one run: one or two simulations of drawn engine, solver, bodies and check list, driven in turn in up to forty calls of run() with drawn ends, check and dump intervals and recordings under a drawn schedule and clock; every line printed and every total compared with sums over the bodies of that step; non-trivial: more than one piece was run" },
};
const size_t property_count = sizeof(properties) / sizeof(properties[0]);
}
