// Drawn work for an engine (derivative evaluations, vector operations) and its definition in plain arithmetic.
#pragma once
#include "world.h"
#include <array>
#include <cmath>
#include <cfloat>
#include <cstring>
#include <algorithm>
#include <limits>
#include <memory>
#include <set>
#include <QVariantMap>

using namespace sim;
using world::Cloud;

namespace {
typedef std::vector<double> Vec;
const double kGuard = -7.25e77;			// value of the elements no operation may touch
const size_t kPad = 24;
const char* other_run = "on one thread";
// what the engines under test promise beyond the common definition
struct Dom { bool pad = true; bool compensated = true; bool self_copy = true; bool reduce = true; bool derive = false; };

bool refusal_ok = false;				// an engine that reports failure is a correct answer (a runtime call was made to fail)
struct Refused : std::exception {};
[[noreturn]] void refused(const char* cls, const char* what)
{
	if(refusal_ok) { throw Refused(); }
	fail(cls, "%s", what);
}
struct Mem {							// an engine buffer with a guard area behind the problem
	nbody_engine* e;
	nbody_engine::memory* m;
	size_t n;
	Mem(nbody_engine* en, size_t count, bool pad) : e(en), m(en->create_buffer((count + (pad ? kPad : 0)) * sizeof(double))), n(count + (pad ? kPad : 0)) { if(!m) { refused("no-buffer", "create_buffer failed"); } }
	~Mem() { e->free_buffer(m); }
	Mem(const Mem&) = delete;
	void put(const Vec& v) { Vec t(n, kGuard); std::copy(v.begin(), v.end(), t.begin()); e->write_buffer(m, t.data()); }
	Vec get(size_t count, const char* what)
	{
		Vec t(n);
		e->read_buffer(t.data(), m);
		for(size_t i = count; i < n; ++i) { if(memcmp(&t[i], &kGuard, 8) != 0) { fail("out-of-bounds", "%s wrote element %zu behind the %zu elements of the problem", what, i, count); } }
		t.resize(count);
		return t;
	}
};
void same(const Vec& a, const Vec& b, const char* what, int call)
{
	for(size_t i = 0; i != a.size(); ++i)
	{
		if(memcmp(&a[i], &b[i], 8) != 0)
		{
			fail("schedule-dependent", "%s, call %d: element %zu of %zu is %.17g under this schedule and %.17g %s", what, call, i, a.size(), a[i], b[i], other_run);
		}
	}
}
Vec state(const Cloud& c)
{
	Vec y;
	for(const Vec* v : { &c.x, &c.y, &c.z, &c.vx, &c.vy, &c.vz }) { y.insert(y.end(), v->begin(), v->end()); }
	return y;
}
struct Call { uint64_t step; Cloud c; bool computed = false; };
std::vector<Call> draw_calls(size_t n, int kind, uint64_t seed)
{
	std::vector<Call> r;
	uint32_t calls = 1 + choose(S_WORK, 4);
	uint64_t step = choose(S_WORK, 4);
	for(uint32_t k = 0; k != calls; ++k)
	{
		Call q;
		q.step = step;
		q.computed = choose(S_WORK, 2) != 0;	// the state is the result of an engine operation, not a written one
		world::fill_cloud(q.c, n, seed, kind);
		if(k)			// same bodies, moved
		{
			Cloud o;
			world::fill_cloud(o, n, seed + 1000 * k, choose(S_WORK, 3) == 2 ? 3 : kind);
			o.m = q.c.m;
			if(choose(S_WORK, 4) == 3)	// only a few moved
			{
				for(size_t i = 0; i != n; ++i) { if(i % 7) { o.x[i] = r.back().c.x[i]; o.y[i] = r.back().c.y[i]; o.z[i] = r.back().c.z[i]; } }
			}
			q.c = o;
		}
		r.push_back(q);
		step += choose(S_WORK, 3);
	}
	return r;
}
std::vector<Vec> evaluate(const QVariantMap& p, const std::vector<Call>& calls, const Dom& dom)
{
	std::vector<Vec> out;
	std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
	if(!e) { refused("no-engine", "the engine cannot be created"); }
	nbody_data d;
	world::to_data(calls[0].c, d);
	d.set_box_size(100);
	if(!e->init(&d)) { refused("no-engine", "the engine cannot be initialised"); }
	size_t n6 = 6 * calls[0].c.n;
	if(e->problem_size() != n6) { fail("problem-size", "problem size %zu for %zu bodies", e->problem_size(), calls[0].c.n); }
	Mem y(e.get(), n6, dom.pad), f(e.get(), n6, dom.pad);
	for(size_t k = 0; k != calls.size(); ++k)
	{
		d.set_step(calls[k].step);
		Vec s = state(calls[k].c);
		if(calls[k].computed)
		{
			Mem a(e.get(), n6, dom.pad), z(e.get(), n6, dom.pad);
			a.put(s);
			z.put(Vec(n6, -0.0));
			y.put(Vec(n6, 1.25e3));
			e->fmadd(y.m, a.m, z.m, 1);
		}
		else { y.put(s); }
		f.put(Vec(n6, std::numeric_limits<double>::quiet_NaN()));
		e->fcompute(0, y.m, f.m);
		out.push_back(f.get(n6, "fcompute"));
		Vec s2 = y.get(n6, "fcompute");
		if(memcmp(s.data(), s2.data(), n6 * 8) != 0) { fail("input-changed", "fcompute changed its input"); }
	}
	return out;
}
// compares one result with the velocities and with the reference acceleration of every body
void check_values(const Call& q, const Vec& f, size_t call, const char* what, const std::vector<std::array<long double, 3>>& acc, const Vec& tol)
{
	const Cloud& c(q.c);
	const size_t n = c.n;
	const Vec* vs[3] = { &c.vx, &c.vy, &c.vz };
	for(size_t i = 0; i != n; ++i)
	{
		for(size_t k = 0; k != 3; ++k)
		{
			double got = f[k * n + i];
			if(memcmp(&got, &(*vs[k])[i], 8) != 0) { fail("wrong-velocity", "%s, call %zu: body %zu of %zu: derivative of coordinate %zu is %.17g, its velocity is %.17g", what, call, i, n, k, got, (*vs[k])[i]); }
			double a = f[(3 + k) * n + i];
			double d = std::fabs(a - static_cast<double>(acc[i][k]));
			if(!(d <= tol[i])) { fail("wrong-acceleration", "%s, call %zu: body %zu of %zu: acceleration %zu is %.17g instead of %.17g (tolerance %g)", what, call, i, n, k, a, static_cast<double>(acc[i][k]), tol[i]); }
		}
	}
}
double rounding(const Cloud& c, size_t i) { return 4 * (static_cast<double>(c.n) + 16) * DBL_EPSILON * world::accel_scale(c, i) + 1e-290; }
void direct(const Cloud& c, std::vector<std::array<long double, 3>>& acc, Vec& tol)
{
	acc.resize(c.n);
	tol.resize(c.n);
	for(size_t i = 0; i != c.n; ++i) { world::accel_ref(c, i, acc[i].data()); tol[i] = rounding(c, i); }
}
std::string show(const QVariantMap& p)
{
	std::string s;
	for(auto i = p.begin(); i != p.end(); ++i) { s += i.key().toStdString() + "=" + i.value().toString().toStdString() + " "; }
	return s;
}

double draw_value(uint64_t& s, int kind)
{
	double u = static_cast<double>(raw_rand(s) >> 11) / 9007199254740992.0 * 2 - 1;
	if(kind == 1) { return u * std::pow(10.0, static_cast<double>(static_cast<int>(raw_rand(s) % 30) - 15)); }
	if(kind == 2) { return std::floor(u * 5); }
	if(kind == 3) { return u * std::pow(10.0, static_cast<double>(static_cast<int>(raw_rand(s) % 500) - 250)); }	// far from overflow after any sequence of operations
	if(kind == 4) { return u * 1e-200; }
	return u * 100;
}
struct Op { int what; size_t a, b; std::vector<size_t> m; Vec c; double s; };
struct OpRes { std::vector<Vec> v; std::vector<double> red; };
const char* const op_names[] = { "copy_buffer", "fill_buffer", "fmadd_inplace", "fmadd", "fmaddn_inplace", "fmaddn", "fmaddn without base", "fmaddn_corr", "fmaxabs", "clamp", "fcompute" };
const size_t kBufs = 6;

OpRes apply(const QVariantMap& p, size_t n, const std::vector<Vec>& init, const std::vector<Op>& ops, const Dom& dom, bool at_end = false)
{
	std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
	if(!e) { refused("no-engine", "the engine cannot be created"); }
	Cloud c;
	world::fill_cloud(c, n, 1, 0);
	nbody_data d;
	world::to_data(c, d);
	d.set_box_size(100);
	if(!e->init(&d)) { refused("no-engine", "the engine cannot be initialised"); }
	size_t sz = 6 * n;
	{
		Vec y0(sz), s0 = state(c);
		e->read_buffer(y0.data(), e->get_y());
		if(memcmp(y0.data(), s0.data(), sz * 8) != 0) { fail("wrong-result", "the state after initialisation is not the bodies' state"); }
	}
	std::vector<std::unique_ptr<Mem>> m;
	for(size_t i = 0; i != kBufs; ++i) { m.emplace_back(new Mem(e.get(), sz, dom.pad && i == 0)); m[i]->put(init[i]); }
	OpRes r;
	for(const Op& o : ops)
	{
		nbody_engine::memory_array arr;
		for(size_t i : o.m) { arr.push_back(m[i]->m); }
		switch(o.what)
		{
		case 0: e->copy_buffer(m[o.a]->m, m[o.b]->m); break;
		case 1: e->fill_buffer(m[o.a]->m, o.s); if(o.a == 0) { Vec t = Vec(m[0]->n); e->read_buffer(t.data(), m[0]->m); t.resize(sz); m[0]->put(t); } break;	// fills the whole buffer
		case 2: e->fmadd_inplace(m[o.a]->m, m[o.b]->m, o.s); break;
		case 3: e->fmadd(m[o.a]->m, m[o.b]->m, m[o.m[0]]->m, o.s); break;
		case 4: e->fmaddn_inplace(m[o.a]->m, arr, o.c.data(), o.c.size()); break;
		case 5: e->fmaddn(m[o.a]->m, m[o.b]->m, arr, o.c.data(), o.c.size()); break;
		case 6: e->fmaddn(m[o.a]->m, nullptr, arr, o.c.data(), o.c.size()); if(o.a == 0) { Vec t = Vec(m[0]->n); e->read_buffer(t.data(), m[0]->m); t.resize(sz); m[0]->put(t); } break;
		case 7: e->fmaddn_corr(m[o.a]->m, m[o.b]->m, arr, o.c.data(), o.c.size()); break;
		case 8: { double x = -1; e->fmaxabs(m[o.a]->m, x); r.red.push_back(x); break; }
		case 9: e->clamp(m[o.a]->m, o.s); break;
		case 10: e->fcompute(0, m[o.b]->m, m[o.a]->m); break;
		}
		if(at_end && &o != &ops.back()) { r.v.resize(r.v.size() + kBufs); continue; }		// nothing is read in between
		for(size_t i = 0; i != kBufs; ++i) { r.v.push_back(m[i]->get(sz, op_names[o.what])); }
	}
	return r;
}
// what was read in <many> equals what <one> gave; the rest is taken from there
void same_ops(const std::vector<Op>& ops, const OpRes& one, OpRes& many)
{
	for(size_t k = 0; k != many.v.size(); ++k)
	{
		if(many.v[k].empty()) { many.v[k] = one.v[k]; continue; }
		same(many.v[k], one.v[k], op_names[ops[k / kBufs].what], static_cast<int>(k / kBufs));
	}
	for(size_t k = 0; k != many.red.size(); ++k) { if(memcmp(&many.red[k], &one.red[k], 8) != 0) { fail("schedule-dependent", "fmaxabs is %.17g under this schedule and %.17g %s", many.red[k], one.red[k], other_run); } }
}
void draw_ops(size_t n, const Dom& dom, std::vector<Vec>& init, std::vector<Op>& ops)
{
	size_t sz = 6 * n;
	uint64_t s = 1 + choose(S_WORK, 100000);
	int vk = static_cast<int>(choose(S_WORK, 5));
	init.assign(kBufs, Vec());
	for(size_t i = 0; i != kBufs; ++i) { init[i].resize(sz); for(double& x : init[i]) { x = draw_value(s, vk); } }
	if(vk < 3 && choose(S_WORK, 2))	// one element stands out: the only maximum
	{
		size_t at = choose(S_WORK, static_cast<uint32_t>(sz));
		for(size_t i = 0; i != kBufs; ++i) { init[i][at] = (i % 2 ? -1 : 1) * 1e16 * (1.0 + static_cast<double>(i)); }
	}
	for(double& x : init[5]) { x = 0; }		// correction term of the summation
	uint32_t k = 1 + choose(S_WORK, 6);
	bool sum_only = dom.compensated && choose(S_WORK, 4) == 3;	// a long compensated summation into buffer 0
	if(sum_only) { k = 3 + choose(S_WORK, 12); }
	for(uint32_t i = 0; i != k; ++i)
	{
		Op o;
		o.what = sum_only ? 7 : static_cast<int>(choose(S_WORK, dom.derive && vk < 3 ? 12 : 10));
		if(o.what == 11) { o.what = 10; }
		if(o.what == 8 && !dom.reduce) { o.what = 3; }
		o.a = choose(S_WORK, 5);
		o.b = choose(S_WORK, 5);
		o.s = choose(S_WORK, 6) == 5 ? 0 : draw_value(s, 0);
		uint32_t terms = o.what == 3 ? 1 : choose(S_WORK, 5);
		for(uint32_t t = 0; t != terms; ++t)
		{
			size_t b = choose(S_WORK, 5);
			if(b == o.a && o.what != 3) { b = (b + 1) % 5; }			// the target is not a term of a sum
			o.m.push_back(b);
			o.c.push_back(choose(S_WORK, 4) == 3 ? 0 : draw_value(s, 0));
		}
		if(o.c.empty()) { o.c.push_back(0); o.m.push_back((o.a + 1) % 5); }
		if((o.what == 5 || o.what == 0) && o.b == o.a && choose(S_WORK, 2)) { o.b = (o.b + 1) % 5; }
		if(o.what == 0 && o.b == o.a && !dom.self_copy) { o.b = (o.b + 1) % 5; }
		if(o.what == 10 && o.b == o.a) { o.b = (o.b + 1) % 5; }
		if(o.what == 7)
		{
			o.a = 0;
			o.b = 5;
			for(size_t& b : o.m) { b = 1 + b % 4; }
			for(double& c : o.c) { if(sum_only && c != 0) { c *= 1e-5; } }
		}
		if(o.what == 9) { static const double bs[] = { 50, 10, 1, 99 }; o.s = bs[choose(S_WORK, 4)]; }
		ops.push_back(o);
	}
	for(const Op& o : ops) { event("op %s a=%zu b=%zu s=%.17g terms=%zu", op_names[o.what], o.a, o.b, o.s, o.c.size()); }
}
void check_ops(size_t n, const Dom& dom, const std::vector<Vec>& init, const std::vector<Op>& ops, const OpRes& one, const OpRes& many)
{
	size_t sz = 6 * n;
	// element-wise definition, applied to what the previous operation left
	std::vector<Vec> cur = init;
	// running exact value of a compensated summation since it began, with and without the rounding of each product
	typedef __float128 Q;
	std::vector<Q> exact, exact_r;
	std::vector<long double> magn, start, stale;	// magnitudes of all terms, of the first
	std::vector<char> clean;				// every term was smaller than the sum it was added to
	size_t red = 0;
	const long double eps = DBL_EPSILON;
	for(size_t j = 0; j != ops.size(); ++j)
	{
		const Op& o(ops[j]);
		const Vec* after = &many.v[j * kBufs];
		const Vec& a0(cur[o.a]);
		const Vec& b0(cur[o.b]);
		for(size_t q = 0; q != kBufs; ++q)
		{
			same(after[q], one.v[j * kBufs + q], op_names[o.what], static_cast<int>(j));
			bool target = o.what != 8 && (q == o.a || (o.what == 7 && q == o.b));
			if(!target && memcmp(after[q].data(), cur[q].data(), sz * 8) != 0) { fail("input-changed", "%s changed buffer %zu, which is not its target", op_names[o.what], q); }
		}
		if(o.what != 7) { exact.clear(); }
		if(o.what == 7 && exact.empty())
		{
			exact.assign(sz, 0);
			magn.assign(sz, 0);
			clean.assign(sz, 1);
			for(size_t i = 0; i != sz; ++i) { exact[i] = static_cast<Q>(a0[i]) - cur[5][i]; magn[i] = std::fabs(a0[i]); }
			exact_r = exact;
			start = magn;
			stale.resize(sz);
			for(size_t i = 0; i != sz; ++i) { stale[i] = std::fabs(cur[5][i]); if(stale[i] > eps * magn[i]) { clean[i] = 0; } }
		}
		if(o.what == 10)
		{
			Call q{ 0, Cloud() };
			world::fill_cloud(q.c, n, 1, 0);		// the masses given at initialisation
			Vec* rows[6] = { &q.c.x, &q.c.y, &q.c.z, &q.c.vx, &q.c.vy, &q.c.vz };
			for(size_t k = 0; k != 6; ++k) { rows[k]->assign(b0.begin() + static_cast<long>(k * n), b0.begin() + static_cast<long>((k + 1) * n)); }
			std::vector<std::array<long double, 3>> acc;
			Vec tol;
			direct(q.c, acc, tol);
			check_values(q, after[o.a], j, "fcompute", acc, tol);
		}
		for(size_t i = 0; o.what < 8 + 2 * (o.what == 9) && i != sz; ++i)
		{
			long double want = 0, mag = 0;
			bool bits = false;
			double w = 0;
			switch(o.what)
			{
			case 0: w = b0[i]; bits = true; break;
			case 1: w = o.s; bits = true; break;
			case 2: want = a0[i] + static_cast<long double>(b0[i]) * o.s; mag = std::fabs(a0[i]) + std::fabs(static_cast<long double>(b0[i]) * o.s); break;
			case 3: want = b0[i] + static_cast<long double>(cur[o.m[0]][i]) * o.s; mag = std::fabs(b0[i]) + std::fabs(static_cast<long double>(cur[o.m[0]][i]) * o.s); break;
			case 4: case 5: case 6:
				want = o.what == 4 ? a0[i] : o.what == 5 ? b0[i] : 0;
				mag = std::fabs(want);
				for(size_t t = 0; t != o.c.size(); ++t) { long double x = static_cast<long double>(cur[o.m[t]][i]) * o.c[t]; want += x; mag += std::fabs(x); }
				break;
			case 7:
				for(size_t t = 0; t != o.c.size(); ++t)
				{
					double x = cur[o.m[t]][i] * o.c[t];
					if(std::fabs(static_cast<double>(exact_r[i])) < 4 * std::fabs(x)) { clean[i] = 0; }
					exact[i] += static_cast<Q>(cur[o.m[t]][i]) * o.c[t];
					exact_r[i] += x;
					magn[i] += std::fabs(x);
				}
				break;
			case 9:
				w = a0[i];
				bits = true;
				if(i < 3 * n) { if(w > o.s) { w -= 2 * o.s; } if(w < -o.s) { w += 2 * o.s; } }
				break;
			}
			double got = after[o.a][i];
			if(o.what == 7)
			{
				auto off = [](Q a, Q b) { Q d = a - b; return static_cast<long double>(d < 0 ? -d : d); };
				Q both = static_cast<Q>(got) - after[o.b][i];
				long double first = 4 * eps * magn[i] + 2 * stale[i] + 1e-300L, second = 2 * eps * (magn[i] - start[i]) + 1000 * eps * eps * magn[i] + 1e-300L;
				long double err = std::min(off(both, exact[i]), off(both, exact_r[i]));
				if(!(off(got, exact[i]) <= first)) { fail("wrong-result", "fmaddn_corr: element %zu of %zu is %.17g, the exact sum is %.17Lg", i, sz, got, static_cast<long double>(exact[i])); }
				// with the carried correction the sum is exact to second order however many terms were added: a plain sum drifts
				if(dom.compensated && clean[i] && !(err <= second)) { fail("correction-lost", "fmaddn_corr: element %zu of %zu with its correction is off by %Lg (terms up to %Lg)", i, sz, err, magn[i]); }
				if(clean[i]) { count("compensated sums compared"); }
				continue;
			}
			if(bits ? memcmp(&w, &got, 8) != 0 && !(w == 0 && got == 0) : !(std::fabs(got - want) <= (static_cast<long double>(o.c.size()) + 3) * eps * mag + 1e-300L))
			{
				fail("wrong-result", "%s: element %zu of %zu is %.17g, its definition gives %.17Lg", op_names[o.what], i, sz, got, bits ? static_cast<long double>(w) : want);
			}
		}
		if(o.what == 8)
		{
			double best = 0;
			for(double x : a0) { best = std::max(best, std::fabs(x)); }
			if(memcmp(&many.red[red], &one.red[red], 8) != 0) { fail("schedule-dependent", "fmaxabs is %.17g under this schedule and %.17g %s", many.red[red], one.red[red], other_run); }
			if(many.red[red] != best) { fail("wrong-result", "fmaxabs is %.17g, the largest magnitude is %.17g", many.red[red], best); }
			++red;
		}
		for(size_t q = 0; q != kBufs; ++q) { cur[q] = after[q]; hash_bytes(after[q].data(), sz * 8); }
		count("operations compared");
	}
}
std::vector<char> unclear(const Cloud& c, Vec& tol)		// bodies whose result depends on rounding beyond the estimate
{
	std::vector<char> u(c.n, 0);
	tol.assign(c.n, 0);
	double big = 0;
	for(size_t i = 0; i != c.n; ++i) { big = std::max(big, std::max(std::fabs(c.x[i]), std::max(std::fabs(c.y[i]), std::fabs(c.z[i])))); }
	for(size_t i = 0; i != c.n; ++i)
	{
		double s = 0;
		for(size_t j = 0; j != c.n; ++j)
		{
			if(j == i) { continue; }
			double dx = c.x[j] - c.x[i], dy = c.y[j] - c.y[i], dz = c.z[j] - c.z[i], r = std::sqrt(dx * dx + dy * dy + dz * dz);
			if(r < 2e-3) { u[i] = 1; continue; }
			s += c.m[j] / (r * r) * (1 + 8 * big / r);
		}
		tol[i] = 128 * (static_cast<double>(c.n) + 16) * DBL_EPSILON * s + 1e-290;
	}
	return u;
}
}
