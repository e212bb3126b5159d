// OpenCL properties C20..C22: the OpenCL engines on simulated platforms, devices, queues and faults.
#include "world.h"
#include "disk.h"
#include "simomp.h"
#include "simcl.h"
#include "prog.h"
#include "engmodel.h"
#include <exception>

namespace {
struct Setup { std::string device; size_t devices; int contexts; int block; std::vector<std::vector<simcl::DevCfg>> platforms; bool prof, verbose; };
Setup draw_setup(bool small)
{
	struct Sel { const char* s; size_t n; int ctx; };
	static const Sel sel[] = { { "0:0", 1, 1 }, { "0:0,1", 2, 1 }, { "0:0;1:0", 2, 2 }, { "0:0,0", 2, 1 }, { "0:0;0:1", 2, 2 }, { "0:1,0", 2, 1 }, { "0:0,1;1:0,1", 4, 2 },
							   { "0:0,1,2,3", 4, 1 }, { "1:0;0:0", 2, 2 }, { "0:0,0,0,0", 4, 1 }, { "0:0;0:0", 2, 2 }, { "0:0;0:1;1:0;1:1", 4, 4 }, { "0:0,1,2,3,0,1,2,3", 8, 1 }, { "0:0,1,2,3;1:0,1,0,1", 8, 2 } };
	Setup s;
	const Sel& e(sel[choose(S_WORK, small ? 7 : 14)]);
	s.device = e.s;
	s.devices = e.n;
	s.contexts = e.ctx;
	static const int blocks[] = { 16, 32, 64 };
	s.block = e.n == 8 ? 16 : blocks[choose(S_WORK, small || e.n == 4 ? 2 : 3)];
	int v = choose(S_WORK, 4) == 3 ? 30 : 12;
	s.platforms = { { { v, 1024 }, { 12, 256 }, { v, 64 }, { 12, 1024 } }, { { 12, 1024 }, { v, 64 } } };
	s.prof = choose(S_WORK, 6) == 5;
	s.verbose = choose(S_WORK, 20) == 19;
	return s;
}
void apply_setup(const Setup& s)
{
	simcl::reset();
	simcl::cfg.platforms = s.platforms;
}
QVariantMap params(const Setup& s, const char* engine)
{
	QVariantMap p;
	p["engine"] = engine;
	p["device"] = s.device.c_str();
	p["block_size"] = s.block;
	if(s.prof) { p["oclprof"] = "1"; }
	if(s.verbose) { p["verbose"] = "1"; }
	return p;
}
void coverage()
{
	count("cl:api calls", static_cast<uint64_t>(simcl::st.calls));
	count("cl:commands", static_cast<uint64_t>(simcl::st.commands));
	count("cl:kernel launches", static_cast<uint64_t>(simcl::st.kernels));
	count("cl:work-groups", static_cast<uint64_t>(simcl::st.groups));
	count("cl:queue switches", static_cast<uint64_t>(simcl::st.switches));
	count("cl:commands pending when a wait returned", static_cast<uint64_t>(simcl::st.pending_at_return));
	g->sim_time += simcl::st.clock;
}
Dom cl_dom(size_t n, int block)
{
	Dom d;
	d.pad = false;
	d.compensated = false;		// the kernels are built with relaxed arithmetic
	d.self_copy = false;		// a copy onto itself is no valid OpenCL command
	d.reduce = 6 * n / static_cast<size_t>(block) % 4 == 0;
	d.derive = true;
	return d;
}
template<class F> void guarded(const char* what, F f)
{
	try { f(); }
	catch(const std::exception& e) { fail("engine-refused", "%s: the engine gives up with \"%s\" although no call of the runtime was made to fail", what, e.what()); }
}
// ------------------------------------------------------------------------------------------------ whole programs
prog::Prog draw_cl_prog(const Setup& s)
{
	prog::Prog p = prog::draw_prog(false);
	prog::Args a;
	for(const std::string& x : p.args)
	{
		bool drop = false;
		for(const char* k : { "--engine=", "--tree_layout=", "--traverse_type=", "--tree_build_rate=", "--full_recompute_rate=", "--initial_state=", "--initial_type=", "--stars_count=", "--box_size=" }) { drop |= x.compare(0, strlen(k), k) == 0; }
		if(!drop) { a.push_back(x); }
	}
	if(p.nb >= 64 && s.devices == 8) { p.nb = 128; }
	else { p.nb = 64; }
	p.type = "G1";
	p.state = prog::state_text(p.nb, 1 + choose(S_WORK, 100), p.type);
	if(s.devices == 8) { p.nb = 128; p.state = prog::state_text(p.nb, 7, p.type); }
	a.push_back("--initial_state=state.txt");
	a.push_back("--initial_type=G1");
	bool bh = choose(S_WORK, 2) != 0;
	a.push_back(bh ? "--engine=opencl_bh" : "--engine=opencl");
	if(bh)
	{
		a.push_back(std::string("--tree_layout=") + (choose(S_WORK, 2) ? "heap_stackless" : "heap"));
		a.push_back(std::string("--traverse_type=") + (choose(S_WORK, 2) ? "nested_tree" : "cycle"));
		static const char* rates[] = { "0", "1", "3", "1000" };
		a.push_back(std::string("--tree_build_rate=") + rates[choose(S_WORK, 4)]);
	}
	a.push_back("--device=" + s.device);
	a.push_back("--block_size=16");
	if(s.prof) { a.push_back("--oclprof=1"); }
	p.args = a;
	std::string all;
	for(const std::string& x : p.args) { all += x + " "; }
	event("cl program %s", all.c_str());
	return p;
}
struct Shot { int64_t calls, commands; };
Shot* shots() { return reinterpret_cast<Shot*>(g->user + sizeof(g->user) - 256); }
// the program's compilations happen before it starts, outside the simulated process
void warm(Setup s, const char* engine)
{
	s.prof = s.verbose = false;
	apply_setup(s);
	guarded("device selection", [&]
	{
		std::unique_ptr<nbody_engine> e(nbody_create_engine(params(s, engine)));
		if(!e) { fail("engine-refused", "the devices %s cannot be selected", s.device.c_str()); }
	});
	apply_setup(s);
}

// ------------------------------------------------------------------------------------------------ C20
void timing_program(const Setup& s)
{
	Setup t(s);
	t.block = 16;
	prog::Prog p = draw_cl_prog(t);
	warm(t, "opencl");
	prog::Recording ref = prog::reference(p);
	simcl::draw_timing();
	simomp::fresh_memory();
	sim::ProcResult r = process([&] { disk::start(); int rc = world::run_main(prog::with(p.args, "--output=rec")); coverage(); return rc; });
	disk::reset();
	if(!r.exited) { fail("program-crash", "the program died of signal %d", r.signal); }
	if(r.code != 0) { fail("exit-status", "the program ends with status %d under this timing and with 0 when every command runs at once", r.code); }
	prog::Recording got = prog::load_recording("rec");
	prog::compare_recordings(got, ref, true, false, "timing-dependent", "recording under this timing");
	count("programs compared");
}
void run_c20()
{
	Setup s = draw_setup(false);
	if(choose(S_WORK, 10) == 9) { timing_program(s); return; }
	size_t unit = static_cast<size_t>(s.block) * s.devices;
	size_t n = unit * (1 + choose(S_WORK, unit <= 32 ? 4 : unit <= 64 ? 2 : 1));
	Dom dom = cl_dom(n, s.block);
	QVariantMap p = params(s, "opencl");
	event("devices %s block=%d n=%zu", s.device.c_str(), s.block, n);
	std::vector<Vec> init;
	std::vector<Op> ops;
	draw_ops(n, dom, init, ops);
	const bool at_end = choose(S_WORK, 2) != 0;
	other_run = "when every command runs at once";
	OpRes one, many;
	apply_setup(s);
	guarded("commands run at once", [&] { one = apply(p, n, init, ops, dom); });
	apply_setup(s);
	simcl::draw_timing();
	simomp::fresh_memory();
	guarded("drawn timing", [&] { many = apply(p, n, init, ops, dom, at_end); });
	coverage();
	same_ops(ops, one, many);
	check_ops(n, dom, init, ops, one, many);
	count(s.contexts > 1 ? "runs with several contexts" : s.devices > 1 ? "runs with several devices" : "runs with one device");
}

// ------------------------------------------------------------------------------------------------ C21
void run_c21()
{
	Setup s = draw_setup(false);
	size_t unit = static_cast<size_t>(s.block) * s.devices;
	size_t n = unit << choose(S_WORK, unit <= 32 ? 3 : unit <= 64 ? 2 : 1);
	bool nested = choose(S_WORK, 2) != 0, stackless = choose(S_WORK, 2) != 0;
	static const uint64_t rates[] = { 0, 1, 2, 3, 1000 };
	uint64_t rate = rates[choose(S_WORK, 5)];
	if(rate == 0 && s.devices == 1 && choose(S_WORK, 3) == 2) { n = unit * (1 + choose(S_WORK, 5)); }	// counts that are no power of two, always rebuilt
	static const double ratios[] = { 10, 1e9, 4, 30, 1.37, 1e9 };
	double ratio = ratios[choose(S_WORK, 6)];
	QVariantMap p = params(s, "opencl_bh"), q;
	q["engine"] = "simple_bh";
	for(QVariantMap* m : { &p, &q })
	{
		(*m)["tree_layout"] = stackless ? "heap_stackless" : "heap";
		(*m)["traverse_type"] = nested ? "nested_tree" : "cycle";
		(*m)["tree_build_rate"] = static_cast<qulonglong>(rate);
		(*m)["distance_to_node_radius_ratio"] = ratio;
	}
	int kind = static_cast<int>(choose(S_WORK, 8));
	std::vector<Call> calls = draw_calls(n, kind, 1 + choose(S_WORK, 1000));
	event("devices %s block=%d n=%zu kind=%d calls=%zu nested=%d stackless=%d rate=%llu ratio=%g", s.device.c_str(), s.block, n, kind, calls.size(), nested, stackless, static_cast<unsigned long long>(rate), ratio);
	Dom dom = cl_dom(n, s.block);
	other_run = "when every command runs at once";
	std::vector<Vec> one, many;
	apply_setup(s);
	guarded("commands run at once", [&] { one = evaluate(p, calls, dom); });
	apply_setup(s);
	simcl::draw_timing();
	simomp::fresh_memory();
	guarded("drawn timing", [&] { many = evaluate(p, calls, dom); });
	coverage();
	std::vector<Vec> cpu = evaluate(q, calls, dom), lo = cpu, hi = cpu;
	if(ratio < 1e8)
	{
		q["distance_to_node_radius_ratio"] = ratio * (1 - 1e-9);
		lo = evaluate(q, calls, dom);
		q["distance_to_node_radius_ratio"] = ratio * (1 + 1e-9);
		hi = evaluate(q, calls, dom);
	}
	for(size_t k = 0; k != calls.size(); ++k)
	{
		const Cloud& c(calls[k].c);
		std::vector<std::array<long double, 3>> acc(n);
		Vec tol;
		std::vector<char> u = unclear(c, tol);
		for(size_t i = 0; i != n; ++i)
		{
			for(size_t x = 0; x != 3; ++x)
			{
				size_t at = (3 + x) * n + i;
				acc[i][x] = cpu[k][at];
				if(lo[k][at] != cpu[k][at] || hi[k][at] != cpu[k][at]) { u[i] = 1; }	// a cell at the edge of being opened
			}
			if(u[i]) { tol[i] = std::numeric_limits<double>::max(); count("bodies left out: borderline or close"); }
			else { count("bodies compared with the CPU engine"); }
		}
		check_values(calls[k], many[k], k, nested ? "nested" : "cycle", acc, tol);
		if(ratio > 1e8)
		{
			direct(c, acc, tol);
			for(double& t : tol) { t *= 2; }
			check_values(calls[k], many[k], k, nested ? "nested, all cells opened" : "cycle, all cells opened", acc, tol);
			count("evaluations compared with the direct sum");
		}
		same(many[k], one[k], nested ? "nested" : "cycle", static_cast<int>(k));
		count("evaluations compared");
		hash_bytes(many[k].data(), many[k].size() * 8);
	}
	count(s.contexts > 1 ? "runs with several contexts" : s.devices > 1 ? "runs with several devices" : "runs with one device");
}

// ------------------------------------------------------------------------------------------------ C22
const int fault_codes[] = { -5, -6, -4, -36, -2, -1, -54, -11, -14, -30, -61, -9999 };	// out of resources, of host memory, of device memory, invalid queue, ...
void draw_fault(const Shot& total)
{
	uint32_t kind = choose(S_FAULT, 6);
	simcl::cfg.fail_code = fault_codes[choose(S_FAULT, 12)];
	if(kind == 3 && total.commands > 0)
	{
		simcl::cfg.fail_command = static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(total.commands)));
		count("fault:command fails on the device");
		event("fault: command %lld fails with %d", static_cast<long long>(simcl::cfg.fail_command), simcl::cfg.fail_code);
		return;
	}
	if(kind >= 4)		// the functions that are called seldom as often as the others
	{
		static const char* const fns[] = { "clCreateBuffer", "clEnqueueNDRangeKernel", "clEnqueueWriteBuffer", "clEnqueueReadBuffer", "clWaitForEvents", "clSetKernelArg", "clCreateKernel", "clEnqueueCopyBuffer",
			"clCreateCommandQueue", "clCreateContext", "clBuildProgram", "clCreateProgramWithSource", "clGetDeviceIDs", "clGetPlatformIDs", "clGetDeviceInfo", "clEnqueueCopyBufferRect" };
		simcl::cfg.fail_fn = fns[choose(S_FAULT, 2) ? choose(S_FAULT, 6) : choose(S_FAULT, 16)];
		simcl::cfg.fail_nth = choose(S_FAULT, 1 + choose(S_FAULT, 60));
		simcl::cfg.fail_persist = kind == 5;
		count(kind == 5 ? "fault:call and all later calls of its kind fail" : "fault:call fails once");
		event("fault: call %lld of %s fails with %d%s", static_cast<long long>(simcl::cfg.fail_nth), simcl::cfg.fail_fn.c_str(), simcl::cfg.fail_code, kind == 5 ? " from then on" : "");
		return;
	}
	simcl::cfg.fail_call = static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(std::max<int64_t>(1, total.calls))));
	simcl::cfg.fail_persist = kind == 2;
	count(kind == 2 ? "fault:call and all later calls of its kind fail" : "fault:call fails once");
	event("fault: call %lld fails with %d%s", static_cast<long long>(simcl::cfg.fail_call), simcl::cfg.fail_code, kind == 2 ? " from then on" : "");
}
enum { GAVE_UP = 71 };
void fault_program(const Setup& s)
{
	Setup t(s);
	t.block = 16;
	prog::Prog p = draw_cl_prog(t);
	warm(t, "opencl");
	// the undisturbed run also counts the calls
	if(!p.state.empty()) { disk::spit("state.txt", p.state); }
	sim::ProcResult r0 = process([&] { disk::start(); int rc = world::run_main(prog::with(p.args, "--output=ref")); *shots() = Shot{ simcl::st.calls, simcl::st.commands }; return rc; });
	disk::reset();
	if(!r0.exited || r0.code != 0) { fail("reference", "the undisturbed run ends with status %d, signal %d", r0.code, r0.signal); }
	prog::Recording ref = prog::load_recording("ref");
	draw_fault(*shots());
	if(choose(S_CL, 2)) { simcl::draw_timing(); }
	simomp::fresh_memory();
	sim::ProcResult r = process([&] { disk::start(); int rc = world::run_main(prog::with(p.args, "--output=rec")); coverage(); count("faults that took effect", static_cast<uint64_t>(simcl::st.injected)); return rc; });
	disk::reset();
	bool ok = r.exited && r.code == 0;
	count(ok ? "programs that ended well" : "programs that reported failure");
	if(!r.exited && r.signal != 6) { fail("program-crash", "the program died of signal %d instead of reporting the failure", r.signal); }
	prog::Recording got = prog::load_recording("rec");
	prog::compare_recordings(got, ref, true, !ok, "silent-failure", ok ? "recording of a run that reports success" : "frames recorded before the failure");
}
void run_c22()
{
	Setup s = draw_setup(true);
	if(choose(S_WORK, 5) == 4) { fault_program(s); return; }
	bool bh = choose(S_WORK, 2) != 0;
	size_t n = static_cast<size_t>(s.block) * s.devices;
	Dom dom = cl_dom(n, s.block);
	QVariantMap p = params(s, bh ? "opencl_bh" : "opencl");
	std::vector<Vec> init;
	std::vector<Op> ops;
	std::vector<Call> calls;
	if(bh)
	{
		p["tree_layout"] = choose(S_WORK, 2) ? "heap_stackless" : "heap";
		p["traverse_type"] = choose(S_WORK, 2) ? "nested_tree" : "cycle";
		p["tree_build_rate"] = static_cast<qulonglong>(choose(S_WORK, 4));
		calls = draw_calls(n, static_cast<int>(choose(S_WORK, 8)), 1 + choose(S_WORK, 1000));
	}
	else { draw_ops(n, dom, init, ops); }
	const bool at_end = choose(S_WORK, 2) != 0;
	event("engine %sn=%zu", show(p).c_str(), n);
	OpRes one;
	std::vector<Vec> eone;
	apply_setup(s);
	guarded("no fault", [&] { if(bh) { eone = evaluate(p, calls, dom); } else { one = apply(p, n, init, ops, dom); } });
	Shot total{ simcl::st.calls, simcl::st.commands };
	apply_setup(s);
	draw_fault(total);
	if(choose(S_CL, 2)) { simcl::draw_timing(); }
	simomp::fresh_memory();
	other_run = "in a run without faults";
	sim::ProcResult r = process([&]
	{
		refusal_ok = true;
		try
		{
			OpRes many;
			std::vector<Vec> emany;
			if(bh) { emany = evaluate(p, calls, dom); }
			else { many = apply(p, n, init, ops, dom, at_end); }
			coverage();
			count("faults that took effect", static_cast<uint64_t>(simcl::st.injected));
			if(simcl::st.injected) { count(("survived: " + simcl::st.failed_in).c_str()); }
			for(size_t k = 0; k != emany.size(); ++k) { same(emany[k], eone[k], "fcompute", static_cast<int>(k)); }
			same_ops(ops, one, many);
			return 0;
		}
		catch(const std::exception&)
		{
			simcl::drop_pending();
			coverage();
			count("faults that took effect", static_cast<uint64_t>(simcl::st.injected));
			if(!simcl::st.injected) { fail("engine-refused", "the engine gives up although no call failed"); }
			return static_cast<int>(GAVE_UP);
		}
	});
	if(!r.exited && r.signal != 6) { fail("program-crash", "the process died of signal %d instead of reporting the failure", r.signal); }
	count(r.exited && r.code == 0 ? "runs that ended well" : "runs that reported failure");
}
}

namespace sim {
void run_setup()
{
	world::quiet();
	disk::reset();
	simomp::reset();
	simcl::reset();
}
#define STUB "OpenCL runtime (simulated platforms, devices, contexts, in-order queues, events, memory; kernels of the repository compiled by clang, work-items as fibers); OpenMP runtime (simulated)"
const Property properties[] = {
	{ "C20", run_c20, "commands delayed until waited for, run early, in any order between queues, in pieces; stalled device; work-groups and work-items in any order; fresh device memory holds garbage", "engine opencl, its kernels (nbody_engine_opencl.cl), nbody_engines; in one of ten runs the whole program with solvers and stream", STUB,
	  "one run: drawn devices, contexts, block size, body count and operations, executed eagerly and under a drawn timing, each operation compared with its element-wise definition; non-trivial: commands of several queues interleaved" },
	{ "C21", run_c21, "commands delayed until waited for, run early, in any order between queues, in pieces; stalled device; work-groups and work-items in any order; fresh device memory holds garbage", "engines opencl_bh and simple_bh, nbody_space_heap, kernels", STUB,
	  "one run: drawn devices, contexts, traversal, layout, rebuild rate, opening ratio, bodies and sequence of evaluations, executed eagerly, under a drawn timing and by the CPU engine; non-trivial: commands of several queues interleaved" },
	{ "C22", run_c22, "any one call of the runtime fails (all codes), every later call of its kind fails, an accepted command fails on the device", "engines opencl and opencl_bh, nbody_engines; in one of five runs the whole program", STUB ", system calls on the recording's files",
	  "one run: drawn devices and work without and with one drawn fault; non-trivial: the fault took effect" },
};
const size_t property_count = sizeof(properties) / sizeof(properties[0]);
}
