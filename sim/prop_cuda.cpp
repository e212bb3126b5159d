// CUDA properties C44 and C46: the CUDA engines on simulated devices, streams and faults.
#include "world.h"
#include "disk.h"
#include "simomp.h"
#include "simcuda.h"
#include "engmodel.h"
#include <csignal>
#include <exception>

namespace {
struct Setup { std::string device; size_t devices; int block; bool regular; size_t n; };
bool power_of_two(size_t n) { return n && !(n & (n - 1)); }
// regular: the engine has to serve it; anything else it serves or refuses
Setup draw_setup()
{
	struct Sel { const char* s; size_t n; };
	static const Sel sel[] = { { "0", 1 }, { "0,1", 2 }, { "0,0", 2 }, { "1,0", 2 }, { "0,1,2,3", 4 }, { "0,0,1,1", 4 }, { "3", 1 }, { "0,0,0,0", 4 }, { "0,1,2,3,0,1,2,3", 8 }, { "0,1,2", 3 } };
	Setup s;
	const Sel& e(sel[choose(S_WORK, choose(S_WORK, 8) == 7 ? 10 : 8)]);
	s.device = e.s;
	s.devices = e.n;
	static const int blocks[] = { 64, 32, 16, 128 };
	s.block = blocks[choose(S_WORK, 4)];
	size_t unit = 64 * s.devices * (s.block == 128 ? 2 : 1);
	s.n = unit * (1 + choose(S_WORK, unit <= 64 ? 4 : unit <= 128 ? 2 : 1));
	if(choose(S_WORK, 8) == 7) { static const size_t odd[] = { 64, 96, 192, 100, 1, 2, 63, 65, 48, 160, 320, 16, 128, 256 }; s.n = odd[choose(S_WORK, 14)]; }
	s.regular = power_of_two(s.devices) && s.n % unit == 0;
	return s;
}
QVariantMap params(const Setup& s, const char* engine)
{
	QVariantMap p;
	p["engine"] = engine;
	p["device"] = s.device.c_str();
	p["block_size"] = s.block;
	return p;
}
void coverage()
{
	count("cuda:api calls", static_cast<uint64_t>(simcuda::st.calls));
	count("cuda:commands", static_cast<uint64_t>(simcuda::st.commands));
	count("cuda:kernel launches", static_cast<uint64_t>(simcuda::st.kernels));
	count("cuda:blocks", static_cast<uint64_t>(simcuda::st.blocks));
	count("cuda:stream switches", static_cast<uint64_t>(simcuda::st.switches));
	count("cuda:commands pending when a wait returned", static_cast<uint64_t>(simcuda::st.pending_at_return));
	count("host:thread switches", static_cast<uint64_t>(simomp::switches));
	g->sim_time += simcuda::st.clock;
}
Dom dom()
{
	Dom d;
	d.pad = false;
	d.self_copy = false;		// source and target of a device copy may not overlap
	d.derive = true;
	return d;
}
enum { OK = 0, REFUSED = 70, GAVE_UP = 71, EXITED = 3 };
// the engines report a failing call by ending the process with status 3
int guarded(const std::function<int()>& f)
{
	try { return f(); }
	catch(const Refused&) { return REFUSED; }
	catch(const std::exception&) { return GAVE_UP; }
}
void judge(const sim::ProcResult& r, const Setup& s)
{
	if(!r.exited) { fail("program-crash", "the process died of signal %d", r.signal); }
	if(r.code != OK && s.regular) { fail("engine-refused", "the engine gives up with status %d although no call of the runtime was made to fail", r.code); }
	count(r.code == OK ? "runs that were served" : "irregular runs that were refused");
	count(s.devices > 1 ? "runs with several devices" : "runs with one device");
}
struct Work {
	bool tree = false;
	QVariantMap p, q;
	double ratio = 1e9;
	std::vector<Vec> init;
	std::vector<Op> ops;
	std::vector<Call> calls;
	bool at_end = false;
};
Work draw_work(Setup& s)
{
	Work w;
	uint32_t kind = choose(S_WORK, 3);
	w.tree = kind != 0;
	w.p = params(s, kind == 0 ? "cuda" : kind == 1 ? "cuda_bh" : "cuda_bh_tex");
	if(!w.tree)
	{
		w.at_end = choose(S_WORK, 2) != 0;
		draw_ops(s.n, dom(), w.init, w.ops);
	}
	else
	{
		bool stackless = kind == 2 && choose(S_WORK, 2) != 0;
		static const uint64_t rates[] = { 0, 1, 2, 3, 1000 };
		uint64_t rate = rates[choose(S_WORK, 5)];
		if(rate > 1 && !power_of_two(s.n)) { rate = 1; }		// an updated tree needs full levels
		static const double ratios[] = { 10, 1e9, 4, 30, 1.37, 1e9 };
		w.ratio = ratios[choose(S_WORK, 6)];
		w.q["engine"] = "simple_bh";
		w.q["traverse_type"] = "nested_tree";
		for(QVariantMap* m : { &w.p, &w.q })
		{
			(*m)["tree_layout"] = stackless ? "heap_stackless" : "heap";
			(*m)["tree_build_rate"] = static_cast<qulonglong>(rate);
			(*m)["distance_to_node_radius_ratio"] = w.ratio;
		}
		w.calls = draw_calls(s.n, static_cast<int>(choose(S_WORK, 8)), 1 + choose(S_WORK, 1000));
	}
	event("engine %sn=%zu", show(w.p).c_str(), s.n);
	return w;
}
struct Result { OpRes ops; std::vector<Vec> f; };
Result perform(const Setup& s, const Work& w, bool at_end)
{
	Result r;
	if(w.tree) { r.f = evaluate(w.p, w.calls, dom()); }
	else { r.ops = apply(w.p, s.n, w.init, w.ops, dom(), at_end); }
	return r;
}
void check(const Setup& s, Work& w, const Result& one, Result& many)
{
	if(!w.tree)
	{
		same_ops(w.ops, one.ops, many.ops);
		check_ops(s.n, dom(), w.init, w.ops, one.ops, many.ops);
		return;
	}
	std::vector<Vec> cpu = evaluate(w.q, w.calls, dom()), lo = cpu, hi = cpu;
	if(w.ratio < 1e8)
	{
		w.q["distance_to_node_radius_ratio"] = w.ratio * (1 - 1e-9);
		lo = evaluate(w.q, w.calls, dom());
		w.q["distance_to_node_radius_ratio"] = w.ratio * (1 + 1e-9);
		hi = evaluate(w.q, w.calls, dom());
	}
	for(size_t k = 0; k != w.calls.size(); ++k)
	{
		const Cloud& c(w.calls[k].c);
		const size_t n = s.n;
		std::vector<std::array<long double, 3>> acc(n);
		Vec tol;
		std::vector<char> u = unclear(c, tol);
		for(size_t i = 0; i != n; ++i)
		{
			for(size_t x = 0; x != 3; ++x)
			{
				size_t at = (3 + x) * n + i;
				acc[i][x] = cpu[k][at];
				if(lo[k][at] != cpu[k][at] || hi[k][at] != cpu[k][at]) { u[i] = 1; }	// a cell at the edge of being opened
			}
			if(u[i]) { tol[i] = std::numeric_limits<double>::max(); count("bodies left out: borderline or close"); }
			else { count("bodies compared with the CPU engine"); }
		}
		check_values(w.calls[k], many.f[k], k, "tree", acc, tol);
		if(w.ratio > 1e8)
		{
			direct(c, acc, tol);
			for(double& t : tol) { t *= 2; }
			check_values(w.calls[k], many.f[k], k, "tree, all cells opened", acc, tol);
			count("evaluations compared with the direct sum");
		}
		same(many.f[k], one.f[k], "tree", static_cast<int>(k));
		count("evaluations compared");
		hash_bytes(many.f[k].data(), many.f[k].size() * 8);
	}
}
void run_c44()
{
	Setup s = draw_setup();
	Work w = draw_work(s);
	other_run = "when every command runs at once";
	judge(process([&]
	{
		refusal_ok = true;
		return guarded([&]
		{
			simcuda::reset();
			Result one = perform(s, w, false);
			simcuda::reset();
			simcuda::draw_timing();
			simomp::fresh_memory();
			Result many = perform(s, w, w.at_end);
			coverage();
			refusal_ok = false;
			check(s, w, one, many);
			return static_cast<int>(OK);
		});
	}), s);
}

// ------------------------------------------------------------------------------------------------ C46
const int fault_codes[] = { 2, 1, 700, 719, 46, 100, 400, 999 };	// out of memory, invalid value, illegal address, launch failure, device unavailable, ...
struct Shot { int64_t calls, commands; };
Shot* shots() { return reinterpret_cast<Shot*>(g->user + sizeof(g->user) - 256); }
void draw_fault(const Shot& total)
{
	uint32_t kind = choose(S_FAULT, 6);
	simcuda::cfg.fail_code = fault_codes[choose(S_FAULT, 8)];
	if(kind == 3 && total.commands > 0)
	{
		simcuda::cfg.fail_command = static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(total.commands)));
		count("fault:command fails on the device");
		event("fault: command %lld fails with %d", static_cast<long long>(simcuda::cfg.fail_command), simcuda::cfg.fail_code);
		return;
	}
	if(kind >= 4)		// the functions that are called seldom as often as the others
	{
		static const char* const fns[] = { "cudaMalloc", "launch", "cudaMemcpyAsync", "cudaStreamSynchronize", "cudaDeviceSynchronize", "cudaSetDevice", "cudaMemcpy", "cudaMemcpy2DAsync",
			"cudaStreamCreate", "cudaCreateTextureObject", "cudaGetDeviceCount", "thrust::fill", "thrust::minmax_element", "cudaFuncSetCacheConfig", "cudaFree", "cudaDestroyTextureObject" };
		simcuda::cfg.fail_fn = fns[choose(S_FAULT, 2) ? choose(S_FAULT, 6) : choose(S_FAULT, 16)];
		simcuda::cfg.fail_nth = choose(S_FAULT, 1 + choose(S_FAULT, 60));
		simcuda::cfg.fail_persist = kind == 5;
		count(kind == 5 ? "fault:call and all later calls of its kind fail" : "fault:call fails once");
		event("fault: call %lld of %s fails with %d%s", static_cast<long long>(simcuda::cfg.fail_nth), simcuda::cfg.fail_fn.c_str(), simcuda::cfg.fail_code, kind == 5 ? " from then on" : "");
		return;
	}
	simcuda::cfg.fail_call = static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(std::max<int64_t>(1, total.calls))));
	simcuda::cfg.fail_persist = kind == 2;
	count(kind == 2 ? "fault:call and all later calls of its kind fail" : "fault:call fails once");
	event("fault: call %lld fails with %d%s", static_cast<long long>(simcuda::cfg.fail_call), simcuda::cfg.fail_code, kind == 2 ? " from then on" : "");
}
void run_c46()
{
	Setup s = draw_setup();
	if(!s.regular) { s.n = 64 * s.devices * 2; s.regular = power_of_two(s.devices); }
	if(!s.regular) { s.device = "0,1"; s.devices = 2; s.regular = true; s.n = 256; }
	Work w = draw_work(s);
	other_run = "in a run without faults";
	sim::ProcResult r = process([&]
	{
		refusal_ok = true;
		simcuda::reset();
		Result one = perform(s, w, false);
		Shot total{ simcuda::st.calls, simcuda::st.commands };
		simcuda::reset();
		draw_fault(total);
		if(choose(S_CL, 2)) { simcuda::draw_timing(); }
		simomp::fresh_memory();
		*shots() = Shot{ 1, 0 };			// the undisturbed part is over
		return guarded([&]
		{
			Result many = perform(s, w, w.at_end);
			coverage();
			count("faults that took effect", static_cast<uint64_t>(simcuda::st.injected));
			if(simcuda::st.injected) { count(("survived: " + simcuda::st.failed_in).c_str()); }
			for(size_t k = 0; k != many.f.size(); ++k) { same(many.f[k], one.f[k], "fcompute", static_cast<int>(k)); }
			same_ops(w.ops, one.ops, many.ops);
			return static_cast<int>(OK);
		});
	});
	if(!r.exited && r.signal == SIGABRT) { count("runs that ended by an uncaught exception of thrust"); return; }
	if(!r.exited) { fail("program-crash", "the process died of signal %d instead of reporting the failure", r.signal); }
	count(r.code == OK ? "runs that ended well" : "runs that reported failure");
}
}

namespace sim {
void worker_setup();
void run_setup()
{
	world::quiet();
	disk::reset();
	simomp::reset();
	simcuda::reset();
}
#define STUB "CUDA runtime and thrust (simulated devices, streams with the order of the default stream, staged transfers, textures; kernels of the repository compiled for the CPU, threads of a block as fibers); OpenMP runtime (simulated)"
const Property properties[] = {
	{ "C44", run_c44, "commands delayed until waited for, run early, in any order between streams and devices, in pieces; stalled device; blocks and threads in any order; host threads in any order; fresh device memory holds garbage", "engines cuda, cuda_bh, cuda_bh_tex, their kernels (nbody_engine_cuda_impl.cu), simple_bh, nbody_space_heap, nbody_engines", STUB,
	  "one run: drawn devices, block size, body count and work (vector operations and derivatives, or a sequence of tree evaluations), executed eagerly and under a drawn timing and compared with the definition or the CPU engine; non-trivial: commands of several streams interleaved" },
	{ "C46", run_c46, "any one call of the runtime fails (all codes), every later call of its kind fails, an accepted command fails on the device", "engines cuda, cuda_bh, cuda_bh_tex, their kernels, nbody_engines", STUB,
	  "one run: drawn devices and work without and with one drawn fault; non-trivial: the fault took effect" },
};
const size_t property_count = sizeof(properties) / sizeof(properties[0]);
}
