#include "simcuda.h"
#include "core.h"
#include "simomp.h"
#include <cuda/cuda_runtime.h>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <deque>
#include <map>
#include <vector>
#include <memory>
#include <stdexcept>
#include <sys/mman.h>
#include <unistd.h>

using namespace sim;
using namespace simcuda;

struct CUstream_st { int dev; bool blocking; size_t id; };
uint3 threadIdx, blockIdx;
dim3 blockDim, gridDim;
namespace simcuda { Config cfg; Stats st; }

namespace {
struct Cmd { int64_t number; int dev; cudaStream_t s; bool blocking; std::string what; std::vector<std::function<void()>> quanta; size_t next = 0; };
struct Block { size_t size, mapped; char* base; int dev; };
struct Tex { const char* p; size_t size; size_t texel; };
struct World {
	std::vector<std::deque<Cmd*>> dev;		// pending commands in the order of their issue
	std::vector<cudaError_t> broken;		// a device whose context is corrupted
	std::map<char*, Block> mem;
	std::map<cudaTextureObject_t, Tex> tex;
	std::map<cudaStream_t, bool> streams;
	std::map<std::string, int64_t> calls;
	std::string persist;
	size_t ids = 0;
	uint64_t epoch = 0;
	Cmd* last = nullptr;
} w;
uint64_t g_epoch = 0;
struct Host { uint64_t epoch; int dev; cudaError_t last; };
thread_local Host tl = { 0, 0, cudaSuccess };
Host& host() { if(tl.epoch != g_epoch) { tl = Host{ g_epoch, 0, cudaSuccess }; } return tl; }

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void simcuda_switch(void** save, void* to);
__asm__(
	".text\n.globl simcuda_switch\n.type simcuda_switch,@function\nsimcuda_switch:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp, (%rdi)\nmovq %rsi, %rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size simcuda_switch,.-simcuda_switch\n");
struct Item { void* sp; uint3 id; int state; };	// state 0: ready, 1: at barrier, 2: finished
const size_t kStack = 64 * 1024;
struct Machine { std::vector<Item> items; char* stacks = nullptr; size_t nstacks = 0; void* host_sp = nullptr; Item* cur = nullptr; const std::function<void()>* fn = nullptr; std::vector<char> shared; bool illegal = false; } mc;
void item_main()
{
	(*mc.fn)();
	mc.cur->state = 2;
	simcuda_switch(&mc.cur->sp, mc.host_sp);
	abort();
}
template<class T> void shuffle(std::vector<T>& v)
{
	if(!cfg.shuffle || v.size() < 2) { return; }
	uint64_t s = choose(S_CL, 64);
	if(!s) { return; }
	if(s == 1) { std::reverse(v.begin(), v.end()); return; }
	for(size_t i = v.size() - 1; i; --i) { std::swap(v[i], v[raw_rand(s) % (i + 1)]); }
}
void run_block(const char* name, dim3 grid, dim3 block, uint3 at, size_t shared_size, const std::function<void()>& f)
{
	size_t n = static_cast<size_t>(block.x) * block.y * block.z;
	if(n > mc.nstacks)
	{
		if(mc.stacks) { munmap(mc.stacks, mc.nstacks * kStack); }
		mc.stacks = static_cast<char*>(mmap(nullptr, n * kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if(mc.stacks == MAP_FAILED) { fprintf(stderr, "simcuda: no memory for stacks\n"); abort(); }
		mc.nstacks = n;
	}
	gridDim = grid;
	blockDim = block;
	blockIdx = at;
	mc.fn = &f;
	mc.shared.assign(shared_size + 64, static_cast<char>(cfg.garbage * 37));
	mc.items.resize(n);
	for(size_t i = 0; i != n; ++i)
	{
		Item& it(mc.items[i]);
		it.id = { static_cast<unsigned>(i % block.x), static_cast<unsigned>(i / block.x % block.y), static_cast<unsigned>(i / block.x / block.y) };
		uint64_t* top = reinterpret_cast<uint64_t*>(mc.stacks + (i + 1) * kStack);
		*--top = 0;
		*--top = reinterpret_cast<uint64_t>(&item_main);
		for(int k = 0; k != 6; ++k) { *--top = 0; }
		it.sp = top;
		it.state = 0;
	}
	for(;;)
	{
		std::vector<size_t> ready;
		for(size_t i = 0; i != n; ++i) { if(mc.items[i].state == 0) { ready.push_back(i); } }
		if(ready.empty()) { break; }
		shuffle(ready);
		for(size_t i : ready)
		{
			mc.cur = &mc.items[i];
			threadIdx = mc.cur->id;
			simcuda_switch(&mc.host_sp, mc.cur->sp);
		}
		mc.cur = nullptr;
		size_t waiting = 0, done = 0;
		for(Item& it : mc.items) { waiting += it.state == 1; done += it.state == 2; }
		if(waiting && done) { fail("barrier-divergence", "kernel %s: %zu threads of a block wait at a barrier that %zu others never reach", name, waiting, done); }
		for(Item& it : mc.items) { if(it.state == 1) { it.state = 0; } }
	}
	++st.blocks;
}

// ------------------------------------------------------------------------------------------------ devices
bool runnable(const std::deque<Cmd*>& q, size_t i)
{
	const Cmd* c = q[i];
	for(size_t k = 0; k != i; ++k)
	{
		const Cmd* p = q[k];
		if(p->s == c->s) { return false; }
		if(p->blocking && c->blocking && (!p->s || !c->s)) { return false; }	// the default stream waits for the others and they for it
	}
	return true;
}
void corrupt(int dev, cudaError_t e)
{
	w.broken[static_cast<size_t>(dev)] = e;
	for(Cmd* c : w.dev[static_cast<size_t>(dev)]) { delete c; }
	w.dev[static_cast<size_t>(dev)].clear();
	w.last = nullptr;
}
bool step()
{
	std::vector<Cmd*> r, held;
	for(size_t d = 0; d != w.dev.size(); ++d)
	{
		for(size_t i = 0; i != w.dev[d].size(); ++i)
		{
			if(!runnable(w.dev[d], i)) { continue; }
			(cfg.stall && d == 0 ? held : r).push_back(w.dev[d][i]);
		}
	}
	if(r.empty()) { r = held; }
	if(r.empty()) { return false; }
	std::sort(r.begin(), r.end(), [](Cmd* a, Cmd* b) { return a->number < b->number; });
	auto l = std::find(r.begin(), r.end(), w.last);
	if(l != r.end()) { std::rotate(r.begin(), l, l + 1); }
	Cmd* c = r[cfg.timing == 0 ? 0 : choose(S_CL, static_cast<uint32_t>(r.size()))];
	if(c != w.last) { ++st.switches; sig(static_cast<uint64_t>(c->number) << 20 ^ c->next); }
	w.last = c;
	if(c->next == 0 && c->number == cfg.fail_command)
	{
		++st.injected;
		st.failed_in = "command " + c->what;
		event("command %lld %s fails on device %d", static_cast<long long>(c->number), c->what.c_str(), c->dev);
		corrupt(c->dev, static_cast<cudaError_t>(cfg.fail_code));
		return true;
	}
	mc.illegal = false;
	if(c->next < c->quanta.size()) { c->quanta[c->next++](); }
	st.clock += 1e-5;
	if(mc.illegal) { corrupt(c->dev, cudaErrorIllegalAddress); return true; }
	if(c->next == c->quanta.size())
	{
		event("done %lld", static_cast<long long>(c->number));
		std::deque<Cmd*>& q(w.dev[static_cast<size_t>(c->dev)]);
		q.erase(std::find(q.begin(), q.end(), c));
		delete c;
		w.last = nullptr;
	}
	return true;
}
void background()
{
	if(cfg.timing == 0) { while(step()) {} return; }
	if(cfg.timing == 1 || choose(S_CL, cfg.eager) != 0) { return; }
	for(uint32_t k = choose(S_CL, 24); k && step(); --k) {}
}
bool pending(int dev, cudaStream_t s, bool all)
{
	for(Cmd* c : w.dev[static_cast<size_t>(dev)]) { if(all || c->s == s) { return true; } }
	return false;
}
void drain(int dev, cudaStream_t s, bool all)
{
	while(pending(dev, s, all)) { if(!step()) { fail("device-deadlock", "a stream can never finish"); } }
	for(auto& q : w.dev) { st.pending_at_return += static_cast<int64_t>(q.size()); }
}
cudaError_t gate(const char* fn)
{
	simomp::yield();
	Host& h(host());
	int64_t call = st.calls++;
	int64_t nth = w.calls[fn]++;
	bool f = call == cfg.fail_call || (cfg.fail_fn == fn && nth == cfg.fail_nth) || w.persist == fn;
	if(f)
	{
		if(cfg.fail_persist) { w.persist = fn; }
		++st.injected;
		st.failed_in = fn;
		event("call %lld %s fails with %d", static_cast<long long>(call), fn, cfg.fail_code);
		return h.last = static_cast<cudaError_t>(cfg.fail_code);
	}
	background();
	if(w.broken[static_cast<size_t>(h.dev)] != cudaSuccess) { return h.last = w.broken[static_cast<size_t>(h.dev)]; }
	return cudaSuccess;
}
#define GATE(fn) do { cudaError_t e__ = gate(#fn); if(e__ != cudaSuccess) { return e__; } } while(0)
cudaError_t err(cudaError_t e) { return host().last = e; }
bool stream(cudaStream_t s, int& dev, bool& blocking)
{
	if(!s) { dev = host().dev; blocking = true; return true; }
	auto i = w.streams.find(s);
	if(i == w.streams.end() || !i->second) { return false; }
	dev = s->dev;
	blocking = s->blocking;
	return true;
}
cudaError_t enqueue(const std::string& what, cudaStream_t s, std::vector<std::function<void()>> quanta)
{
	int dev;
	bool blocking;
	if(!stream(s, dev, blocking)) { return err(cudaErrorInvalidResourceHandle); }
	if(w.broken[static_cast<size_t>(dev)] != cudaSuccess) { return err(w.broken[static_cast<size_t>(dev)]); }
	Cmd* c = new Cmd;
	c->number = st.commands++;
	c->dev = dev;
	c->s = s;
	c->blocking = blocking;
	c->what = what;
	c->quanta = std::move(quanta);
	event("enqueue %lld %s device %d stream %zu", static_cast<long long>(c->number), what.c_str(), dev, s ? s->id : 0);
	w.dev[static_cast<size_t>(dev)].push_back(c);
	background();
	return cudaSuccess;
}
const Block* find(const void* p, size_t n)
{
	char* c = const_cast<char*>(static_cast<const char*>(p));
	auto i = w.mem.upper_bound(c);
	if(i == w.mem.begin()) { return nullptr; }
	--i;
	return c + n <= i->first + i->second.size ? &i->second : nullptr;
}
void rows(std::vector<std::function<void()>>& q, char* d, size_t dp, const char* s, size_t sp, size_t width, size_t height)
{
	for(size_t y = 0; y != height; ++y)
	{
		size_t part = std::max<size_t>(512, (width / 4 + 63) / 64 * 64);
		for(size_t at = 0; at < width; at += part)
		{
			size_t len = std::min(part, width - at);
			q.push_back([=] { memmove(d + y * dp + at, s + y * sp + at, len); });
		}
	}
}
cudaError_t transfer(const char* name, void* dst, size_t dp, const void* src, size_t sp, size_t width, size_t height, cudaMemcpyKind kind, cudaStream_t s, bool async)
{
	if(width == 0 || height == 0) { return cudaSuccess; }
	size_t dn = dp * (height - 1) + width, sn = sp * (height - 1) + width;
	const Block* bd = find(dst, dn);
	const Block* bs = find(src, sn);
	if(kind == cudaMemcpyDefault) { kind = bd ? bs ? cudaMemcpyDeviceToDevice : cudaMemcpyHostToDevice : bs ? cudaMemcpyDeviceToHost : cudaMemcpyHostToHost; }
	bool to_dev = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice, from_dev = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
	if(to_dev != (bd != nullptr) || from_dev != (bs != nullptr)) { return err(cudaErrorInvalidValue); }
	if(dp < width || sp < width) { if(height > 1) { return err(cudaErrorInvalidValue); } }
	if(kind == cudaMemcpyHostToHost) { for(size_t y = 0; y != height; ++y) { memmove(static_cast<char*>(dst) + y * dp, static_cast<const char*>(src) + y * sp, width); } return cudaSuccess; }
	int dev;
	bool blocking;
	if(!stream(s, dev, blocking)) { return err(cudaErrorInvalidResourceHandle); }
	std::vector<std::function<void()>> q;
	if(kind == cudaMemcpyHostToDevice)
	{
		// pageable memory: staged when the call returns, the device's copy may come later
		auto stage = std::make_shared<std::vector<char>>(static_cast<const char*>(src), static_cast<const char*>(src) + sn);
		rows(q, static_cast<char*>(dst), dp, stage->data(), sp, width, height);
		q.push_back([stage] {});
	}
	else { rows(q, static_cast<char*>(dst), dp, static_cast<const char*>(src), sp, width, height); }
	if(kind == cudaMemcpyDeviceToDevice && !s && (bd->dev != dev || bs->dev != dev))	// such a copy is ordered with all work of both devices
	{
		drain(bd->dev, nullptr, true);
		drain(bs->dev, nullptr, true);
	}
	cudaError_t e = enqueue(name, s, q);
	if(e != cudaSuccess) { return e; }
	if(kind == cudaMemcpyDeviceToHost) { drain(dev, s, false); }		// pageable memory: complete when the call returns
	(void)async;
	if(w.broken[static_cast<size_t>(dev)] != cudaSuccess) { return err(w.broken[static_cast<size_t>(dev)]); }
	return cudaSuccess;
}
}

namespace simcuda {
void reset()
{
	cfg = Config();
	st = Stats();
	w = World();
	w.dev.resize(static_cast<size_t>(cfg.devices));
	w.broken.assign(static_cast<size_t>(cfg.devices), cudaSuccess);
	++g_epoch;
}
void draw_timing()
{
	cfg.timing = 1 + static_cast<int>(choose(S_CL, 2));
	cfg.eager = 2u << choose(S_CL, 3);
	cfg.shuffle = choose(S_CL, 2) != 0;
	cfg.stall = choose(S_CL, 4) == 3;
	cfg.garbage = 2 + choose(S_CL, 1000);
}
void syncthreads() { mc.cur->state = 1; simcuda_switch(&mc.cur->sp, mc.host_sp); }
void* shared() { return reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(mc.shared.data()) + 15) & ~static_cast<uintptr_t>(15)); }
cudaError_t func_attr() { GATE(cudaFuncSetCacheConfig); return cudaSuccess; }
const void* texel(cudaTextureObject_t t, long i, size_t size)
{
	auto x = w.tex.find(t);
	if(x == w.tex.end() || x->second.texel != size) { mc.illegal = true; return nullptr; }
	if(i < 0 || (static_cast<size_t>(i) + 1) * size > x->second.size) { return nullptr; }	// reads as zero
	return x->second.p + static_cast<size_t>(i) * size;
}
void launch(const char* name, dim3 grid, dim3 block, size_t shared_size, cudaStream_t s, std::function<void()> f)
{
	if(gate("launch") != cudaSuccess) { return; }
	int dev;
	bool blocking;
	if(!stream(s, dev, blocking) || dev != host().dev) { err(cudaErrorInvalidResourceHandle); return; }
	size_t threads = static_cast<size_t>(block.x) * block.y * block.z;
	if(!grid.x || !grid.y || !grid.z || !threads || threads > 1024 || shared_size > 48 * 1024) { err(cudaErrorInvalidConfiguration); return; }
	std::vector<uint3> order;
	for(unsigned z = 0; z != grid.z; ++z) { for(unsigned y = 0; y != grid.y; ++y) { for(unsigned x = 0; x != grid.x; ++x) { order.push_back({ x, y, z }); } } }
	shuffle(order);
	++st.kernels;
	std::vector<std::function<void()>> q;
	for(const uint3& at : order) { q.push_back([=] { run_block(name, grid, block, at, shared_size, f); }); }
	enqueue(name, s, q);
}
void read(void* dst, const void* src, size_t n) { if(cudaMemcpy(dst, src, n, cudaMemcpyDeviceToHost) != cudaSuccess) { throw std::runtime_error("thrust::device_ptr"); } }
void fill(const char* name, std::function<void()> f)
{
	if(gate(name) != cudaSuccess) { throw std::runtime_error(name); }		// thrust::system_error
	int dev = host().dev;
	if(enqueue(name, nullptr, { f }) != cudaSuccess) { throw std::runtime_error(name); }
	::drain(dev, nullptr, false);
	if(w.broken[static_cast<size_t>(dev)] != cudaSuccess) { throw std::runtime_error(name); }
}
}

// ------------------------------------------------------------------------------------------------ the API
cudaError_t cudaGetDeviceCount(int* n) { GATE(cudaGetDeviceCount); *n = cfg.devices; return cfg.devices ? cudaSuccess : err(cudaErrorNoDevice); }
cudaError_t cudaSetDevice(int d)
{
	simomp::yield();
	Host& h(host());
	int64_t call = st.calls++, nth = w.calls["cudaSetDevice"]++;
	if(call == cfg.fail_call || (cfg.fail_fn == "cudaSetDevice" && nth == cfg.fail_nth) || w.persist == "cudaSetDevice")
	{
		if(cfg.fail_persist) { w.persist = "cudaSetDevice"; }
		++st.injected;
		st.failed_in = "cudaSetDevice";
		event("call %lld cudaSetDevice fails with %d", static_cast<long long>(call), cfg.fail_code);
		return h.last = static_cast<cudaError_t>(cfg.fail_code);
	}
	if(d < 0 || d >= cfg.devices) { return err(cudaErrorInvalidDevice); }
	h.dev = d;
	return cudaSuccess;
}
cudaError_t cudaGetDevice(int* d) { GATE(cudaGetDevice); *d = host().dev; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d)
{
	GATE(cudaGetDeviceProperties);
	if(d < 0 || d >= cfg.devices) { return err(cudaErrorInvalidDevice); }
	memset(p, 0, sizeof(*p));
	strcpy(p->name, "simulated device");
	p->totalGlobalMem = 1 << 30;
	p->maxThreadsPerBlock = 1024;
	p->major = 8;
	return cudaSuccess;
}
cudaError_t cudaMalloc(void** p, size_t n)
{
	GATE(cudaMalloc);
	if(n == 0) { *p = nullptr; return cudaSuccess; }
	// the end of the memory is followed by pages nobody may touch
	size_t page = 4096, mapped = (n + page - 1) / page * page;
	char* b = static_cast<char*>(mmap(nullptr, mapped + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if(b == MAP_FAILED || mprotect(b + page, mapped, PROT_READ | PROT_WRITE) != 0) { return err(cudaErrorMemoryAllocation); }
	size_t a = (n + 15) / 16 * 16;
	char* m = b + page + mapped - a;
	uint64_t s = cfg.garbage * 77 + w.mem.size();
	for(size_t i = 0; i + 8 <= a; i += 8)
	{
		uint64_t v = raw_rand(s);
		if(cfg.garbage % 3 == 0) { v = 0x7ff8000000000001ull; }
		else { v = (v & 0x800fffffffffffffull) | 0x3ff0000000000000ull; }
		memcpy(m + i, &v, 8);
	}
	w.mem[m] = Block{ n, mapped + 2 * page, b, host().dev };
	*p = m;
	return cudaSuccess;
}
cudaError_t cudaFree(void* p)
{
	GATE(cudaFree);
	if(!p) { return cudaSuccess; }
	auto i = w.mem.find(static_cast<char*>(p));
	if(i == w.mem.end()) { return err(cudaErrorInvalidValue); }
	for(size_t d = 0; d != w.dev.size(); ++d) { drain(static_cast<int>(d), nullptr, true); }
	munmap(i->second.base, i->second.mapped);
	w.mem.erase(i);
	return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { GATE(cudaMemcpy); return transfer("cudaMemcpy", d, n, s, n, n, 1, k, nullptr, false); }
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st_) { GATE(cudaMemcpyAsync); return transfer("cudaMemcpyAsync", d, n, s, n, n, 1, k, st_, true); }
cudaError_t cudaMemcpy2D(void* d, size_t dp, const void* s, size_t sp, size_t wd, size_t h, cudaMemcpyKind k) { GATE(cudaMemcpy2D); return transfer("cudaMemcpy2D", d, dp, s, sp, wd, h, k, nullptr, false); }
cudaError_t cudaMemcpy2DAsync(void* d, size_t dp, const void* s, size_t sp, size_t wd, size_t h, cudaMemcpyKind k, cudaStream_t st_) { GATE(cudaMemcpy2DAsync); return transfer("cudaMemcpy2DAsync", d, dp, s, sp, wd, h, k, st_, true); }
cudaError_t cudaMemcpyPeer(void* d, int, const void* s, int, size_t n) { GATE(cudaMemcpyPeer); return transfer("cudaMemcpyPeer", d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, nullptr, false); }
cudaError_t cudaMemcpyPeerAsync(void* d, int, const void* s, int, size_t n, cudaStream_t st_) { GATE(cudaMemcpyPeerAsync); return transfer("cudaMemcpyPeerAsync", d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, st_, true); }
static cudaError_t set(const char* name, void* d, int v, size_t n, cudaStream_t s)
{
	if(!find(d, n)) { return err(cudaErrorInvalidValue); }
	return enqueue(name, s, { [=] { memset(d, v, n); } });
}
cudaError_t cudaMemset(void* d, int v, size_t n) { GATE(cudaMemset); return set("cudaMemset", d, v, n, nullptr); }
cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t s) { GATE(cudaMemsetAsync); return set("cudaMemsetAsync", d, v, n, s); }
cudaError_t cudaStreamCreateWithFlags(cudaStream_t* s, unsigned flags)
{
	GATE(cudaStreamCreate);
	*s = new CUstream_st{ host().dev, flags != cudaStreamNonBlocking, ++w.ids };
	w.streams[*s] = true;
	return cudaSuccess;
}
cudaError_t cudaStreamCreate(cudaStream_t* s) { return cudaStreamCreateWithFlags(s, cudaStreamDefault); }
cudaError_t cudaStreamDestroy(cudaStream_t s)
{
	GATE(cudaStreamDestroy);
	auto i = w.streams.find(s);
	if(i == w.streams.end() || !i->second) { return err(cudaErrorInvalidResourceHandle); }
	i->second = false;				// what it holds still runs
	return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t s)
{
	GATE(cudaStreamSynchronize);
	int dev;
	bool blocking;
	if(!stream(s, dev, blocking)) { return err(cudaErrorInvalidResourceHandle); }
	drain(dev, s, false);
	return w.broken[static_cast<size_t>(dev)] == cudaSuccess ? cudaSuccess : err(w.broken[static_cast<size_t>(dev)]);
}
cudaError_t cudaDeviceSynchronize()
{
	GATE(cudaDeviceSynchronize);
	int dev = host().dev;
	drain(dev, nullptr, true);
	return w.broken[static_cast<size_t>(dev)] == cudaSuccess ? cudaSuccess : err(w.broken[static_cast<size_t>(dev)]);
}
cudaError_t cudaGetLastError()
{
	simomp::yield();
	Host& h(host());
	cudaError_t e = h.last;
	h.last = cudaSuccess;
	if(e == cudaSuccess) { e = w.broken[static_cast<size_t>(h.dev)]; }
	return e;
}
cudaError_t cudaPeekAtLastError() { Host& h(host()); return h.last != cudaSuccess ? h.last : w.broken[static_cast<size_t>(h.dev)]; }
const char* cudaGetErrorString(cudaError_t) { return "simulated error"; }
const char* cudaGetErrorName(cudaError_t) { return "simulatedError"; }
cudaError_t cudaCreateTextureObject(cudaTextureObject_t* t, const cudaResourceDesc* r, const cudaTextureDesc*, const cudaResourceViewDesc*)
{
	GATE(cudaCreateTextureObject);
	const cudaChannelFormatDesc& d(r->res.linear.desc);
	if(r->resType != cudaResourceTypeLinear || !find(r->res.linear.devPtr, r->res.linear.sizeInBytes)) { return err(cudaErrorInvalidValue); }
	*t = ++w.ids;
	w.tex[*t] = Tex{ static_cast<const char*>(r->res.linear.devPtr), r->res.linear.sizeInBytes, static_cast<size_t>(d.x + d.y + d.z + d.w) / 8 };
	return cudaSuccess;
}
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t t) { GATE(cudaDestroyTextureObject); return w.tex.erase(t) ? cudaSuccess : err(cudaErrorInvalidValue); }

extern "C" [[noreturn]] void nbsim_exit(int code)		// exit() of the code under test: the process ends here
{
	fflush(nullptr);
	_exit(code & 0xff);
}
