#include "simcl.h"
#include "core.h"
#include <CL/cl.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace simcl {
Config cfg;
Stats st;
namespace {
// ------------------------------------------------------------------------------------------------ fibers
// The context switch saves the callee-saved registers; a work-item runs until a barrier or its end.
extern "C" void simcl_switch(void** save, void* to);
__asm__(
	".text\n.globl simcl_switch\n.type simcl_switch,@function\nsimcl_switch:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp, (%rdi)\nmovq %rsi, %rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size simcl_switch,.-simcl_switch\n");

typedef void (*tramp_t)(void**);
struct Item { void* sp; size_t lid[3]; int state; uint32_t barriers; };	// state 0: ready, 1: at barrier, 2: finished
const size_t kStack = 96 * 1024;
struct Machine {
	std::vector<Item> items;
	char* stacks = nullptr;
	size_t nstacks = 0;
	void* host_sp = nullptr;
	Item* cur = nullptr;
	tramp_t fn = nullptr;
	void** args = nullptr;
	size_t gsize[3], lsize[3], group[3], goff[3];
	unsigned dim = 1;
} mc;

void item_main()
{
	mc.fn(mc.args);
	mc.cur->state = 2;
	simcl_switch(&mc.cur->sp, mc.host_sp);
	abort();
}
void make_item(Item& it, char* stack)
{
	uint64_t* top = reinterpret_cast<uint64_t*>(stack + kStack);
	*--top = 0;							// keeps the stack aligned as after a call
	*--top = reinterpret_cast<uint64_t>(&item_main);
	for(int i = 0; i != 6; ++i) { *--top = 0; }
	it.sp = top;
	it.state = 0;
	it.barriers = 0;
}
template<class T> void shuffle(std::vector<T>& v)
{
	if(!cfg.shuffle || v.size() < 2) { return; }
	// one recorded choice orders the whole set: 0 keeps it, otherwise it seeds a permutation
	uint64_t s = choose(S_CL, 64);
	if(!s) { return; }
	if(s == 1) { std::reverse(v.begin(), v.end()); return; }
	for(size_t i = v.size() - 1; i; --i) { std::swap(v[i], v[raw_rand(s) % (i + 1)]); }
}
void run_group(const char* name)
{
	size_t n = mc.lsize[0] * mc.lsize[1] * mc.lsize[2];
	if(n > mc.nstacks)
	{
		if(mc.stacks) { munmap(mc.stacks, mc.nstacks * kStack); }
		mc.stacks = static_cast<char*>(mmap(nullptr, n * kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if(mc.stacks == MAP_FAILED) { fprintf(stderr, "simcl: no memory for stacks\n"); abort(); }
		mc.nstacks = n;
	}
	mc.items.resize(n);
	for(size_t i = 0; i != n; ++i)
	{
		mc.items[i].lid[0] = i % mc.lsize[0];
		mc.items[i].lid[1] = i / mc.lsize[0] % mc.lsize[1];
		mc.items[i].lid[2] = i / mc.lsize[0] / mc.lsize[1];
		make_item(mc.items[i], mc.stacks + i * kStack);
	}
	for(;;)
	{
		std::vector<size_t> ready;
		size_t waiting = 0;
		for(size_t i = 0; i != n; ++i) { if(mc.items[i].state == 0) { ready.push_back(i); } }
		if(ready.empty()) { break; }
		shuffle(ready);
		for(size_t i : ready)
		{
			mc.cur = &mc.items[i];
			simcl_switch(&mc.host_sp, mc.cur->sp);
		}
		mc.cur = nullptr;
		size_t done = 0;
		for(Item& it : mc.items) { waiting += it.state == 1; done += it.state == 2; }
		if(waiting && done) { fail("barrier-divergence", "kernel %s: %zu work-items of a group wait at a barrier that %zu others never reach", name, waiting, done); }
		for(Item& it : mc.items) { if(it.state == 1) { it.state = 0; } }
	}
	++st.groups;
}

// ------------------------------------------------------------------------------------------------ programs
struct KernelInfo { std::vector<std::string> types; tramp_t fn; };
struct Module { std::map<std::string, KernelInfo> kernels; std::string log; bool ok = false; };
std::map<std::string, std::shared_ptr<Module>> modules;

std::string cache_dir()
{
	char exe[4096];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	exe[n > 0 ? n : 0] = 0;
	std::string d(exe);
	d = d.substr(0, d.rfind('/')) + "/clcache";
	mkdir(d.c_str(), 0755);
	return d;
}
std::string builtin_source()
{
	char exe[4096];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	exe[n > 0 ? n : 0] = 0;
	std::string d(exe);
	return d.substr(0, d.rfind('/')) + "/clbuiltin.o";
}
bool put_file(const std::string& path, const std::string& text)
{
	FILE* f = fopen(path.c_str(), "wb");
	if(!f) { return false; }
	bool ok = fwrite(text.data(), 1, text.size(), f) == text.size();
	return fclose(f) == 0 && ok;
}
std::string get_file(const std::string& path)
{
	std::string r;
	FILE* f = fopen(path.c_str(), "rb");
	if(!f) { return r; }
	char b[65536];
	size_t n;
	while((n = fread(b, 1, sizeof(b), f)) > 0) { r.append(b, n); }
	fclose(f);
	return r;
}
int spawn(const std::vector<std::string>& a, const std::string& out)
{
	pid_t p = fork();
	if(p == 0)
	{
		int fd = open(out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
		dup2(fd, 1);
		dup2(fd, 2);
		std::vector<char*> v;
		for(const std::string& s : a) { v.push_back(const_cast<char*>(s.c_str())); }
		v.push_back(nullptr);
		execvp(v[0], v.data());
		_exit(127);
	}
	int w = 0;
	while(waitpid(p, &w, 0) < 0 && errno == EINTR) {}
	return WIFEXITED(w) ? WEXITSTATUS(w) : 126;
}
const char* clang_path()
{
	static const char* const c[] = { "/usr/bin/clang-18", "/usr/lib/llvm-18/bin/clang", "/usr/bin/clang", "/usr/bin/clang-17" };
	for(const char* p : c) { if(access(p, X_OK) == 0) { return p; } }
	return "clang";
}
// "define spir_kernel void @name(i32 noundef %0, ptr ... %1, double ... %2) ..." -> name, types
bool parse_kernel(const std::string& line, std::string& name, std::vector<std::string>& types)
{
	size_t at = line.find("spir_kernel void @");
	if(line.compare(0, 7, "define ") != 0 || at == std::string::npos) { return false; }
	at += 18;
	size_t lp = line.find('(', at);
	name = line.substr(at, lp - at);
	int depth = 0;
	std::string tok;
	auto flush = [&] { size_t b = tok.find_first_not_of(' '); if(b != std::string::npos) { types.push_back(tok.substr(b, tok.find_first_of(" ", b) - b)); } tok.clear(); };
	for(size_t i = lp + 1; i < line.size(); ++i)
	{
		char c = line[i];
		if(c == '(' || c == '<' || c == '{') { ++depth; }
		if(c == ')' || c == '>' || c == '}') { if(depth == 0) { break; } --depth; }
		if(c == ',' && depth == 0) { flush(); continue; }
		tok += c;
	}
	flush();
	return true;
}
const char* ctype(const std::string& t)
{
	if(t == "i32") { return "int"; }
	if(t == "i64") { return "long"; }
	if(t == "i16") { return "short"; }
	if(t == "i8") { return "char"; }
	if(t == "double") { return "double"; }
	if(t == "float") { return "float"; }
	if(t == "ptr") { return "void*"; }
	return nullptr;
}
size_t type_size(const std::string& t) { return t == "i32" || t == "float" ? 4 : t == "i16" ? 2 : t == "i8" ? 1 : 8; }

[[noreturn]] void unsupported(const char* what)
{
	fprintf(stderr, "simcl: %s\n", what);
	count("harness: program outside the simulated runtime");
	skip();
}
std::shared_ptr<Module> build(const std::string& source, const std::string& options, int version)
{
	uint64_t h = 1469598103934665603ull;
	auto eat = [&](const std::string& s) { for(unsigned char c : s) { h = (h ^ c) * 1099511628211ull; } h = (h ^ 0xff) * 1099511628211ull; };
	eat(source);
	eat(options);
	eat(std::to_string(version));
	eat(get_file(builtin_source()));
	char key[32];
	snprintf(key, sizeof(key), "%016llx", static_cast<unsigned long long>(h));
	auto it = modules.find(key);
	if(it != modules.end()) { return it->second; }
	std::shared_ptr<Module> m(new Module);
	std::string dir = cache_dir(), base = dir + "/" + key;
	if(access((base + ".sig").c_str(), R_OK) != 0 && access((base + ".log").c_str(), R_OK) != 0)
	{
		std::string tmp = dir + "/t." + std::to_string(getpid()) + "." + key;
		put_file(tmp + ".cl", source);
		std::vector<std::string> a{ clang_path(), "-x", "cl" };
		std::string tok;
		bool std_given = false;
		for(size_t i = 0; i <= options.size(); ++i)
		{
			char c = i < options.size() ? options[i] : ' ';
			if(c != ' ') { tok += c; continue; }
			if(!tok.empty()) { a.push_back(tok); std_given |= tok.compare(0, 8, "-cl-std=") == 0; }
			tok.clear();
		}
		if(!std_given) { a.push_back(version >= 30 ? "-cl-std=CL3.0" : version >= 20 ? "-cl-std=CL2.0" : "-cl-std=CL1.2"); }
		for(const char* s : { "-S", "-emit-llvm", "-O2", "-fPIC", "-march=x86-64-v2", "-w" }) { a.push_back(s); }
		a.push_back(tmp + ".cl");
		a.push_back("-o");
		a.push_back(tmp + ".ll");
		std::string log = tmp + ".txt";
		if(spawn(a, log) != 0)
		{
			rename(log.c_str(), (base + ".log").c_str());
			for(const char* e : { ".cl", ".ll" }) { unlink((tmp + e).c_str()); }
		}
		else
		{
			std::string ll = get_file(tmp + ".ll"), c, sig;
			size_t p = 0;
			while(p < ll.size())
			{
				size_t e = ll.find('\n', p);
				if(e == std::string::npos) { e = ll.size(); }
				std::string name;
				std::vector<std::string> types;
				if(parse_kernel(ll.substr(p, e - p), name, types))
				{
					std::string decl, call;
					sig += name;
					for(size_t i = 0; i != types.size(); ++i)
					{
						const char* t = ctype(types[i]);
						if(!t) { unsupported(("kernel argument type " + types[i]).c_str()); }
						decl += std::string(i ? ", " : "") + t;
						call += std::string(i ? ", " : "") + "*(" + t + "*)a[" + std::to_string(i) + "]";
						sig += " " + types[i];
					}
					sig += "\n";
					c += "extern void " + name + "_k(" + (decl.empty() ? "void" : decl) + ") __asm__(\"" + name + "\");\nvoid simcl_tramp_" + name + "(void** a) { " + name + "_k(" + call + "); }\n";
				}
				p = e + 1;
			}
			put_file(tmp + ".c", c);
			std::vector<std::string> l{ clang_path(), "-O1", "-fPIC", "-w", "-shared", "-Wl,-Bsymbolic", "-x", "ir", tmp + ".ll", "-x", "c", tmp + ".c", "-x", "none", builtin_source(), "-lm", "-o", tmp + ".so" };
			if(spawn(l, log) != 0) { fprintf(stderr, "%s\n", get_file(log).c_str()); unsupported("the kernels cannot be linked"); }
			put_file(tmp + ".sig", sig);
			rename((tmp + ".so").c_str(), (base + ".so").c_str());
			rename((tmp + ".sig").c_str(), (base + ".sig").c_str());
			for(const char* e : { ".cl", ".ll", ".c", ".txt" }) { unlink((tmp + e).c_str()); }
		}
	}
	if(access((base + ".sig").c_str(), R_OK) != 0) { m->log = get_file(base + ".log"); }
	else
	{
		void* so = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
		if(!so) { unsupported(dlerror()); }
		std::string sig = get_file(base + ".sig");
		size_t p = 0;
		while(p < sig.size())
		{
			size_t e = sig.find('\n', p);
			std::string line = sig.substr(p, e - p), name;
			KernelInfo k;
			size_t q = 0;
			while(q <= line.size())
			{
				size_t f = line.find(' ', q);
				if(f == std::string::npos) { f = line.size(); }
				if(name.empty()) { name = line.substr(q, f - q); }
				else { k.types.push_back(line.substr(q, f - q)); }
				q = f + 1;
			}
			k.fn = reinterpret_cast<tramp_t>(dlsym(so, ("simcl_tramp_" + name).c_str()));
			if(!k.fn) { unsupported("kernel entry missing"); }
			m->kernels[name] = k;
			p = e + 1;
		}
		m->ok = true;
	}
	modules[key] = m;
	return m;
}
}
}

// ------------------------------------------------------------------------------------------------ objects
namespace {
using namespace simcl;
const size_t kZone = 512;
const unsigned char kZoneByte = 0x7b;		// as doubles: large finite numbers
}
struct _cl_platform_id { size_t n; std::vector<cl_device_id> devs; };
struct _cl_device_id { size_t platform, n; int version; uint32_t max_group; cl_platform_id plat; };
struct _cl_context { int refs = 1; std::vector<cl_device_id> devs; };
struct _cl_mem {
	int refs = 1;
	cl_context ctx;
	size_t size;
	unsigned char* base;			// redzone | data | redzone
	cl_mem parent = nullptr;
	size_t origin = 0;
	unsigned char* data() { return parent ? parent->data() + origin : base + kZone; }
	size_t pending = 0;
};
struct _cl_event {
	int refs = 1;
	cl_context ctx;
	cl_command_queue queue;
	cl_command_type type;
	cl_int status = CL_QUEUED;
	double t[4] = { 0, 0, 0, 0 };
	struct Cmd* cmd = nullptr;
	std::vector<std::pair<void (CL_CALLBACK*)(cl_event, cl_int, void*), void*>> callbacks;
};
struct _cl_program { int refs = 1; cl_context ctx; std::string source, options; std::map<cl_device_id, std::shared_ptr<Module>> built; };
struct _cl_kernel {
	int refs = 1;
	cl_program prog;
	std::string name;
	struct Arg { bool set = false; size_t size = 0; unsigned char v[16]; };
	std::vector<Arg> args;
	std::vector<std::string> types;
};
struct Cmd {
	cl_event ev;
	cl_command_queue q;
	std::string what;
	std::vector<cl_event> waits;
	std::vector<cl_mem> mems;
	std::vector<std::function<void()>> quanta;		// executed one after another, other queues may run in between
	size_t next = 0;
	bool barrier = false;
	int64_t number = 0;
};
struct _cl_command_queue { int refs = 1; cl_context ctx; cl_device_id dev; cl_command_queue_properties props; std::deque<Cmd*> cmds; size_t id; cl_int error = 0; };

namespace {
struct World {
	std::vector<cl_platform_id> plats;
	std::vector<cl_command_queue> queues;
	std::set<void*> live;
	size_t next_queue = 0;
	bool dropped = false;
} w;

void make_platforms()
{
	if(!w.plats.empty()) { return; }
	for(size_t p = 0; p != cfg.platforms.size(); ++p)
	{
		cl_platform_id pl = new _cl_platform_id;
		pl->n = p;
		for(size_t d = 0; d != cfg.platforms[p].size(); ++d)
		{
			cl_device_id de = new _cl_device_id{ p, d, cfg.platforms[p][d].version, cfg.platforms[p][d].max_group, pl };
			pl->devs.push_back(de);
		}
		w.plats.push_back(pl);
	}
}
template<class T> bool alive(T* p) { return p && w.live.count(p); }
template<class T> T* reg(T* p) { w.live.insert(p); ++st.live; return p; }
template<class T> void unreg(T* p) { w.live.erase(p); --st.live; delete p; }

void check_zones(cl_mem m, const std::string& what)
{
	if(m->parent) { return; }
	for(size_t i = 0; i != kZone; ++i)
	{
		if(m->base[i] != kZoneByte) { fail("device-out-of-bounds", "%s wrote before the start of a buffer of %zu bytes", what.c_str(), m->size); }
		if(m->base[kZone + m->size + i] != kZoneByte) { fail("device-out-of-bounds", "%s wrote %zu bytes behind the end of a buffer of %zu bytes", what.c_str(), i, m->size); }
	}
}
void mem_free(cl_mem m)
{
	if(m->refs > 0 || m->pending) { return; }
	if(m->parent) { cl_mem p = m->parent; unreg(m); --p->refs; mem_free(p); return; }
	check_zones(m, "a command");
	free(m->base);
	unreg(m);
}
void ev_release(cl_event e) { if(--e->refs == 0) { unreg(e); } }

void complete(Cmd* c, cl_int status)
{
	c->ev->status = status;
	c->ev->t[3] = st.clock;
	c->ev->cmd = nullptr;
	if(status < 0) { c->q->error = status; }
	for(auto& cb : c->ev->callbacks) { cb.first(c->ev, status, cb.second); }
	for(cl_event e : c->waits) { ev_release(e); }
	for(cl_mem m : c->mems) { if(status == CL_COMPLETE) { check_zones(m, c->what); } --m->pending; mem_free(m); }
	ev_release(c->ev);
	auto& d = c->q->cmds;
	d.erase(std::find(d.begin(), d.end(), c));
	delete c;
}
bool runnable(Cmd* c)
{
	for(cl_event e : c->waits) { if(e->status > CL_COMPLETE) { return false; } }
	auto& d = c->q->cmds;
	if(!(c->q->props & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE)) { return d.front() == c; }
	for(Cmd* o : d)
	{
		if(o == c) { return true; }
		if(o->barrier || c->barrier) { return false; }
	}
	return true;
}
void quantum(Cmd* c)
{
	if(c->next == 0) { c->ev->status = CL_RUNNING; c->ev->t[2] = st.clock; }
	for(cl_event e : c->waits) { if(e->status < 0) { complete(c, CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST); return; } }
	st.clock += 1e-6;
	if(cfg.fail_command == c->number && c->next >= c->quanta.size() / 2)
	{
		++st.injected;
		st.failed_in = c->what + " on the device";
		event("cl fault: command %lld %s fails on queue %zu", static_cast<long long>(c->number), c->what.c_str(), c->q->id);
		complete(c, cfg.fail_code ? cfg.fail_code : CL_OUT_OF_RESOURCES);
		return;
	}
	if(c->next < c->quanta.size()) { c->quanta[c->next++](); }
	if(c->next == c->quanta.size()) { complete(c, CL_COMPLETE); }
}
std::vector<Cmd*> ready_cmds()
{
	std::vector<Cmd*> r;
	for(cl_command_queue q : w.queues)
	{
		for(Cmd* c : q->cmds)
		{
			if(runnable(c)) { r.push_back(c); }
			if(!(q->props & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE)) { break; }
		}
	}
	return r;
}
cl_command_queue last_queue;
// commands still queued while an injected failure unwinds the caller do not run: the memory they name is going away with it
bool unwinding() { return st.injected && std::uncaught_exceptions() > 0; }
// one scheduling decision: which queue makes progress, and how far
bool step()
{
	if(w.dropped || unwinding()) { return false; }
	std::vector<Cmd*> r = ready_cmds();
	if(r.empty()) { return false; }
	if(cfg.stall && r.size() > 1)
	{
		std::vector<Cmd*> o;
		for(Cmd* c : r) { if(c->q->id != 0) { o.push_back(c); } }
		if(!o.empty()) { r = o; }
	}
	Cmd* c = r[cfg.timing == 0 ? 0 : choose(S_CL, static_cast<uint32_t>(r.size()))];
	if(c->q != last_queue) { ++st.switches; }
	last_queue = c->q;
	sig(mix(c->q->id + 1, c->number));
	uint32_t burst = cfg.timing == 0 ? 1u << 30 : 1u << (choose(S_CL, 4) * 2);
	cl_event e = c->ev;
	++e->refs;
	while(burst-- && e->status > CL_COMPLETE) { quantum(c); }
	ev_release(e);
	return true;
}
void background()
{
	if(w.dropped) { return; }
	if(cfg.timing == 0) { while(step()) {} return; }
	if(cfg.timing == 1) { return; }
	if(choose(S_CL, cfg.eager) == 0) { return; }
	for(uint32_t k = choose(S_CL, 6); k && step(); --k) {}
}
std::set<std::string> dead;
// every API call passes here: it can fail, and the devices can make progress while it runs
cl_int gate(const char* fn, bool can_fail = true)
{
	int64_t k = st.calls++;
	if(can_fail)
	{
		bool hit = cfg.fail_call == k;
		if(!cfg.fail_fn.empty() && cfg.fail_fn == fn && cfg.fail_nth-- == 0) { hit = true; }
		if(!hit && cfg.fail_persist && dead.count(fn)) { hit = true; }
		if(hit)
		{
			if(cfg.fail_persist) { dead.insert(fn); }
			++st.injected;
			st.failed_in = fn;
			event("cl fault: call %lld %s returns %d", static_cast<long long>(k), fn, cfg.fail_code);
			return cfg.fail_code;
		}
	}
	else if(cfg.fail_call == k) { ++cfg.fail_call; }	// the fault moves on to a call that can report it
	return CL_SUCCESS;
}
cl_int enqueue(Cmd* c, cl_uint n, const cl_event* list, cl_event* out, bool blocking)
{
	for(cl_uint i = 0; i != n; ++i) { ++list[i]->refs; c->waits.push_back(list[i]); }
	for(cl_mem m : c->mems) { ++m->pending; }
	c->number = st.commands++;
	c->ev->t[0] = c->ev->t[1] = st.clock;
	c->q->cmds.push_back(c);
	event("enqueue %lld %s queue %zu", static_cast<long long>(c->number), c->what.c_str(), c->q->id);
	cl_event e = c->ev;
	if(out) { ++e->refs; *out = e; }
	if(!blocking) { background(); return CL_SUCCESS; }
	++e->refs;
	while(e->status > CL_COMPLETE) { if(unwinding()) { return CL_OUT_OF_RESOURCES; } if(!step()) { fail("device-deadlock", "a blocking %s can never finish", "transfer"); } }
	cl_int s = e->status;
	ev_release(e);
	return s < 0 ? s : CL_SUCCESS;
}
cl_int check_enqueue(cl_command_queue q, std::initializer_list<cl_mem> mems, cl_uint n, const cl_event* list)
{
	if(!alive(q)) { return CL_INVALID_COMMAND_QUEUE; }
	for(cl_mem m : mems)
	{
		if(!alive(m)) { return CL_INVALID_MEM_OBJECT; }
		if(m->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	}
	if((n == 0) != (list == nullptr)) { return CL_INVALID_EVENT_WAIT_LIST; }
	for(cl_uint i = 0; i != n; ++i)
	{
		if(!alive(list[i])) { return CL_INVALID_EVENT_WAIT_LIST; }
		if(list[i]->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	}
	return CL_SUCCESS;
}
Cmd* new_cmd(cl_command_queue q, cl_command_type type, const std::string& what, std::initializer_list<cl_mem> mems)
{
	Cmd* c = new Cmd;
	c->ev = reg(new _cl_event);
	c->ev->ctx = q->ctx;
	c->ev->queue = q;
	c->ev->type = type;
	c->ev->cmd = c;
	c->q = q;
	c->what = what;
	c->mems = mems;
	return c;
}
// a transfer of rows; each row is one quantum (long rows are split)
struct Rect { unsigned char* src; unsigned char* dst; size_t width, rows, slices, srow, sslice, drow, dslice; };
void add_rows(Cmd* c, const Rect& r)
{
	for(size_t z = 0; z != r.slices; ++z)
	{
		for(size_t y = 0; y != r.rows; ++y)
		{
			unsigned char* s = r.src + y * r.srow + z * r.sslice;
			unsigned char* d = r.dst + y * r.drow + z * r.dslice;
			size_t part = std::max<size_t>(512, (r.width / 4 + 63) / 64 * 64);
			for(size_t at = 0; at < r.width; at += part)
			{
				size_t len = std::min(part, r.width - at);
				c->quanta.push_back([s, d, at, len] { memmove(d + at, s + at, len); });
			}
		}
	}
}
template<class T> cl_int give(const T& v, size_t size, void* value, size_t* ret)
{
	if(ret) { *ret = sizeof(T); }
	if(value) { if(size < sizeof(T)) { return CL_INVALID_VALUE; } memcpy(value, &v, sizeof(T)); }
	return CL_SUCCESS;
}
cl_int give_str(const std::string& v, size_t size, void* value, size_t* ret)
{
	if(ret) { *ret = v.size() + 1; }
	if(value) { if(size < v.size() + 1) { return CL_INVALID_VALUE; } memcpy(value, v.c_str(), v.size() + 1); }
	return CL_SUCCESS;
}
template<class T> cl_int give_vec(const std::vector<T>& v, size_t size, void* value, size_t* ret)
{
	if(ret) { *ret = v.size() * sizeof(T); }
	if(value) { if(size < v.size() * sizeof(T)) { return CL_INVALID_VALUE; } if(!v.empty()) { memcpy(value, v.data(), v.size() * sizeof(T)); } }
	return CL_SUCCESS;
}
}
namespace simcl {
void reset()
{
	cfg = Config();
	cfg.platforms = { { { 12, 1024 } } };
	st = Stats();
	w = World();				// objects of earlier runs leak with their process
	dead.clear();
	last_queue = nullptr;
}
void draw_timing()
{
	cfg.timing = 1 + static_cast<int>(choose(S_CL, 2));
	cfg.eager = 2u << choose(S_CL, 3);
	cfg.shuffle = choose(S_CL, 2) != 0;
	cfg.stall = choose(S_CL, 4) == 3;
	cfg.garbage = 2 + choose(S_CL, 1000);
}
void drop_pending() { w.dropped = true; }
}

// ------------------------------------------------------------------------------------------------ work-item functions
#define WI(ret, name, mangled, params) extern "C" ret name params __asm__(mangled); ret name params
WI(size_t, simcl_gid, "_Z13get_global_idj", (unsigned d)) { return d < 3 ? mc.goff[d] + mc.group[d] * mc.lsize[d] + mc.cur->lid[d] : 0; }
WI(size_t, simcl_lid, "_Z12get_local_idj", (unsigned d)) { return d < 3 ? mc.cur->lid[d] : 0; }
WI(size_t, simcl_grp, "_Z12get_group_idj", (unsigned d)) { return d < 3 ? mc.group[d] : 0; }
WI(size_t, simcl_gsz, "_Z15get_global_sizej", (unsigned d)) { return d < 3 ? mc.gsize[d] : 1; }
WI(size_t, simcl_lsz, "_Z14get_local_sizej", (unsigned d)) { return d < 3 ? mc.lsize[d] : 1; }
WI(size_t, simcl_els, "_Z23get_enqueued_local_sizej", (unsigned d)) { return d < 3 ? mc.lsize[d] : 1; }
WI(size_t, simcl_ngr, "_Z14get_num_groupsj", (unsigned d)) { return d < 3 ? mc.gsize[d] / mc.lsize[d] : 1; }
WI(size_t, simcl_off, "_Z17get_global_offsetj", (unsigned d)) { return d < 3 ? mc.goff[d] : 0; }
WI(unsigned, simcl_dim, "_Z12get_work_dimv", ()) { return mc.dim; }
WI(void, simcl_bar, "_Z7barrierj", (unsigned)) { mc.cur->state = 1; simcl_switch(&mc.cur->sp, mc.host_sp); }
WI(void, simcl_wgb, "_Z18work_group_barrierj", (unsigned)) { mc.cur->state = 1; simcl_switch(&mc.cur->sp, mc.host_sp); }
WI(void, simcl_fen, "_Z9mem_fencej", (unsigned)) { }
WI(void, simcl_rfe, "_Z14read_mem_fencej", (unsigned)) { }
WI(void, simcl_wfe, "_Z15write_mem_fencej", (unsigned)) { }

// ------------------------------------------------------------------------------------------------ the API
#define GATE(fn) do { cl_int e__ = gate(#fn); if(e__ != CL_SUCCESS) { return e__; } } while(0)
#define GATE_OBJ(fn) do { cl_int e__ = gate(#fn); if(e__ != CL_SUCCESS) { if(err) { *err = e__; } return nullptr; } } while(0)
#define FAIL_OBJ(code) do { if(err) { *err = (code); } return nullptr; } while(0)
#define OK_OBJ(o) do { if(err) { *err = CL_SUCCESS; } return (o); } while(0)
extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* out, cl_uint* num)
{
	GATE(clGetPlatformIDs);
	make_platforms();
	if(w.plats.empty()) { return -1001; }
	if(num) { *num = static_cast<cl_uint>(w.plats.size()); }
	for(size_t i = 0; out && i != std::min<size_t>(n, w.plats.size()); ++i) { out[i] = w.plats[i]; }
	return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetPlatformInfo);
	if(!p) { return CL_INVALID_PLATFORM; }
	switch(what)
	{
	case CL_PLATFORM_VERSION: return give_str(p->devs.empty() || p->devs[0]->version == 12 ? "OpenCL 1.2 sim" : p->devs[0]->version == 20 ? "OpenCL 2.0 sim" : "OpenCL 3.0 sim", size, value, ret);
	case CL_PLATFORM_PROFILE: return give_str("FULL_PROFILE", size, value, ret);
	case CL_PLATFORM_EXTENSIONS: return give_str("cl_khr_fp64", size, value, ret);
	default: return give_str("simulated " + std::to_string(p->n), size, value, ret);
	}
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type type, cl_uint n, cl_device_id* out, cl_uint* num)
{
	GATE(clGetDeviceIDs);
	if(!p) { return CL_INVALID_PLATFORM; }
	if(p->devs.empty() || !(type & (CL_DEVICE_TYPE_GPU | CL_DEVICE_TYPE_DEFAULT))) { return CL_DEVICE_NOT_FOUND; }
	if(num) { *num = static_cast<cl_uint>(p->devs.size()); }
	for(size_t i = 0; out && i != std::min<size_t>(n, p->devs.size()); ++i) { out[i] = p->devs[i]; }
	return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetDeviceInfo);
	if(!d) { return CL_INVALID_DEVICE; }
	std::string v = d->version == 12 ? "OpenCL 1.2 sim" : d->version == 20 ? "OpenCL 2.0 sim" : "OpenCL 3.0 sim";
	switch(what)
	{
	case CL_DEVICE_NAME: return give_str("device " + std::to_string(d->platform) + ":" + std::to_string(d->n), size, value, ret);
	case CL_DEVICE_VERSION: return give_str(v, size, value, ret);
	case CL_DEVICE_OPENCL_C_VERSION: return give_str(d->version == 12 ? "OpenCL C 1.2" : d->version == 20 ? "OpenCL C 2.0" : "OpenCL C 3.0", size, value, ret);
	case CL_DEVICE_PROFILE: return give_str("FULL_PROFILE", size, value, ret);
	case CL_DEVICE_VENDOR: case CL_DRIVER_VERSION: return give_str("sim", size, value, ret);
	case CL_DEVICE_EXTENSIONS: return give_str("cl_khr_fp64", size, value, ret);
	case CL_DEVICE_TYPE: return give<cl_device_type>(CL_DEVICE_TYPE_GPU, size, value, ret);
	case CL_DEVICE_PLATFORM: return give<cl_platform_id>(d->plat, size, value, ret);
	case CL_DEVICE_MAX_WORK_GROUP_SIZE: return give<size_t>(d->max_group, size, value, ret);
	case CL_DEVICE_MAX_WORK_ITEM_SIZES: { size_t s[3] = { d->max_group, d->max_group, d->max_group }; return give_vec(std::vector<size_t>(s, s + 3), size, value, ret); }
	case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: return give<cl_uint>(3, size, value, ret);
	case CL_DEVICE_MAX_COMPUTE_UNITS: return give<cl_uint>(8, size, value, ret);
	case CL_DEVICE_GLOBAL_MEM_CACHE_SIZE: case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE:
	case CL_DEVICE_LOCAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return give<cl_ulong>(1ull << 30, size, value, ret);
	case CL_DEVICE_QUEUE_PROPERTIES: return give<cl_command_queue_properties>(CL_QUEUE_PROFILING_ENABLE | CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE, size, value, ret);
	case CL_DEVICE_DOUBLE_FP_CONFIG: return give<cl_device_fp_config>(63, size, value, ret);
	case CL_DEVICE_PROFILING_TIMER_RESOLUTION: return give<size_t>(1, size, value, ret);
	default: return give<cl_uint>(1, size, value, ret);
	}
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }

cl_context clCreateContext(const cl_context_properties*, cl_uint n, const cl_device_id* devs, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* err)
{
	GATE_OBJ(clCreateContext);
	if(!n || !devs) { FAIL_OBJ(CL_INVALID_VALUE); }
	for(cl_uint i = 1; i < n; ++i) { if(devs[i]->plat != devs[0]->plat) { FAIL_OBJ(CL_INVALID_PLATFORM); } }
	cl_context c = reg(new _cl_context);
	c->devs.assign(devs, devs + n);
	OK_OBJ(c);
}
cl_context clCreateContextFromType(const cl_context_properties*, cl_device_type, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* err)
{
	GATE_OBJ(clCreateContextFromType);
	make_platforms();
	if(w.plats.empty() || w.plats[0]->devs.empty()) { FAIL_OBJ(CL_DEVICE_NOT_FOUND); }
	cl_context c = reg(new _cl_context);
	c->devs = w.plats[0]->devs;
	OK_OBJ(c);
}
cl_int clRetainContext(cl_context c) { if(!alive(c)) { return CL_INVALID_CONTEXT; } ++c->refs; return CL_SUCCESS; }
cl_int clReleaseContext(cl_context c) { if(!alive(c)) { return CL_INVALID_CONTEXT; } --c->refs; return CL_SUCCESS; }	// contexts stay: queues and buffers refer to them
cl_int clGetContextInfo(cl_context c, cl_context_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetContextInfo);
	if(!alive(c)) { return CL_INVALID_CONTEXT; }
	switch(what)
	{
	case CL_CONTEXT_DEVICES: return give_vec(c->devs, size, value, ret);
	case CL_CONTEXT_NUM_DEVICES: return give<cl_uint>(static_cast<cl_uint>(c->devs.size()), size, value, ret);
	case CL_CONTEXT_REFERENCE_COUNT: return give<cl_uint>(static_cast<cl_uint>(c->refs), size, value, ret);
	default: if(ret) { *ret = 0; } return CL_SUCCESS;
	}
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties props, cl_int* err)
{
	GATE_OBJ(clCreateCommandQueue);
	if(!alive(c)) { FAIL_OBJ(CL_INVALID_CONTEXT); }
	if(std::find(c->devs.begin(), c->devs.end(), d) == c->devs.end()) { FAIL_OBJ(CL_INVALID_DEVICE); }
	cl_command_queue q = reg(new _cl_command_queue);
	q->ctx = c;
	q->dev = d;
	q->props = props;
	q->id = w.next_queue++;
	w.queues.push_back(q);
	OK_OBJ(q);
}
cl_command_queue clCreateCommandQueueWithProperties(cl_context c, cl_device_id d, const cl_queue_properties* p, cl_int* err)
{
	cl_command_queue_properties props = 0;
	for(; p && *p; p += 2) { if(p[0] == CL_QUEUE_PROPERTIES) { props = p[1]; } }
	return clCreateCommandQueue(c, d, props, err);
}
cl_int clRetainCommandQueue(cl_command_queue q) { if(!alive(q)) { return CL_INVALID_COMMAND_QUEUE; } ++q->refs; return CL_SUCCESS; }
cl_int clReleaseCommandQueue(cl_command_queue q)
{
	if(!alive(q)) { return CL_INVALID_COMMAND_QUEUE; }
	--q->refs;					// an implicit flush: what is queued still runs
	background();
	return CL_SUCCESS;
}
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetCommandQueueInfo);
	if(!alive(q)) { return CL_INVALID_COMMAND_QUEUE; }
	switch(what)
	{
	case CL_QUEUE_CONTEXT: return give(q->ctx, size, value, ret);
	case CL_QUEUE_DEVICE: return give(q->dev, size, value, ret);
	case CL_QUEUE_PROPERTIES: return give(q->props, size, value, ret);
	default: return give<cl_uint>(static_cast<cl_uint>(q->refs), size, value, ret);
	}
}
cl_int clFlush(cl_command_queue q) { GATE(clFlush); if(!alive(q)) { return CL_INVALID_COMMAND_QUEUE; } background(); return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q)
{
	GATE(clFinish);
	if(!alive(q)) { return CL_INVALID_COMMAND_QUEUE; }
	++st.waits;
	while(!q->cmds.empty()) { if(unwinding()) { return CL_OUT_OF_RESOURCES; } if(!step()) { fail("device-deadlock", "clFinish can never return"); } }
	cl_int e = q->error;
	q->error = 0;
	return e;
}
cl_mem clCreateBuffer(cl_context c, cl_mem_flags flags, size_t size, void* host, cl_int* err)
{
	GATE_OBJ(clCreateBuffer);
	if(!alive(c)) { FAIL_OBJ(CL_INVALID_CONTEXT); }
	if(size == 0 || size > (1ull << 30)) { FAIL_OBJ(CL_INVALID_BUFFER_SIZE); }
	cl_mem m = reg(new _cl_mem);
	m->ctx = c;
	m->size = size;
	m->base = static_cast<unsigned char*>(aligned_alloc(64, (size + 2 * kZone + 63) / 64 * 64));
	memset(m->base, kZoneByte, kZone);
	memset(m->base + kZone + size, kZoneByte, kZone);
	uint64_t s = cfg.garbage;
	size_t k = 0;
	for(; k + 8 <= size; k += 8)
	{
		double v = (static_cast<double>(raw_rand(s) >> 11) / 9007199254740992.0 - 0.5) * 1e12;
		memcpy(m->base + kZone + k, &v, 8);
	}
	memset(m->base + kZone + k, 0x5a, size - k);
	if((flags & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR)) && host) { memcpy(m->base + kZone, host, size); }
	OK_OBJ(m);
}
cl_mem clCreateSubBuffer(cl_mem b, cl_mem_flags, cl_buffer_create_type, const void* info, cl_int* err)
{
	GATE_OBJ(clCreateSubBuffer);
	const cl_buffer_region* r = static_cast<const cl_buffer_region*>(info);
	if(!alive(b) || b->parent) { FAIL_OBJ(CL_INVALID_MEM_OBJECT); }
	if(!r || r->origin + r->size > b->size || r->size == 0) { FAIL_OBJ(CL_INVALID_VALUE); }
	cl_mem m = reg(new _cl_mem);
	m->ctx = b->ctx;
	m->size = r->size;
	m->parent = b;
	m->origin = r->origin;
	m->base = nullptr;
	++b->refs;
	OK_OBJ(m);
}
cl_int clRetainMemObject(cl_mem m) { if(!alive(m)) { return CL_INVALID_MEM_OBJECT; } ++m->refs; return CL_SUCCESS; }
cl_int clReleaseMemObject(cl_mem m) { if(!alive(m)) { return CL_INVALID_MEM_OBJECT; } --m->refs; mem_free(m); return CL_SUCCESS; }
cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetMemObjectInfo);
	if(!alive(m)) { return CL_INVALID_MEM_OBJECT; }
	switch(what)
	{
	case CL_MEM_SIZE: return give<size_t>(m->size, size, value, ret);
	case CL_MEM_CONTEXT: return give(m->ctx, size, value, ret);
	case CL_MEM_TYPE: return give<cl_mem_object_type>(CL_MEM_OBJECT_BUFFER, size, value, ret);
	case CL_MEM_FLAGS: return give<cl_mem_flags>(CL_MEM_READ_WRITE, size, value, ret);
	default: return give<cl_uint>(static_cast<cl_uint>(m->refs), size, value, ret);
	}
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* len, cl_int* err)
{
	GATE_OBJ(clCreateProgramWithSource);
	if(!alive(c)) { FAIL_OBJ(CL_INVALID_CONTEXT); }
	if(!n || !s) { FAIL_OBJ(CL_INVALID_VALUE); }
	cl_program p = reg(new _cl_program);
	p->ctx = c;
	for(cl_uint i = 0; i != n; ++i) { p->source += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]); }
	OK_OBJ(p);
}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id* devs, const char* options, void (CL_CALLBACK* cb)(cl_program, void*), void* data)
{
	GATE(clBuildProgram);
	if(!alive(p)) { return CL_INVALID_PROGRAM; }
	std::vector<cl_device_id> d = n ? std::vector<cl_device_id>(devs, devs + n) : p->ctx->devs;
	p->options = options ? options : "";
	cl_int rc = CL_SUCCESS;
	for(cl_device_id x : d)
	{
		if(std::find(p->ctx->devs.begin(), p->ctx->devs.end(), x) == p->ctx->devs.end()) { return CL_INVALID_DEVICE; }
		p->built[x] = simcl::build(p->source, p->options, x->version);
		if(!p->built[x]->ok) { rc = CL_BUILD_PROGRAM_FAILURE; event("program build failure: %.300s", p->built[x]->log.c_str()); }
	}
	if(cb) { cb(p, data); }
	return rc;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetProgramBuildInfo);
	if(!alive(p)) { return CL_INVALID_PROGRAM; }
	auto it = p->built.find(d);
	switch(what)
	{
	case CL_PROGRAM_BUILD_STATUS: return give<cl_build_status>(it == p->built.end() ? CL_BUILD_NONE : it->second->ok ? CL_BUILD_SUCCESS : CL_BUILD_ERROR, size, value, ret);
	case CL_PROGRAM_BUILD_OPTIONS: return give_str(p->options, size, value, ret);
	case CL_PROGRAM_BUILD_LOG: return give_str(it == p->built.end() ? "" : it->second->log, size, value, ret);
	default: return give<cl_uint>(0, size, value, ret);
	}
}
cl_int clGetProgramInfo(cl_program p, cl_program_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetProgramInfo);
	if(!alive(p)) { return CL_INVALID_PROGRAM; }
	switch(what)
	{
	case CL_PROGRAM_DEVICES: return give_vec(p->ctx->devs, size, value, ret);
	case CL_PROGRAM_NUM_DEVICES: return give<cl_uint>(static_cast<cl_uint>(p->ctx->devs.size()), size, value, ret);
	case CL_PROGRAM_CONTEXT: return give(p->ctx, size, value, ret);
	case CL_PROGRAM_SOURCE: return give_str(p->source, size, value, ret);
	default: return give<cl_uint>(static_cast<cl_uint>(p->refs), size, value, ret);
	}
}
cl_int clRetainProgram(cl_program p) { if(!alive(p)) { return CL_INVALID_PROGRAM; } ++p->refs; return CL_SUCCESS; }
cl_int clReleaseProgram(cl_program p) { if(!alive(p)) { return CL_INVALID_PROGRAM; } if(--p->refs == 0) { unreg(p); } return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* err)
{
	GATE_OBJ(clCreateKernel);
	if(!alive(p)) { FAIL_OBJ(CL_INVALID_PROGRAM); }
	const KernelInfo* k = nullptr;
	bool built = false;
	for(auto& b : p->built)
	{
		if(!b.second->ok) { continue; }
		built = true;
		auto it = b.second->kernels.find(name);
		if(it != b.second->kernels.end()) { k = &it->second; }
	}
	if(!built) { FAIL_OBJ(CL_INVALID_PROGRAM_EXECUTABLE); }
	if(!k) { FAIL_OBJ(CL_INVALID_KERNEL_NAME); }
	cl_kernel r = reg(new _cl_kernel);
	r->prog = p;
	++p->refs;
	r->name = name;
	r->types = k->types;
	r->args.resize(k->types.size());
	OK_OBJ(r);
}
cl_int clRetainKernel(cl_kernel k) { if(!alive(k)) { return CL_INVALID_KERNEL; } ++k->refs; return CL_SUCCESS; }
cl_int clReleaseKernel(cl_kernel k) { if(!alive(k)) { return CL_INVALID_KERNEL; } if(--k->refs == 0) { clReleaseProgram(k->prog); unreg(k); } return CL_SUCCESS; }
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetKernelInfo);
	if(!alive(k)) { return CL_INVALID_KERNEL; }
	switch(what)
	{
	case CL_KERNEL_FUNCTION_NAME: return give_str(k->name, size, value, ret);
	case CL_KERNEL_NUM_ARGS: return give<cl_uint>(static_cast<cl_uint>(k->args.size()), size, value, ret);
	case CL_KERNEL_PROGRAM: return give(k->prog, size, value, ret);
	case CL_KERNEL_CONTEXT: return give(k->prog->ctx, size, value, ret);
	case CL_KERNEL_ATTRIBUTES: return give_str("", size, value, ret);
	default: return give<cl_uint>(static_cast<cl_uint>(k->refs), size, value, ret);
	}
}
cl_int clGetKernelWorkGroupInfo(cl_kernel k, cl_device_id d, cl_kernel_work_group_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetKernelWorkGroupInfo);
	if(!alive(k)) { return CL_INVALID_KERNEL; }
	if(!d) { d = k->prog->ctx->devs[0]; }
	switch(what)
	{
	case CL_KERNEL_WORK_GROUP_SIZE: return give<size_t>(d->max_group, size, value, ret);
	case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE: return give<size_t>(4, size, value, ret);
	case CL_KERNEL_COMPILE_WORK_GROUP_SIZE: return give_vec(std::vector<size_t>(3, 0), size, value, ret);
	default: return give<cl_ulong>(4096, size, value, ret);
	}
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t size, const void* v)
{
	GATE(clSetKernelArg);
	if(!alive(k)) { return CL_INVALID_KERNEL; }
	if(i >= k->args.size()) { return CL_INVALID_ARG_INDEX; }
	if(size != type_size(k->types[i])) { return CL_INVALID_ARG_SIZE; }
	if(!v) { if(k->types[i] == "ptr") { unsupported("local memory arguments"); } return CL_INVALID_ARG_VALUE; }
	if(k->types[i] == "ptr")
	{
		cl_mem m;
		memcpy(&m, v, sizeof(m));
		if(m && !alive(m)) { return CL_INVALID_MEM_OBJECT; }
	}
	k->args[i].set = true;
	k->args[i].size = size;
	memcpy(k->args[i].v, v, size);
	return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* global, const size_t* local, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueNDRangeKernel);
	if(cl_int e = check_enqueue(q, {}, n, list)) { return e; }
	if(!alive(k)) { return CL_INVALID_KERNEL; }
	if(k->prog->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	auto b = k->prog->built.find(q->dev);
	if(b == k->prog->built.end() || !b->second->ok) { return CL_INVALID_PROGRAM_EXECUTABLE; }
	if(dim < 1 || dim > 3) { return CL_INVALID_WORK_DIMENSION; }
	struct Launch { size_t g[3], l[3], o[3]; unsigned dim; tramp_t fn; std::vector<std::array<unsigned char, 16>> vals; std::vector<void*> ptrs; std::string name; };
	std::shared_ptr<Launch> L(new Launch);
	L->dim = dim;
	L->name = k->name;
	size_t wg = 1;
	for(unsigned i = 0; i != 3; ++i)
	{
		L->g[i] = i < dim ? global[i] : 1;
		L->o[i] = i < dim && off ? off[i] : 0;
		if(L->g[i] == 0) { return CL_INVALID_GLOBAL_WORK_SIZE; }
		if(local) { L->l[i] = i < dim ? local[i] : 1; }
		else { L->l[i] = 1; if(i == 0) { for(size_t s = std::min<size_t>(64, q->dev->max_group); s; s /= 2) { if(L->g[0] % s == 0) { L->l[0] = s; break; } } } }
		if(L->l[i] == 0 || L->g[i] % L->l[i]) { return CL_INVALID_WORK_GROUP_SIZE; }
		wg *= L->l[i];
	}
	if(wg > q->dev->max_group) { return CL_INVALID_WORK_GROUP_SIZE; }
	Cmd* c = new_cmd(q, CL_COMMAND_NDRANGE_KERNEL, "kernel " + k->name, {});
	L->fn = b->second->kernels[k->name].fn;
	L->vals.resize(k->args.size());
	L->ptrs.resize(k->args.size());
	for(size_t i = 0; i != k->args.size(); ++i)
	{
		cl_int bad = k->args[i].set ? CL_SUCCESS : CL_INVALID_KERNEL_ARGS;
		if(!bad)
		{
			memcpy(L->vals[i].data(), k->args[i].v, 16);
			if(k->types[i] == "ptr")
			{
				cl_mem m;
				memcpy(&m, k->args[i].v, sizeof(m));
				void* p = nullptr;
				if(m)
				{
					if(!alive(m)) { bad = CL_INVALID_MEM_OBJECT; }
					else if(m->ctx != q->ctx) { bad = CL_INVALID_CONTEXT; }
					else { p = m->data(); c->mems.push_back(m); }
				}
				memcpy(L->vals[i].data(), &p, sizeof(p));
			}
			L->ptrs[i] = L->vals[i].data();
		}
		if(bad) { cl_event e = c->ev; delete c; ev_release(e); return bad; }
	}
	++st.kernels;
	std::vector<size_t> groups(L->g[0] / L->l[0] * (L->g[1] / L->l[1]) * (L->g[2] / L->l[2]));
	for(size_t i = 0; i != groups.size(); ++i) { groups[i] = i; }
	shuffle(groups);
	for(size_t gi : groups)
	{
		c->quanta.push_back([L, gi]
		{
			size_t nx = L->g[0] / L->l[0], ny = L->g[1] / L->l[1];
			mc.group[0] = gi % nx;
			mc.group[1] = gi / nx % ny;
			mc.group[2] = gi / nx / ny;
			for(int i = 0; i != 3; ++i) { mc.gsize[i] = L->g[i]; mc.lsize[i] = L->l[i]; mc.goff[i] = L->o[i]; }
			mc.dim = L->dim;
			mc.fn = L->fn;
			mc.args = L->ptrs.data();
			run_group(L->name.c_str());
		});
	}
	return enqueue(c, n, list, out, false);
}
cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, cl_uint n, const cl_event* list, cl_event* out)
{
	size_t one = 1;
	return clEnqueueNDRangeKernel(q, k, 1, nullptr, &one, &one, n, list, out);
}
static bool rect_ok(cl_mem m, const size_t* o, const size_t* r, size_t& row, size_t& slice)
{
	if(!row) { row = r[0]; }
	if(!slice) { slice = r[1] * row; }
	if(!r[0] || !r[1] || !r[2] || row < r[0] || slice < r[1] * row) { return false; }
	return !m || o[2] * slice + o[1] * row + o[0] + (r[2] - 1) * slice + (r[1] - 1) * row + r[0] <= m->size;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool block, size_t off, size_t size, void* p, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueReadBuffer);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { return e; }
	if(!p || !size || off + size > m->size) { return CL_INVALID_VALUE; }
	Cmd* c = new_cmd(q, CL_COMMAND_READ_BUFFER, "read", { m });
	add_rows(c, Rect{ m->data() + off, static_cast<unsigned char*>(p), size, 1, 1, 0, 0, 0, 0 });
	return enqueue(c, n, list, out, block);
}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool block, size_t off, size_t size, const void* p, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueWriteBuffer);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { return e; }
	if(!p || !size || off + size > m->size) { return CL_INVALID_VALUE; }
	Cmd* c = new_cmd(q, CL_COMMAND_WRITE_BUFFER, "write", { m });
	add_rows(c, Rect{ static_cast<unsigned char*>(const_cast<void*>(p)), m->data() + off, size, 1, 1, 0, 0, 0, 0 });
	return enqueue(c, n, list, out, block);
}
cl_int clEnqueueReadBufferRect(cl_command_queue q, cl_mem m, cl_bool block, const size_t* bo, const size_t* ho, const size_t* r, size_t brow, size_t bslice, size_t hrow, size_t hslice, void* p, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueReadBufferRect);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { return e; }
	if(!p || !rect_ok(m, bo, r, brow, bslice) || !rect_ok(nullptr, ho, r, hrow, hslice)) { return CL_INVALID_VALUE; }
	Cmd* c = new_cmd(q, CL_COMMAND_READ_BUFFER_RECT, "read rows", { m });
	add_rows(c, Rect{ m->data() + bo[2] * bslice + bo[1] * brow + bo[0], static_cast<unsigned char*>(p) + ho[2] * hslice + ho[1] * hrow + ho[0], r[0], r[1], r[2], brow, bslice, hrow, hslice });
	return enqueue(c, n, list, out, block);
}
cl_int clEnqueueWriteBufferRect(cl_command_queue q, cl_mem m, cl_bool block, const size_t* bo, const size_t* ho, const size_t* r, size_t brow, size_t bslice, size_t hrow, size_t hslice, const void* p, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueWriteBufferRect);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { return e; }
	if(!p || !rect_ok(m, bo, r, brow, bslice) || !rect_ok(nullptr, ho, r, hrow, hslice)) { return CL_INVALID_VALUE; }
	Cmd* c = new_cmd(q, CL_COMMAND_WRITE_BUFFER_RECT, "write rows", { m });
	add_rows(c, Rect{ static_cast<unsigned char*>(const_cast<void*>(p)) + ho[2] * hslice + ho[1] * hrow + ho[0], m->data() + bo[2] * bslice + bo[1] * brow + bo[0], r[0], r[1], r[2], hrow, hslice, brow, bslice });
	return enqueue(c, n, list, out, block);
}
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem s, cl_mem d, size_t so, size_t dof, size_t size, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueCopyBuffer);
	if(cl_int e = check_enqueue(q, { s, d }, n, list)) { return e; }
	if(!size || so + size > s->size || dof + size > d->size) { return CL_INVALID_VALUE; }
	if(s == d && so < dof + size && dof < so + size) { return CL_MEM_COPY_OVERLAP; }
	Cmd* c = new_cmd(q, CL_COMMAND_COPY_BUFFER, "copy", { s, d });
	add_rows(c, Rect{ s->data() + so, d->data() + dof, size, 1, 1, 0, 0, 0, 0 });
	return enqueue(c, n, list, out, false);
}
cl_int clEnqueueCopyBufferRect(cl_command_queue q, cl_mem s, cl_mem d, const size_t* so, const size_t* dof, const size_t* r, size_t srow, size_t sslice, size_t drow, size_t dslice, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueCopyBufferRect);
	if(cl_int e = check_enqueue(q, { s, d }, n, list)) { return e; }
	if(!rect_ok(s, so, r, srow, sslice) || !rect_ok(d, dof, r, drow, dslice)) { return CL_INVALID_VALUE; }
	Cmd* c = new_cmd(q, CL_COMMAND_COPY_BUFFER_RECT, "copy rows", { s, d });
	add_rows(c, Rect{ s->data() + so[2] * sslice + so[1] * srow + so[0], d->data() + dof[2] * dslice + dof[1] * drow + dof[0], r[0], r[1], r[2], srow, sslice, drow, dslice });
	return enqueue(c, n, list, out, false);
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* pat, size_t ps, size_t off, size_t size, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueFillBuffer);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { return e; }
	if(!pat || !ps || off % ps || size % ps || off + size > m->size) { return CL_INVALID_VALUE; }
	Cmd* c = new_cmd(q, CL_COMMAND_FILL_BUFFER, "fill", { m });
	std::string v(static_cast<const char*>(pat), ps);
	unsigned char* d = m->data() + off;
	c->quanta.push_back([v, d, size] { for(size_t i = 0; i < size; i += v.size()) { memcpy(d + i, v.data(), v.size()); } });
	return enqueue(c, n, list, out, false);
}
static cl_int marker(const char* what, cl_command_type t, cl_command_queue q, cl_uint n, const cl_event* list, cl_event* out, bool barrier)
{
	if(cl_int e = check_enqueue(q, {}, n, list)) { return e; }
	Cmd* c = new_cmd(q, t, what, {});
	c->barrier = barrier || n == 0;
	c->quanta.push_back([] {});
	return enqueue(c, n, list, out, false);
}
cl_int clEnqueueMarkerWithWaitList(cl_command_queue q, cl_uint n, const cl_event* list, cl_event* out) { GATE(clEnqueueMarkerWithWaitList); return marker("marker", CL_COMMAND_MARKER, q, n, list, out, false); }
cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint n, const cl_event* list, cl_event* out) { GATE(clEnqueueBarrierWithWaitList); return marker("barrier", CL_COMMAND_BARRIER, q, n, list, out, true); }
cl_int clEnqueueMarker(cl_command_queue q, cl_event* out) { GATE(clEnqueueMarker); return marker("marker", CL_COMMAND_MARKER, q, 0, nullptr, out, false); }
cl_int clEnqueueBarrier(cl_command_queue q) { GATE(clEnqueueBarrier); return marker("barrier", CL_COMMAND_BARRIER, q, 0, nullptr, nullptr, true); }
cl_int clEnqueueMigrateMemObjects(cl_command_queue q, cl_uint, const cl_mem*, cl_mem_migration_flags, cl_uint n, const cl_event* list, cl_event* out) { GATE(clEnqueueMigrateMemObjects); return marker("migrate", CL_COMMAND_MIGRATE_MEM_OBJECTS, q, n, list, out, false); }
void* clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool, cl_map_flags, size_t off, size_t size, cl_uint n, const cl_event* list, cl_event* out, cl_int* err)
{
	GATE_OBJ(clEnqueueMapBuffer);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { FAIL_OBJ(e); }
	if(!size || off + size > m->size) { FAIL_OBJ(CL_INVALID_VALUE); }
	Cmd* c = new_cmd(q, CL_COMMAND_MAP_BUFFER, "map", { m });
	c->quanta.push_back([] {});
	if(cl_int e = enqueue(c, n, list, out, true)) { FAIL_OBJ(e); }	// always waits: a mapping points at the device memory itself
	OK_OBJ(m->data() + off);
}
cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem m, void*, cl_uint n, const cl_event* list, cl_event* out)
{
	GATE(clEnqueueUnmapMemObject);
	if(cl_int e = check_enqueue(q, { m }, n, list)) { return e; }
	return marker("unmap", CL_COMMAND_UNMAP_MEM_OBJECT, q, n, list, out, false);
}
cl_int clWaitForEvents(cl_uint n, const cl_event* list)
{
	GATE(clWaitForEvents);
	if(!n || !list) { return CL_INVALID_VALUE; }
	for(cl_uint i = 0; i != n; ++i)
	{
		if(!alive(list[i])) { return CL_INVALID_EVENT; }
		if(list[i]->ctx != list[0]->ctx) { return CL_INVALID_CONTEXT; }
	}
	++st.waits;
	cl_int rc = CL_SUCCESS;
	for(cl_uint i = 0; i != n; ++i)
	{
		while(list[i]->status > CL_COMPLETE) { if(unwinding()) { return CL_OUT_OF_RESOURCES; } if(!step()) { fail("device-deadlock", "clWaitForEvents can never return"); } }
		if(list[i]->status < 0) { rc = CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST; }
	}
	for(cl_command_queue q : w.queues) { st.pending_at_return += static_cast<int64_t>(q->cmds.size()); }
	return rc;
}
cl_int clRetainEvent(cl_event e) { if(!alive(e)) { return CL_INVALID_EVENT; } ++e->refs; return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event e) { if(!alive(e)) { return CL_INVALID_EVENT; } ev_release(e); return CL_SUCCESS; }
cl_int clGetEventInfo(cl_event e, cl_event_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetEventInfo);
	if(!alive(e)) { return CL_INVALID_EVENT; }
	background();
	switch(what)
	{
	case CL_EVENT_COMMAND_QUEUE: return give(e->queue, size, value, ret);
	case CL_EVENT_CONTEXT: return give(e->ctx, size, value, ret);
	case CL_EVENT_COMMAND_TYPE: return give(e->type, size, value, ret);
	case CL_EVENT_COMMAND_EXECUTION_STATUS: return give<cl_int>(e->status, size, value, ret);
	default: return give<cl_uint>(static_cast<cl_uint>(e->refs), size, value, ret);
	}
}
cl_int clSetEventCallback(cl_event e, cl_int, void (CL_CALLBACK* f)(cl_event, cl_int, void*), void* data)
{
	GATE(clSetEventCallback);
	if(!alive(e)) { return CL_INVALID_EVENT; }
	if(e->status <= CL_COMPLETE) { f(e, e->status, data); }
	else { e->callbacks.emplace_back(f, data); }
	return CL_SUCCESS;
}
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info what, size_t size, void* value, size_t* ret)
{
	GATE(clGetEventProfilingInfo);
	if(!alive(e)) { return CL_INVALID_EVENT; }
	if(e->status != CL_COMPLETE || !(e->queue->props & CL_QUEUE_PROFILING_ENABLE)) { return CL_PROFILING_INFO_NOT_AVAILABLE; }
	size_t i = what == CL_PROFILING_COMMAND_QUEUED ? 0 : what == CL_PROFILING_COMMAND_SUBMIT ? 1 : what == CL_PROFILING_COMMAND_START ? 2 : 3;
	return give<cl_ulong>(static_cast<cl_ulong>(e->t[i] * 1e9), size, value, ret);
}
}
