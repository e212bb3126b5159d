#include "simomp.h"
#include "core.h"
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <vector>
#include <malloc.h>
#include <pthread.h>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace simomp {
Config cfg;
int64_t switches = 0, regions = 0, accesses = 0, conflicts = 0;

typedef void (*Fn)(void*);
struct Group { Group* outer; long count; };
struct Task {
	Fn fn = nullptr; void* data = nullptr; std::vector<char> buf; Task* parent = nullptr; Group* group = nullptr;
	long children = 0; bool final_ = false;
	bool done = false; long preds = 0; std::vector<Task*> succ;		// depend clauses
	struct Addr { Task* out = nullptr; std::vector<Task*> in; };
	std::map<void*, Addr> deps;
};
struct WorkShare {
	bool init = false; bool single_taken = false; void* copy = nullptr; bool copy_ready = false;
	__int128 next = 0, end = 0, incr = 1; long chunk = 1; int kind = 0; long sections = 0, section_next = 0;
	bool up = true; bool ordered = false; __int128 ordered_next = 0;
};
enum State { RUN, START, BARRIER, FINAL, FINAL_MASTER, TASKWAIT, GROUPWAIT, LOCK, COPYWAIT, ORDERWAIT };
struct Lock { bool held = false; void* owner = nullptr; int depth = 0; };
struct Team {
	int n = 1;
	std::deque<std::unique_ptr<WorkShare>> ws;
	std::vector<Task*> queue;				// deferred, not started
	std::vector<std::unique_ptr<Task>> arena;
	long outstanding = 0;
	int arrived = 0, finished = 0;
	uint64_t gen = 0;
	std::vector<struct Th*> th;
};
struct Th {
	int go = 0;
	Team* team = nullptr; int tid = 0; int level = 0;
	State state = RUN; Lock* lock = nullptr; WorkShare* copyws = nullptr; uint64_t bgen = 0;
	Task* cur = nullptr; Group* group = nullptr;
	size_t ws_idx = 0;
	WorkShare* ws = nullptr;
	__int128 st_next = 0; bool st_done = false;
	__int128 ord_lo = 0, ord_hi = 0; bool ord_have = false;
	Fn fn = nullptr; void* data = nullptr; bool start = false;
	pthread_t pt;
};
static thread_local Th* self_ = nullptr;
static std::vector<Th*> pool;
static Team* active = nullptr;				// the multi-threaded team, if any
static uint32_t cd_gap = 0, cd_hot = 0;		// accesses until the next preemption; 0: never
static int default_threads_override = 0;
static uint64_t epoch = 0;

static Th* self()
{
	if(!self_)
	{
		self_ = new Th();
		self_->team = new Team();
		self_->team->th.push_back(self_);
		self_->team->arena.emplace_back(new Task());
		self_->cur = self_->team->arena.back().get();
	}
	return self_;
}
static void fwait(Th* t)
{
	while(__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) { syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
	__atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void fwake(Th* t)
{
	__atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static bool queued_child(Team* tm, Task* p)
{
	for(Task* t : tm->queue) { if(t->parent == p) { return true; } }
	return false;
}
static bool queued_group(Team* tm, Group* gr)
{
	for(Task* t : tm->queue) { for(Group* x = t->group; x; x = x->outer) { if(x == gr) { return true; } } }
	return false;
}
static bool ready(Th* t)
{
	Team* tm = t->team;
	switch(t->state)
	{
	case RUN: case START: return true;
	case BARRIER: return tm->gen != t->bgen || !tm->queue.empty() || (tm->arrived == tm->n && tm->outstanding == 0);
	case FINAL: return !tm->queue.empty();
	case FINAL_MASTER: return !tm->queue.empty() || (tm->finished == tm->n - 1 && tm->outstanding == 0);
	case TASKWAIT: return t->cur->children == 0 || queued_child(tm, t->cur);
	case GROUPWAIT: return t->group->count == 0 || queued_group(tm, t->group);
	case LOCK: return !t->lock->held;
	case COPYWAIT: return t->copyws->copy_ready;
	case ORDERWAIT: return t->ws->ordered_next == t->ord_lo;
	}
	return false;
}
static void redraw()
{
	cd_gap = cfg.gap ? sim::choose(sim::S_SCHED, cfg.gap) : 0;
	cd_hot = cfg.hot_gap ? sim::choose(sim::S_SCHED, cfg.hot_gap) : 0;
}
// gives the processor to some ready thread of the team; returns when this thread is scheduled again
static void yield_point()
{
	Th* me = self();
	Team* tm = me->team;
	if(tm->n == 1)
	{
		if(!ready(me)) { sim::fail("deadlock", "a single-threaded region waits for itself"); }
		return;
	}
	Th* cand[64];
	uint32_t n = 0;
	for(int k = 0; k < tm->n; ++k)
	{
		Th* t = tm->th[static_cast<size_t>((me->tid + k) % tm->n)];
		if(ready(t)) { cand[n++] = t; }
	}
	if(n == 0) { sim::fail("deadlock", "all %d threads of a parallel region wait for each other", tm->n); }
	Th* nx = cand[sim::choose(sim::S_SCHED, n)];
	if(nx == me) { return; }
	++switches;
	sim::sig((static_cast<uint64_t>(nx->tid) << 48) ^ static_cast<uint64_t>(accesses));
	redraw();
	fwake(nx);
	fwait(me);
}
static void preempt() { if(switches < cfg.max_switches) { yield_point(); } }
static void block(State s)
{
	Th* me = self();
	me->state = s;
	yield_point();
	me->state = RUN;
}
static void run_task(Th* me, Task* t)
{
	Task* oc = me->cur;
	Group* og = me->group;
	me->cur = t;
	me->group = t->group;
	t->fn(t->data);
	me->cur = oc;
	me->group = og;
	if(t->parent) { t->parent->children--; }
	for(Group* x = t->group; x; x = x->outer) { x->count--; }
	me->team->outstanding--;
	t->done = true;
	for(Task* x : t->succ) { if(--x->preds == 0) { me->team->queue.push_back(x); } }
	t->succ.clear();
}
static Task* take(Team* tm, size_t i)
{
	Task* t = tm->queue[i];
	tm->queue.erase(tm->queue.begin() + static_cast<long>(i));
	return t;
}
static void run_any(Th* me)
{
	Team* tm = me->team;
	run_task(me, take(tm, sim::choose(sim::S_TASK, static_cast<uint32_t>(tm->queue.size()))));
}
static void barrier()
{
	Th* me = self();
	Team* tm = me->team;
	if(tm->n == 1) { while(!tm->queue.empty()) { run_any(me); } return; }
	preempt();
	me->bgen = tm->gen;
	tm->arrived++;
	for(;;)
	{
		if(tm->gen != me->bgen) { break; }
		if(!tm->queue.empty()) { run_any(me); continue; }
		if(tm->arrived == tm->n && tm->outstanding == 0) { tm->arrived = 0; tm->gen++; break; }
		block(BARRIER);
	}
	preempt();
}
static void* worker(void* p)
{
	Th* me = static_cast<Th*>(p);
	self_ = me;
	fwait(me);
	for(;;)
	{
		me->start = false;
		me->state = RUN;
		me->fn(me->data);
		Team* tm = me->team;
		tm->finished++;
		while(!me->start)
		{
			if(!tm->queue.empty()) { run_any(me); continue; }
			// hand over and park; woken for a task or for the next region
			me->state = FINAL;
			Th* cand[64];
			uint32_t n = 0;
			for(int k = 0; k < tm->n; ++k)
			{
				Th* t = tm->th[static_cast<size_t>((me->tid + k) % tm->n)];
				if(t != me && ready(t)) { cand[n++] = t; }
			}
			if(n == 0) { sim::fail("deadlock", "all %d threads of a parallel region wait for each other", tm->n); }
			Th* nx = cand[sim::choose(sim::S_SCHED, n)];
			++switches;
			sim::sig((static_cast<uint64_t>(nx->tid) << 48) ^ static_cast<uint64_t>(accesses));
			redraw();
			fwake(nx);
			fwait(me);
			me->state = RUN;
		}
	}
	return nullptr;
}
static void atfork_child() { pool.clear(); active = nullptr; self_ = nullptr; }
struct Init { Init() { pthread_atfork(nullptr, nullptr, atfork_child); } } init_;

static int default_threads() { return default_threads_override > 0 ? default_threads_override : cfg.threads; }

static void serial_region(Fn fn, void* data, std::function<void(Team*)> prep = std::function<void(Team*)>())
{
	Th* me = self();
	Team tm;
	tm.n = 1;
	tm.th.push_back(me);
	tm.arena.emplace_back(new Task());
	Team* ot = me->team; int otid = me->tid; Task* oc = me->cur; Group* og = me->group; size_t ow = me->ws_idx; WorkShare* ows = me->ws;
	me->team = &tm; me->tid = 0; me->cur = tm.arena.back().get(); me->group = nullptr; me->ws_idx = 0; me->level++;
	if(prep) { prep(&tm); }
	fn(data);
	while(!tm.queue.empty()) { run_any(me); }
	me->team = ot; me->tid = otid; me->cur = oc; me->group = og; me->ws_idx = ow; me->ws = ows; me->level--;
}
static void parallel(Fn fn, void* data, unsigned nthreads, std::function<void(Team*)> prep = std::function<void(Team*)>())
{
	Th* me = self();
	int n = nthreads ? static_cast<int>(nthreads) : default_threads();
	if(n > 128) { n = 128; }
	++regions;
	if(n > 1 && !active && me->level == 0)
	{
		if(cfg.limit && n > cfg.limit) { n = cfg.limit; sim::count("fault:team smaller than asked for"); }
		if(cfg.vary && n > 1)
		{
			int k = n - static_cast<int>(sim::choose(sim::S_SCHED, static_cast<uint32_t>(n)));
			if(k != n) { sim::count("fault:team smaller than asked for"); n = k; }
		}
	}
	if(n <= 1 || active || me->level > 0) { serial_region(fn, data, prep); return; }
	++epoch;
	while(static_cast<int>(pool.size()) < n - 1)
	{
		Th* t = new Th();
		pool.push_back(t);
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 1 << 20);
		if(pthread_create(&t->pt, &at, worker, t) != 0) { sim::fail("harness-thread", "pthread_create failed"); }
	}
	Team tm;
	tm.n = n;
	tm.th.push_back(me);
	Team* ot = me->team; int otid = me->tid; Task* oc = me->cur; Group* og = me->group; size_t ow = me->ws_idx; WorkShare* ows = me->ws;
	active = &tm;
	for(int i = 0; i < n; ++i)
	{
		Th* t = i == 0 ? me : pool[static_cast<size_t>(i - 1)];
		if(i) { tm.th.push_back(t); }
		tm.arena.emplace_back(new Task());
		t->team = &tm; t->tid = i; t->cur = tm.arena.back().get(); t->group = nullptr; t->ws_idx = 0; t->ws = nullptr;
		t->level = 1;
		if(i) { t->fn = fn; t->data = data; t->start = true; t->state = START; }
	}
	if(prep) { prep(&tm); }
	redraw();
	preempt();
	fn(data);
	for(;;)
	{
		if(!tm.queue.empty()) { run_any(me); continue; }
		if(tm.finished == n - 1 && tm.outstanding == 0) { break; }
		block(FINAL_MASTER);
	}
	active = nullptr;
	me->team = ot; me->tid = otid; me->cur = oc; me->group = og; me->ws_idx = ow; me->ws = ows; me->level = 0;
}

// ---- memory accesses of instrumented code --------------------------------------------------------------------------
struct Cell { uintptr_t key; uint64_t epoch; int tid; bool shared, written; };
static Cell cells[1 << 15];
static unsigned char hot[1 << 14];
static inline void access(const void* a, bool wr, void* pc)
{
	if(!active) { return; }
	++accesses;
	Th* me = self_;
	uintptr_t key = reinterpret_cast<uintptr_t>(a) >> 3;
	Cell& c(cells[(key * 0x9E3779B97F4A7C15ull) >> 49]);
	size_t site = (reinterpret_cast<uintptr_t>(pc) * 0x9E3779B97F4A7C15ull) >> 50;
	if(c.key != key || c.epoch != epoch) { c.key = key; c.epoch = epoch; c.tid = me->tid; c.shared = false; c.written = wr; }
	else
	{
		bool other = c.tid != me->tid;
		if(other && (wr || c.written)) { hot[site] = 1; ++conflicts; }
		c.written |= wr;
		c.tid = me->tid;
	}
	bool go = false;
	if(cd_gap && --cd_gap == 0) { go = true; }
	if(hot[site] && cd_hot && --cd_hot == 0) { go = true; }
	if(go)
	{
		if(switches < cfg.max_switches)
		{
			int64_t s0 = switches;
			yield_point();
			if(s0 == switches) { redraw(); }
		}
	}
}
void yield() { if(active) { preempt(); } }
void reset()
{
	cfg = Config();
	switches = regions = accesses = conflicts = 0;
	cd_gap = cd_hot = 0;
	default_threads_override = 0;
	memset(hot, 0, sizeof(hot));
	mallopt(M_PERTURB, 0);
}
void fresh_memory()
{
	// what new and freed memory holds is not the program's business
	static const int fill[] = { 0, 0xff, 0x55, 0x80, 0x01, 0xc0 };
	int f = fill[sim::choose(sim::S_SCHED, 6)];
	mallopt(M_PERTURB, f);
	if(f) { sim::count("fault:garbage in fresh memory"); }
	sim::event("fresh memory %02x", f);
}
void draw_config(int max_threads, bool force_parallel)
{
	reset();
	static const int many[] = { 3, 5, 6, 7, 9, 11, 12, 16, 17, 24, 32, 48, 64, 65 };
	if(sim::choose(sim::S_SCHED, 3) == 2) { cfg.threads = many[sim::choose(sim::S_SCHED, 14)]; }
	else
	{
		cfg.threads = force_parallel ? 2 + static_cast<int>(sim::choose(sim::S_SCHED, static_cast<uint32_t>(max_threads - 1)))
					  : 1 + static_cast<int>(sim::choose(sim::S_SCHED, static_cast<uint32_t>(max_threads)));
	}
	switch(sim::choose(sim::S_SCHED, 8))
	{
	case 6: cfg.limit = 1 + static_cast<int>(sim::choose(sim::S_SCHED, static_cast<uint32_t>(cfg.threads))); break;
	case 7: cfg.vary = true; break;
	default: break;
	}
	static const uint32_t gaps[] = { 0, 16, 64, 300, 2000, 12000 };
	static const uint32_t hots[] = { 0, 3, 6, 20 };
	cfg.gap = gaps[sim::choose(sim::S_SCHED, 6)];
	cfg.hot_gap = hots[sim::choose(sim::S_SCHED, 4)];
	cfg.defer_tasks = sim::choose(sim::S_SCHED, 4) != 0;
	cfg.clock_jumps = true;
	fresh_memory();
	sim::event("omp threads=%d limit=%d vary=%d gap=%u hot_gap=%u defer=%d", cfg.threads, cfg.limit, cfg.vary, cfg.gap, cfg.hot_gap, cfg.defer_tasks);
}

// ---- clock -----------------------------------------------------------------------------------------------------------
static double clk = 1.0e6;
double clock_now()
{
	if(!sim::g) { return clk; }
	clk += 1e-3;
	sim::g->sim_time += 1e-3;
	if(cfg.clock_jumps && !active && sim::chance(sim::S_CLOCK, 0.2))
	{
		static const double j[] = { 0, 3600, -3600, -0.001, 1e9, -2e6, 5 };
		double d = j[sim::choose(sim::S_CLOCK, 7)];
		if(d == 0) { clk -= 1e-3; } // stalled
		clk += d;
		sim::count("fault:clock-jump");
		sim::event("clock jump %g", d);
	}
	return clk;
}
static bool program = false;
static uint64_t entropy = 0;
void enter_program()
{
	program = true;
	entropy = 1;
	if(cfg.clock_jumps)
	{
		uint32_t k = sim::choose(sim::S_CLOCK, 64);		// another start date, other random bits
		entropy += k;
		clk += 86400.0 * 37 * k + 0.125 * k;
	}
}
static void fill_entropy(void* p, size_t n)
{
	for(size_t i = 0; i != n; ++i) { static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(sim::raw_rand(entropy)); }
}
} // namespace simomp

using namespace simomp;

// ---- libgomp ABI -------------------------------------------------------------------------------------------------------
namespace {
enum { K_STATIC = 1, K_DYNAMIC, K_GUIDED, K_RUNTIME };
WorkShare* next_ws(Th* me)
{
	Team* tm = me->team;
	while(tm->ws.size() <= me->ws_idx) { tm->ws.emplace_back(new WorkShare()); }
	return tm->ws[me->ws_idx++].get();
}
void init_loop(WorkShare* w, __int128 s, __int128 e, __int128 i, long chunk, int kind)
{
	if(w->init) { return; }
	w->init = true;
	w->next = s; w->end = e; w->incr = i ? i : 1; w->chunk = chunk > 0 ? chunk : 1; w->kind = kind;
	w->up = w->incr > 0;
	if(kind == K_STATIC && chunk <= 0) { w->chunk = 0; }
}
bool loop_next(Th* me, __int128* is, __int128* ie)
{
	WorkShare* w = me->ws;
	preempt();
	if(w->kind == K_STATIC)
	{
		__int128 total = w->up ? (w->end - w->next + w->incr - 1) / w->incr : (w->end - w->next + w->incr + 1) / w->incr;
		if(total <= 0) { return false; }
		__int128 n = me->team->n, lo, hi;
		if(w->chunk == 0)
		{
			if(me->st_done) { return false; }
			me->st_done = true;
			__int128 q = total / n, r = total % n;
			lo = q * me->tid + (me->tid < r ? me->tid : r);
			hi = lo + q + (me->tid < r ? 1 : 0);
		}
		else
		{
			lo = (me->st_next * n + me->tid) * w->chunk;
			hi = lo + w->chunk;
			me->st_next++;
			if(hi > total) { hi = total; }
		}
		if(lo >= hi) { return false; }
		*is = w->next + lo * w->incr;
		*ie = w->next + hi * w->incr;
		return true;
	}
	if(w->up ? w->next >= w->end : w->next <= w->end) { return false; }
	__int128 step = w->incr * w->chunk;
	if(w->kind == K_GUIDED)
	{
		__int128 left = (w->end - w->next) / w->incr / me->team->n;
		if(left > w->chunk) { step = left * w->incr; }
	}
	*is = w->next;
	w->next += step;
	if(w->up ? w->next > w->end : w->next < w->end) { w->next = w->end; }
	*ie = w->next;
	return true;
}
bool loop_start(__int128 s, __int128 e, __int128 i, long chunk, int kind, __int128* is, __int128* ie)
{
	Th* me = self();
	me->ws = next_ws(me);
	me->st_next = 0;
	me->st_done = false;
	init_loop(me->ws, s, e, i, chunk, kind);
	return loop_next(me, is, ie);
}
bool l_start(long s, long e, long i, long c, int k, long* is, long* ie)
{
	__int128 a = 0, b = 0;
	bool r = loop_start(s, e, i, c, k, &a, &b);
	if(r) { *is = static_cast<long>(a); *ie = static_cast<long>(b); }
	return r;
}
bool l_next(long* is, long* ie)
{
	__int128 a = 0, b = 0;
	bool r = loop_next(self(), &a, &b);
	if(r) { *is = static_cast<long>(a); *ie = static_cast<long>(b); }
	return r;
}
typedef unsigned long long ull;
bool u_start(bool up, ull s, ull e, ull i, ull c, int k, ull* is, ull* ie)
{
	__int128 a = 0, b = 0;
	__int128 inc = up ? static_cast<__int128>(i) : -static_cast<__int128>(static_cast<ull>(0) - i);
	bool r = loop_start(s, e, inc, static_cast<long>(c), k, &a, &b);
	if(r) { *is = static_cast<ull>(a); *ie = static_cast<ull>(b); }
	return r;
}
bool u_next(ull* is, ull* ie)
{
	__int128 a = 0, b = 0;
	bool r = loop_next(self(), &a, &b);
	if(r) { *is = static_cast<ull>(a); *ie = static_cast<ull>(b); }
	return r;
}
void ordered_wait(Th* me) { while(me->ws->ordered_next != me->ord_lo) { block(ORDERWAIT); } }
void ordered_pass(Th* me)		// the chunk is done: the next one may enter its ordered regions
{
	if(!me->ord_have) { return; }
	ordered_wait(me);
	me->ws->ordered_next = me->ord_hi;
	me->ord_have = false;
}
void ordered_got(Th* me, bool r, __int128 a, __int128 b) { me->ord_have = r; me->ord_lo = a; me->ord_hi = b; }
bool lo_start(long s, long e, long i, long c, int k, long* is, long* ie)
{
	__int128 a = 0, b = 0;
	Th* me = self();
	bool r = loop_start(s, e, i, c, k, &a, &b);
	if(!me->ws->ordered) { me->ws->ordered = true; me->ws->ordered_next = s; }
	ordered_got(me, r, a, b);
	if(r) { *is = static_cast<long>(a); *ie = static_cast<long>(b); }
	return r;
}
bool lo_next(long* is, long* ie)
{
	__int128 a = 0, b = 0;
	Th* me = self();
	ordered_pass(me);
	bool r = loop_next(me, &a, &b);
	ordered_got(me, r, a, b);
	if(r) { *is = static_cast<long>(a); *ie = static_cast<long>(b); }
	return r;
}
bool uo_start(bool up, ull s, ull e, ull i, ull c, int k, ull* is, ull* ie)
{
	__int128 a = 0, b = 0;
	Th* me = self();
	__int128 inc = up ? static_cast<__int128>(i) : -static_cast<__int128>(static_cast<ull>(0) - i);
	bool r = loop_start(s, e, inc, static_cast<long>(c), k, &a, &b);
	if(!me->ws->ordered) { me->ws->ordered = true; me->ws->ordered_next = s; }
	ordered_got(me, r, a, b);
	if(r) { *is = static_cast<ull>(a); *ie = static_cast<ull>(b); }
	return r;
}
bool uo_next(ull* is, ull* ie)
{
	__int128 a = 0, b = 0;
	Th* me = self();
	ordered_pass(me);
	bool r = loop_next(me, &a, &b);
	ordered_got(me, r, a, b);
	if(r) { *is = static_cast<ull>(a); *ie = static_cast<ull>(b); }
	return r;
}
Lock default_lock, atomic_lock;
std::map<void*, Lock>& locks() { static std::map<void*, Lock> m; return m; }
void lock(Lock* l)
{
	Th* me = self();
	preempt();
	while(l->held)
	{
		me->lock = l;
		block(LOCK);
	}
	l->held = true;
	l->owner = me;
}
void unlock(Lock* l) { l->held = false; preempt(); }
}

extern "C" {
void GOMP_parallel(Fn fn, void* data, unsigned n, unsigned) { parallel(fn, data, n); }
#define LOOPS(NAME, KIND) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return l_start(s, e, i, c, KIND, is, ie); } \
	bool GOMP_loop_##NAME##_next(long* is, long* ie) { return l_next(is, ie); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return u_start(up, s, e, i, c, KIND, is, ie); } \
	bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return u_next(is, ie); } \
	void GOMP_parallel_loop_##NAME(Fn fn, void* d, unsigned n, long s, long e, long i, long c, unsigned) \
	{ parallel(fn, d, n, [=](Team* t) { t->ws.emplace_back(new WorkShare()); init_loop(t->ws.back().get(), s, e, i, c, KIND); for(Th* x : t->th) { x->ws = t->ws.back().get(); x->ws_idx = 1; x->st_next = 0; x->st_done = false; } }); }
LOOPS(static, K_STATIC)
LOOPS(dynamic, K_DYNAMIC)
LOOPS(guided, K_GUIDED)
LOOPS(nonmonotonic_dynamic, K_DYNAMIC)
LOOPS(nonmonotonic_guided, K_GUIDED)
#define RLOOPS(NAME) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return l_start(s, e, i, 1, K_DYNAMIC, is, ie); } \
	bool GOMP_loop_##NAME##_next(long* is, long* ie) { return l_next(is, ie); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return u_start(up, s, e, i, 1, K_DYNAMIC, is, ie); } \
	bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return u_next(is, ie); } \
	void GOMP_parallel_loop_##NAME(Fn fn, void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
#define OLOOPS(NAME, KIND) \
	bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return lo_start(s, e, i, c, KIND, is, ie); } \
	bool GOMP_loop_ordered_##NAME##_next(long* is, long* ie) { return lo_next(is, ie); } \
	bool GOMP_loop_ull_ordered_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return uo_start(up, s, e, i, c, KIND, is, ie); } \
	bool GOMP_loop_ull_ordered_##NAME##_next(ull* is, ull* ie) { return uo_next(is, ie); }
OLOOPS(static, K_STATIC)
OLOOPS(dynamic, K_DYNAMIC)
OLOOPS(guided, K_GUIDED)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* is, long* ie) { return lo_start(s, e, i, 1, K_DYNAMIC, is, ie); }
bool GOMP_loop_ordered_runtime_next(long* is, long* ie) { return lo_next(is, ie); }
bool GOMP_loop_ull_ordered_runtime_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return uo_start(up, s, e, i, 1, K_DYNAMIC, is, ie); }
bool GOMP_loop_ull_ordered_runtime_next(ull* is, ull* ie) { return uo_next(is, ie); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_single_start()
{
	Th* me = self();
	preempt();
	WorkShare* w = next_ws(me);
	if(w->single_taken) { return false; }
	w->single_taken = true;
	return true;
}
void* GOMP_single_copy_start()
{
	Th* me = self();
	preempt();
	WorkShare* w = next_ws(me);
	me->ws = w;
	if(!w->single_taken) { w->single_taken = true; return nullptr; }
	me->copyws = w;
	while(!w->copy_ready) { block(COPYWAIT); }
	return w->copy;
}
void GOMP_single_copy_end(void* d) { Th* me = self(); me->ws->copy = d; me->ws->copy_ready = true; preempt(); }
unsigned GOMP_sections_start(unsigned count)
{
	Th* me = self();
	me->ws = next_ws(me);
	if(!me->ws->init) { me->ws->init = true; me->ws->sections = static_cast<long>(count); }
	preempt();
	return me->ws->section_next < me->ws->sections ? static_cast<unsigned>(++me->ws->section_next) : 0;
}
unsigned GOMP_sections_next()
{
	Th* me = self();
	preempt();
	return me->ws->section_next < me->ws->sections ? static_cast<unsigned>(++me->ws->section_next) : 0;
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel() { barrier(); return false; }
void GOMP_parallel_sections(Fn fn, void* d, unsigned n, unsigned count, unsigned)
{
	parallel(fn, d, n, [=](Team* t) {
		t->ws.emplace_back(new WorkShare());
		WorkShare* w = t->ws.back().get();
		w->init = true; w->sections = static_cast<long>(count);
		for(Th* x : t->th) { x->ws = w; x->ws_idx = 1; }
	});
}
void GOMP_critical_start() { lock(&default_lock); }
void GOMP_critical_end() { unlock(&default_lock); }
void GOMP_critical_name_start(void** p) { lock(&locks()[p]); }
void GOMP_critical_name_end(void** p) { unlock(&locks()[p]); }
void GOMP_atomic_start() { lock(&atomic_lock); }
void GOMP_atomic_end() { unlock(&atomic_lock); }
void GOMP_ordered_start() { Th* me = self(); preempt(); if(me->ord_have) { ordered_wait(me); } }
void GOMP_ordered_end() { preempt(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_taskwait()
{
	Th* me = self();
	Team* tm = me->team;
	preempt();
	while(me->cur->children > 0)
	{
		std::vector<size_t> mine;
		for(size_t i = 0; i != tm->queue.size(); ++i) { if(tm->queue[i]->parent == me->cur) { mine.push_back(i); } }
		if(!mine.empty())
		{
			run_task(me, take(tm, mine[sim::choose(sim::S_TASK, static_cast<uint32_t>(mine.size()))]));
			preempt();
			continue;
		}
		block(TASKWAIT);
	}
}
void GOMP_taskyield() { preempt(); }
static void spawn(Fn fn, void* data, void (*cpyfn)(void*, void*), long size, long align, bool defer, void** depend = nullptr)
{
	Th* me = self();
	Team* tm = me->team;
	tm->arena.emplace_back(new Task());
	Task* t = tm->arena.back().get();
	t->fn = fn;
	t->parent = me->cur;
	t->group = me->group;
	t->buf.resize(static_cast<size_t>(size + align));
	uintptr_t p = reinterpret_cast<uintptr_t>(t->buf.data());
	p = (p + static_cast<uintptr_t>(align) - 1) / static_cast<uintptr_t>(align) * static_cast<uintptr_t>(align);
	t->data = reinterpret_cast<void*>(p);
	if(cpyfn) { cpyfn(t->data, data); }
	else { memcpy(t->data, data, static_cast<size_t>(size)); }
	me->cur->children++;
	for(Group* x = t->group; x; x = x->outer) { x->count++; }
	tm->outstanding++;
	if(depend)
	{
		size_t n = reinterpret_cast<size_t>(depend[0]), nout = reinterpret_cast<size_t>(depend[1]), at = 2;
		if(n == 0) { n = reinterpret_cast<size_t>(depend[1]); nout = reinterpret_cast<size_t>(depend[2]) + reinterpret_cast<size_t>(depend[3]); at = 5; }
		auto after = [&](Task* x) { if(x && x != t && !x->done) { x->succ.push_back(t); t->preds++; } };
		for(size_t k = 0; k != n; ++k)
		{
			Task::Addr& a(me->cur->deps[depend[at + k]]);
			after(a.out);
			if(k < nout) { for(Task* x : a.in) { after(x); } a.in.clear(); a.out = t; }
			else { a.in.push_back(t); }
		}
		if(t->preds)
		{
			if(defer) { preempt(); return; }	// queued when what it depends on is done
			while(t->preds)
			{
				bool got = false;
				for(size_t i = 0; i != tm->queue.size(); ++i) { if(tm->queue[i]->parent == me->cur && tm->queue[i] != t) { run_task(me, take(tm, i)); got = true; break; } }
				if(!got && t->preds) { block(RUN); }
			}
			for(size_t i = 0; i != tm->queue.size(); ++i) { if(tm->queue[i] == t) { take(tm, i); break; } }
		}
	}
	if(defer && cfg.defer_tasks && tm->n > 1 && sim::choose(sim::S_TASK, 4) != 0)
	{
		tm->queue.push_back(t);
		preempt();
	}
	else
	{
		run_task(me, t);
	}
}
void GOMP_task(Fn fn, void* data, void (*cpyfn)(void*, void*), long size, long align, bool if_clause, unsigned flags, void** dep, int, void*)
{
	Th* me = self();
	preempt();
	spawn(fn, data, cpyfn, size, align ? align : 1, if_clause && !(flags & 2) && !me->cur->final_, (flags & 8) ? dep : nullptr);
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }	// stronger than the dependences ask for
void GOMP_taskgroup_start() { Th* me = self(); Group* gr = new Group{ me->group, 0 }; me->group = gr; }
void GOMP_taskgroup_end()
{
	Th* me = self();
	Team* tm = me->team;
	Group* gr = me->group;
	while(gr->count > 0)
	{
		std::vector<size_t> mine;
		for(size_t i = 0; i != tm->queue.size(); ++i)
		{
			for(Group* x = tm->queue[i]->group; x; x = x->outer) { if(x == gr) { mine.push_back(i); break; } }
		}
		if(!mine.empty()) { run_task(me, take(tm, mine[sim::choose(sim::S_TASK, static_cast<uint32_t>(mine.size()))])); continue; }
		block(GROUPWAIT);
	}
	me->group = gr->outer;
	delete gr;
}
static void taskloop(Fn fn, void* data, void (*cpyfn)(void*, void*), long size, long align, unsigned flags, unsigned long num, __int128 s, __int128 e, __int128 step, bool is_ull)
{
	if(!(flags & (1 << 11))) { GOMP_taskgroup_start(); }
	__int128 total = step > 0 ? (e - s + step - 1) / step : (e - s + step + 1) / step;
	__int128 per = 1;
	if(flags & (1 << 9)) { per = num ? static_cast<__int128>(num) : 1; }
	else if(num) { per = (total + static_cast<__int128>(num) - 1) / static_cast<__int128>(num); }
	if(per < 1) { per = 1; }
	for(__int128 i = 0; i < total; i += per)
	{
		__int128 hi = i + per < total ? i + per : total;
		std::vector<char> b(static_cast<size_t>(size + align));
		uintptr_t p = reinterpret_cast<uintptr_t>(b.data());
		p = (p + static_cast<uintptr_t>(align) - 1) / static_cast<uintptr_t>(align) * static_cast<uintptr_t>(align);
		if(cpyfn) { cpyfn(reinterpret_cast<void*>(p), data); } else { memcpy(reinterpret_cast<void*>(p), data, static_cast<size_t>(size)); }
		if(is_ull) { reinterpret_cast<ull*>(p)[0] = static_cast<ull>(s + i * step); reinterpret_cast<ull*>(p)[1] = static_cast<ull>(s + hi * step); }
		else { reinterpret_cast<long*>(p)[0] = static_cast<long>(s + i * step); reinterpret_cast<long*>(p)[1] = static_cast<long>(s + hi * step); }
		spawn(fn, reinterpret_cast<void*>(p), nullptr, size, align, true);
	}
	if(!(flags & (1 << 11))) { GOMP_taskgroup_end(); }
}
void GOMP_taskloop(Fn fn, void* d, void (*c)(void*, void*), long sz, long al, unsigned fl, unsigned long n, int, long s, long e, long st)
{ taskloop(fn, d, c, sz, al, fl, n, s, e, st, false); }
void GOMP_taskloop_ull(Fn fn, void* d, void (*c)(void*, void*), long sz, long al, unsigned fl, unsigned long n, int, ull s, ull e, ull st)
{ taskloop(fn, d, c, sz, al, fl, n, s, e, (fl & (1 << 8)) ? static_cast<__int128>(st) : -static_cast<__int128>(static_cast<ull>(0) - st), true); }

int omp_get_num_threads() { return self()->team->n; }
int omp_get_thread_num() { return self()->tid; }
int omp_get_max_threads() { return default_threads(); }
int omp_get_num_procs() { return cfg.threads; }
int omp_get_thread_limit() { return cfg.limit ? cfg.limit : 128; }
void omp_set_num_threads(int n) { default_threads_override = n; }
int omp_in_parallel() { return active != nullptr && self()->team == active; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return cfg.vary; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return self()->level; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_team_size(int l) { return l == 0 ? 1 : self()->team->n; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : self()->tid; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
int omp_in_final() { return 0; }
double omp_get_wtime() { return clock_now(); }
double omp_get_wtick() { return 1e-9; }
// the other clocks and the entropy of the simulated program (weak: the player's simulator brings its own clock)
__attribute__((weak)) int clock_gettime(clockid_t id, struct timespec* ts)
{
	if(!program || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_REALTIME_COARSE && id != CLOCK_BOOTTIME && id != CLOCK_MONOTONIC_RAW))
	{
		return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
	}
	double t = clock_now() + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 1.6e9 : 3e6);
	if(t < 0) { t = 0; }
	ts->tv_sec = static_cast<time_t>(t);
	ts->tv_nsec = static_cast<long>((t - static_cast<double>(ts->tv_sec)) * 1e9);
	return 0;
}
__attribute__((weak)) int gettimeofday(struct timeval* tv, void*)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
__attribute__((weak)) time_t time(time_t* t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if(t) { *t = ts.tv_sec; }
	return ts.tv_sec;
}
ssize_t getrandom(void* p, size_t n, unsigned flags)
{
	if(!program) { return syscall(SYS_getrandom, p, n, flags); }
	fill_entropy(p, n);
	return static_cast<ssize_t>(n);
}
int getentropy(void* p, size_t n)
{
	if(!program) { return syscall(SYS_getrandom, p, n, 0) == static_cast<long>(n) ? 0 : -1; }
	fill_entropy(p, n);
	return 0;
}
void omp_init_lock(void* l) { locks()[l] = Lock(); }
void omp_destroy_lock(void* l) { locks().erase(l); }
void omp_set_lock(void* l) { lock(&locks()[l]); }
void omp_unset_lock(void* l) { unlock(&locks()[l]); }
int omp_test_lock(void* l) { Lock& k(locks()[l]); if(k.held) { return 0; } k.held = true; k.owner = self(); return 1; }
void omp_init_nest_lock(void* l) { locks()[l] = Lock(); }
void omp_destroy_nest_lock(void* l) { locks().erase(l); }
void omp_set_nest_lock(void* l) { Lock& k(locks()[l]); if(k.held && k.owner == self()) { k.depth++; return; } lock(&k); k.depth = 1; }
void omp_unset_nest_lock(void* l) { Lock& k(locks()[l]); if(--k.depth == 0) { unlock(&k); } }

// ---- ThreadSanitizer instrumentation ABI: the accesses of instrumented code are scheduling points -------------------
#define PC __builtin_return_address(0)
#define RW(N) \
	void __tsan_read##N(void* a) { access(a, false, PC); } \
	void __tsan_write##N(void* a) { access(a, true, PC); } \
	void __tsan_volatile_read##N(void* a) { access(a, false, PC); } \
	void __tsan_volatile_write##N(void* a) { access(a, true, PC); } \
	void __tsan_unaligned_read##N(void* a) { access(a, false, PC); } \
	void __tsan_unaligned_write##N(void* a) { access(a, true, PC); } \
	void __tsan_unaligned_volatile_read##N(void* a) { access(a, false, PC); } \
	void __tsan_unaligned_volatile_write##N(void* a) { access(a, true, PC); } \
	void __tsan_read_write##N(void* a) { access(a, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { access(a, false, PC); }
void __tsan_write_range(void* a, unsigned long) { access(a, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, true, PC); }
void __tsan_vptr_read(void** a) { access(a, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
#define ATOMICS(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int) { access(const_cast<const T*>(a), false, PC); return *a; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = static_cast<T>(o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = static_cast<T>(o - v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = static_cast<T>(o & v); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = static_cast<T>(o | v); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = static_cast<T>(o ^ v); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { access(const_cast<const T*>(a), true, PC); T o = *a; *a = static_cast<T>(~(o & v)); return o; } \
	bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access(const_cast<const T*>(a), true, PC); if(*a == *c) { *a = v; return true; } *c = *a; return false; } \
	bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access(const_cast<const T*>(a), true, PC); if(*a == *c) { *a = v; return true; } *c = *a; return false; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access(const_cast<const T*>(a), true, PC); T o = *a; if(o == c) { *a = v; } return o; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
__extension__ typedef unsigned __int128 u128;
ATOMICS(128, u128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
