#include "simqt.h"
#include "core.h"
#include <deque>
#include <dlfcn.h>
#include <functional>
#include <memory>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#include <QFutureInterface>
#include <QRunnable>
#include <QThread>
#include <QThreadPool>

using namespace sim;

namespace simqt {
Cfg cfg;
Stats st;
namespace {
struct Task {
	QRunnable* r;
	int priority;
	uint64_t id;
	bool begun = false, done = false;
	ucontext_t ctx;
	std::vector<char> stack;
};
std::vector<std::unique_ptr<Task>> running;		// has a thread of the pool
std::deque<std::unique_ptr<Task>> waiting;
ucontext_t main_ctx;
Task* cur = nullptr;
Task* last = nullptr;
double clock_s = 1000;
uint64_t idle_points = 0;

void entry()
{
	Task* t = cur;
	QRunnable* r = t->r;
	bool del = r->autoDelete();
	r->run();
	if(del) { delete r; }
	t->done = true;
	++st.finished;
	event("task %llu done", static_cast<unsigned long long>(t->id));
	swapcontext(&t->ctx, &main_ctx);
	abort();
}
void fill()
{
	while(running.size() < static_cast<size_t>(cfg.threads) && !waiting.empty())
	{
		running.push_back(std::move(waiting.front()));
		waiting.pop_front();
	}
}
// runs one task until it gives the processor back
bool quantum(size_t pick)
{
	Task* t = running[pick].get();
	if(t != last) { ++st.switches; sig(mix(t->id + 1, st.switches)); }
	last = t;
	cur = t;
	if(!t->begun)
	{
		t->begun = true;
		t->stack.resize(512 * 1024);
		getcontext(&t->ctx);
		t->ctx.uc_stack.ss_sp = t->stack.data();
		t->ctx.uc_stack.ss_size = t->stack.size();
		t->ctx.uc_link = nullptr;
		makecontext(&t->ctx, entry, 0);
		event("task %llu begins", static_cast<unsigned long long>(t->id));
	}
	swapcontext(&main_ctx, &t->ctx);
	cur = nullptr;
	if(t->done) { running.erase(running.begin() + static_cast<long>(pick)); fill(); }
	return true;
}
}
void reset()
{
	cfg = Cfg();
	st = Stats();
	running.clear();
	waiting.clear();
	clock_s = 1000;
}
size_t pending() { return running.size() + waiting.size(); }
bool in_task() { return cur != nullptr; }
double now() { return clock_s; }
void advance(double s) { clock_s += s; g->sim_time += s; }
void point()
{
	if(cur)
	{
		if(choose(S_TASK, 3) == 0) { return; }
		swapcontext(&cur->ctx, &main_ctx);
		return;
	}
	uint32_t k = choose(S_TASK, static_cast<uint32_t>(cfg.lazy));
	k = k + 1 == static_cast<uint32_t>(cfg.lazy) ? 1 + choose(S_TASK, 6) : 0;
	if(!k && ++idle_points > 40) { k = 1; }		// fairness: a waiting caller does not keep the processor for ever
	for(; k && !running.empty(); --k) { idle_points = 0; quantum(choose(S_TASK, static_cast<uint32_t>(running.size()))); }
}
void drain()
{
	if(cur) { fail("harness", "a task waits for other tasks"); }
	while(!running.empty()) { quantum(choose(S_TASK, static_cast<uint32_t>(running.size()))); }
}
static void add(QRunnable* r, int priority)
{
	std::unique_ptr<Task> t(new Task);
	t->r = r;
	t->priority = priority;
	t->id = st.started++;
	event("task %llu started", static_cast<unsigned long long>(t->id));
	auto at = waiting.end();
	while(at != waiting.begin() && (*(at - 1))->priority < priority) { --at; }
	waiting.insert(at, std::move(t));
	fill();
	point();
}
template<class F> static F original(const char* name)
{
	void* p = dlsym(RTLD_NEXT, name);
	if(!p) { fail("harness", "no symbol %s", name); }
	return reinterpret_cast<F>(p);
}
static bool finished(const QFutureInterfaceBase* f)
{
	static auto real = original<bool (*)(const QFutureInterfaceBase*)>("_ZNK20QFutureInterfaceBase10isFinishedEv");
	return real(f);
}
static void wait_until(const std::function<bool()>& done)
{
	while(!done())
	{
		if(running.empty()) { fail("hang", "waits for a result although no task is left"); }
		if(cur) { swapcontext(&cur->ctx, &main_ctx); continue; }
		quantum(choose(S_TASK, static_cast<uint32_t>(running.size())));
	}
}
static void polled()
{
	if(!cfg.on) { return; }
	++st.polls;
	static uint64_t empty = 0;
	if(running.empty() && !cur) { if(++empty > 100000) { fail("hang", "polls for results although no task is left"); } }
	else { empty = 0; }
	point();
}
}

// ------------------------------------------------------------------------------------------------ Qt
using namespace simqt;
namespace {
struct Fun : QRunnable { std::function<void()> f; void run() override { f(); } };
}
void QThreadPool::start(QRunnable* r, int priority) { add(r, priority); }
void QThreadPool::start(std::function<void()> f, int priority) { Fun* r = new Fun; r->f = std::move(f); add(r, priority); }
bool QThreadPool::tryStart(QRunnable* r)
{
	if(running.size() >= static_cast<size_t>(cfg.threads)) { return false; }
	add(r, 0);
	return true;
}
bool QThreadPool::waitForDone(int) { wait_until([] { return pending() == 0; }); return true; }
int QThreadPool::maxThreadCount() const { return cfg.threads; }
int QThreadPool::activeThreadCount() const { return static_cast<int>(running.size()); }
int QThread::idealThreadCount() noexcept { return cfg.threads; }
void QThread::yieldCurrentThread() { polled(); }
void QThread::msleep(unsigned long ms) { advance(static_cast<double>(ms) * 1e-3); polled(); }
void QThread::usleep(unsigned long us) { advance(static_cast<double>(us) * 1e-6); polled(); }
void QThread::sleep(unsigned long s) { advance(static_cast<double>(s)); polled(); }
bool QFutureInterfaceBase::isFinished() const { polled(); return finished(this); }
bool QFutureInterfaceBase::isRunning() const
{
	static auto real = original<bool (*)(const QFutureInterfaceBase*)>("_ZNK20QFutureInterfaceBase9isRunningEv");
	polled();
	return real(this);
}
void QFutureInterfaceBase::waitForFinished() { polled(); wait_until([this] { return finished(this); }); }
void QFutureInterfaceBase::waitForResult(int) { polled(); wait_until([this] { return finished(this); }); }

// the simulated clock
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	if(!cfg.on || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_REALTIME_COARSE)) { return static_cast<int>(syscall(SYS_clock_gettime, id, ts)); }
	double t = simqt::now() + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 1.6e9 : 0);
	ts->tv_sec = static_cast<time_t>(t);
	ts->tv_nsec = static_cast<long>((t - static_cast<double>(ts->tv_sec)) * 1e9);
	return 0;
}
