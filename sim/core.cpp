#include "core.h"
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <dirent.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <time.h>
#include <set>
#include <map>
#include <algorithm>
#include <QJsonDocument>
#include <QJsonObject>
#include <QJsonArray>
#include <QByteArray>
#include <QFile>

namespace sim {
Shared* g = nullptr;
const char* const stream_names[S_COUNT] = { "work", "fault", "sched", "crash", "task", "cl", "ui", "clock", "misc" };

uint64_t raw_rand(uint64_t& x)
{
	x += 0x9E3779B97F4A7C15ull;
	uint64_t z = x;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t s = a ^ (b * 0xD6E8FEB86659FD93ull + 0x9E3779B97F4A7C15ull);
	return raw_rand(s);
}
static uint32_t record(StreamState& st, uint32_t v)
{
	if(st.n < kMaxChoices) { st.rec[st.n] = v; }
	st.n++;
	return v;
}
static bool next_replay(StreamState& st, uint32_t& v)
{
	v = (st.n < st.rep_n && st.n < kMaxChoices) ? st.rep[st.n] : 0;
	return true;
}
uint32_t choose(Stream s, uint32_t n)
{
	if(n <= 1) { return 0; }
	StreamState& st(g->st[s]);
	uint32_t v = 0;
	if(g->replay) { next_replay(st, v); v = v % n; }
	else if(st.n < kMaxChoices) { v = static_cast<uint32_t>(raw_rand(st.rng) % n); }
	return record(st, v);
}
bool chance(Stream s, double p)
{
	StreamState& st(g->st[s]);
	uint32_t v = 0;
	if(g->replay) { next_replay(st, v); v = v ? 1 : 0; }
	else if(st.n < kMaxChoices)
	{
		v = (static_cast<double>(raw_rand(st.rng) >> 11) / 9007199254740992.0) < p ? 1 : 0;
	}
	return record(st, v) != 0;
}
void hash_bytes(const void* p, size_t n)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	uint64_t h = g->hash;
	for(size_t i = 0; i != n; ++i) { h = (h ^ c[i]) * 1099511628211ull; }
	g->hash = h;
}
static void put_trace(const char* s, size_t n)
{
	if(!g->tracing || g->trace_len + n + 1 >= kTraceCap) { return; }
	memcpy(g->trace + g->trace_len, s, n);
	g->trace_len += n;
	g->trace[g->trace_len++] = '\n';
}
void event(const char* fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if(n > static_cast<int>(sizeof(b)) - 1) { n = sizeof(b) - 1; }
	hash_bytes(b, static_cast<size_t>(n));
	g->events++;
	put_trace(b, static_cast<size_t>(n));
}
void note(const char* fmt, ...)
{
	if(!g || !g->tracing) { return; }
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if(n > static_cast<int>(sizeof(b)) - 1) { n = sizeof(b) - 1; }
	put_trace(b, static_cast<size_t>(n));
}
void sig(uint64_t v) { g->sched_sig = mix(g->sched_sig, v); }
void count(const char* name, uint64_t n)
{
	for(int i = 0; i != g->ncounters; ++i)
	{
		if(0 == strcmp(g->counters[i].name, name)) { g->counters[i].value += n; return; }
	}
	if(g->ncounters == kMaxCounters) { return; }
	Counter& c(g->counters[g->ncounters++]);
	strncpy(c.name, name, sizeof(c.name) - 1);
	c.value = n;
}
void fail(const char* cls, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if(!g->violated)
	{
		strncpy(g->cls, cls, sizeof(g->cls) - 1);
		vsnprintf(g->msg, sizeof(g->msg), fmt, ap);
		g->violated = 1;
		hash_bytes(g->cls, strlen(g->cls));
		hash_bytes(g->msg, strlen(g->msg));
		note("VIOLATION [%s] %s", g->cls, g->msg);
	}
	va_end(ap);
	_exit(20);
}
void skip() { g->skipped = 1; _exit(21); }
bool thorough() { return g->thorough != 0; }

static bool hung(int sg) { return sg == SIGALRM || sg == SIGXCPU; }
ProcResult process(const std::function<int()>& body, unsigned timeout_s)
{
	fflush(nullptr);
	pid_t p = fork();
	if(p < 0) { fail("harness-fork", "fork failed: %s", strerror(errno)); }
	if(p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		alarm(timeout_s);		// for a process that waits for ever; one that computes for ever runs into the limit of processor time it inherits
		int rc = 250;
		rc = body();
		// a simulated process ends by exit(): destructors of statics are not part of the system under test
		_exit(rc & 0xff);
	}
	int st = 0;
	while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if(g->violated || g->skipped) { _exit(20); }
	if(WIFSIGNALED(st) && hung(WTERMSIG(st))) { fail("hang", "a process of the run does not end"); }
	ProcResult r;
	r.exited = WIFEXITED(st);
	r.code = r.exited ? WEXITSTATUS(st) : -1;
	r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	r.killed = r.exited && r.code == kKilledExit;
	return r;
}
} // namespace sim

using namespace sim;

namespace {
std::string g_scratch;
const Property* find_prop(const char* id)
{
	for(size_t i = 0; i != property_count; ++i) { if(0 == strcmp(properties[i].id, id)) { return &properties[i]; } }
	fprintf(stderr, "unknown property %s\n", id);
	exit(3);
}
int rm_cb(const char* p, const struct stat*, int, struct FTW* f) { if(f->level > 0) { remove(p); } return 0; }
int rm_all_cb(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
void wipe() { nftw(g_scratch.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

struct Choices { std::vector<uint32_t> v[S_COUNT]; };
struct Result {
	bool violated = false, skipped = false;
	std::string cls, msg, trace;
	uint64_t hash = 0, events = 0, sig = 0;
	double sim_time = 0;
	Choices rec;
	std::vector<std::pair<std::string, uint64_t>> counters;
};
unsigned g_run_timeout = 20;		// seconds of processor time

void reset_shared(uint64_t seed, bool tracing, bool thorough, const Choices* rep)
{
	// only headers need clearing; the large arrays are guarded by counts
	g->seed = seed; g->replay = rep != nullptr; g->tracing = tracing; g->thorough = thorough;
	g->hash = 1469598103934665603ull; g->events = 0; g->sched_sig = 0; g->sim_time = 0;
	g->violated = g->done = g->skipped = 0;
	memset(g->cls, 0, sizeof(g->cls)); memset(g->msg, 0, sizeof(g->msg));
	memset(g->counters, 0, sizeof(Counter) * static_cast<size_t>(g->ncounters)); g->ncounters = 0;
	g->trace_len = 0;
	memset(g->user, 0, sizeof(g->user));
	for(int s = 0; s != S_COUNT; ++s)
	{
		StreamState& st(g->st[s]);
		st.n = 0; st.rep_n = 0;
		st.rng = mix(seed, static_cast<uint64_t>(s) + 1);
		if(rep)
		{
			st.rep_n = static_cast<uint32_t>(std::min<size_t>(rep->v[s].size(), kMaxChoices));
			std::copy(rep->v[s].begin(), rep->v[s].begin() + st.rep_n, st.rep);
		}
	}
}

Result execute(const Property* p, uint64_t seed, bool tracing, bool thorough, const Choices* rep, bool want_choices)
{
	reset_shared(seed, tracing, thorough, rep);
	wipe();
	fflush(nullptr);
	pid_t c = fork();
	if(c == 0)
	{
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		// a limit of processor time, so that a busy machine does not look like a hang; the wall clock only ends what waits for ever
		struct rlimit cpu = { g_run_timeout, g_run_timeout + 1 };
		setrlimit(RLIMIT_CPU, &cpu);
		alarm(std::min(15 * g_run_timeout, 300u));
		run_setup();
		p->run();
		g->done = 1;
		_exit(0);
	}
	int st = 0;
	while(waitpid(c, &st, 0) < 0 && errno == EINTR) {}
	kill(-c, SIGKILL);
	Result r;
	r.skipped = g->skipped;
	if(!g->violated && !g->skipped && !g->done)
	{
		g->violated = 1;
		if(WIFSIGNALED(st))
		{
			int sg = WTERMSIG(st);
			snprintf(g->cls, sizeof(g->cls), hung(sg) ? "hang" : "crash");
			snprintf(g->msg, sizeof(g->msg), hung(sg) ? "the run does not end" : "the process under test died of signal %d (%s)", sg, strsignal(sg));
		}
		else
		{
			snprintf(g->cls, sizeof(g->cls), "unexpected-exit");
			snprintf(g->msg, sizeof(g->msg), "the process under test ended with status %d before the run was over", WEXITSTATUS(st));
		}
		hash_bytes(g->cls, strlen(g->cls));
	}
	r.violated = g->violated; r.cls = g->cls; r.msg = g->msg;
	r.hash = g->hash; r.events = g->events; r.sig = g->sched_sig; r.sim_time = g->sim_time;
	if(tracing) { r.trace.assign(g->trace, g->trace_len); }
	for(int i = 0; i != g->ncounters; ++i) { r.counters.push_back(std::make_pair(std::string(g->counters[i].name), g->counters[i].value)); }
	if(want_choices)
	{
		for(int s = 0; s != S_COUNT; ++s)
		{
			StreamState& ss(g->st[s]);
			r.rec.v[s].assign(ss.rec, ss.rec + std::min(ss.n, kMaxChoices));
		}
	}
	return r;
}

uint64_t run_seed(uint64_t base, const char* prop, uint64_t index)
{
	uint64_t h = base;
	for(const char* c = prop; *c; ++c) { h = mix(h, static_cast<unsigned char>(*c)); }
	return mix(h, index);
}
double now_s()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

QJsonObject result_json(const Result& r, bool choices)
{
	QJsonObject o;
	o["violated"] = r.violated; o["class"] = QString::fromStdString(r.cls); o["message"] = QString::fromStdString(r.msg);
	o["hash"] = QString::number(r.hash, 16); o["events"] = static_cast<double>(r.events); o["skipped"] = r.skipped;
	QJsonObject c;
	for(const auto& k : r.counters) { c[QString::fromStdString(k.first)] = static_cast<double>(k.second); }
	o["counters"] = c;
	if(choices)
	{
		QJsonObject ch;
		for(int s = 0; s != S_COUNT; ++s)
		{
			if(r.rec.v[s].empty()) { continue; }
			QJsonArray a;
			size_t last = r.rec.v[s].size();
			while(last && r.rec.v[s][last - 1] == 0) { --last; }
			for(size_t i = 0; i != last; ++i) { a.append(static_cast<double>(r.rec.v[s][i])); }
			ch[stream_names[s]] = a;
		}
		o["choices"] = ch;
	}
	return o;
}

int do_explore(const Property* p, uint64_t base, uint64_t start, uint64_t stride, uint64_t runs, double tlimit, bool thorough,
			   const char* out, int selfcheck)
{
	double t0 = now_s();
	uint64_t done = 0, skipped = 0, mismatches = 0, selfchecked = 0, events = 0, slow = 0, slowest_seed = 0;
	double slowest = 0;
	double sim_time = 0;
	std::set<uint64_t> sigs, hashes;
	std::map<std::string, uint64_t> counters, runs_with;
	QJsonArray viol, samples;
	for(uint64_t i = start; i < runs; i += stride)
	{
		if(now_s() - t0 > tlimit) { break; }
		uint64_t seed = run_seed(base, p->id, i);
		bool check = selfcheck > 0 && (done % static_cast<uint64_t>(selfcheck)) == 0;
		const double t1 = now_s();
		Result r = execute(p, seed, false, thorough, nullptr, false);
		if(r.violated && r.cls == "hang")
		{
			// slow or endless? only what does not end in five times the time either counts
			g_run_timeout *= 5;
			r = execute(p, seed, false, thorough, nullptr, false);
			g_run_timeout /= 5;
			++slow;
		}
		++done;
		if(now_s() - t1 > slowest) { slowest = now_s() - t1; slowest_seed = seed; }
		if(r.skipped) { ++skipped; continue; }
		if(samples.size() < 1)
		{
			Result t = execute(p, seed, true, thorough, nullptr, false);
			QJsonObject so;
			so["run_seed"] = QString::number(seed);
			so["hash"] = QString::number(t.hash, 16);
			QStringList l(QString::fromStdString(t.trace).split('\n', Qt::SkipEmptyParts));
			QJsonArray ta;
			for(int k = 0; k < l.size() && k < 14; ++k) { ta.append(l[k].left(220)); }
			if(l.size() > 14) { ta.append(QString("... %1 more events").arg(l.size() - 14)); }
			so["trace"] = ta;
			samples.append(so);
		}
		if(check && !r.violated)
		{
			Result r2 = execute(p, seed, false, thorough, nullptr, false);
			++selfchecked;
			if(r2.hash != r.hash || r2.violated != r.violated) { ++mismatches; fprintf(stderr, "nondeterministic run: %s seed %llu\n", p->id, static_cast<unsigned long long>(seed)); }
		}
		events += r.events;
		sim_time += r.sim_time;
		sigs.insert(r.sig);
		hashes.insert(r.hash);
		for(const auto& k : r.counters) { counters[k.first] += k.second; runs_with[k.first] += 1; }
		if(r.violated)
		{
			QJsonObject o(result_json(r, false));
			o["seed"] = QString::number(seed);
			o["index"] = static_cast<double>(i);
			viol.append(o);
			if(viol.size() >= 3 || r.cls == "hang") { break; }
		}
	}
	QJsonObject o;
	o["runs"] = static_cast<double>(done); o["skipped"] = static_cast<double>(skipped); o["wall_s"] = now_s() - t0;
	o["events"] = static_cast<double>(events); o["sim_time"] = sim_time;
	o["slow_runs_repeated"] = static_cast<double>(slow); o["slowest_run_s"] = slowest; o["slowest_run_seed"] = QString::number(slowest_seed);
	o["selfchecked"] = static_cast<double>(selfchecked); o["mismatches"] = static_cast<double>(mismatches);
	QJsonObject c, rw;
	for(const auto& k : counters) { c[QString::fromStdString(k.first)] = static_cast<double>(k.second); }
	for(const auto& k : runs_with) { rw[QString::fromStdString(k.first)] = static_cast<double>(k.second); }
	o["counters"] = c; o["runs_with"] = rw; o["violations"] = viol; o["samples"] = samples;
	QJsonArray sg, hs;
	for(uint64_t v : sigs) { sg.append(QString::number(v, 36)); }
	for(uint64_t v : hashes) { hs.append(QString::number(v, 36)); }
	o["sigs"] = sg; o["hashes"] = hs;
	QFile f(out);
	if(!f.open(QFile::WriteOnly)) { return 3; }
	f.write(QJsonDocument(o).toJson(QJsonDocument::Compact));
	f.close();
	return 0;
}

void write_replay(const char* out, const Property* p, uint64_t seed, bool thorough, const Result& r, size_t attempts, size_t before, size_t after)
{
	QJsonObject o(result_json(r, true));
	o["property"] = p->id;
	o["run_seed"] = QString::number(seed);
	o["thorough"] = thorough;
	o["shrink_attempts"] = static_cast<double>(attempts);
	o["nonzero_choices_before"] = static_cast<double>(before);
	o["nonzero_choices_after"] = static_cast<double>(after);
	QJsonArray t;
	for(const QString& l : QString::fromStdString(r.trace).split('\n')) { if(!l.isEmpty()) { t.append(l); } }
	if(t.size() > 4000) { while(t.size() > 4000) { t.removeFirst(); } }
	o["trace"] = t;
	QFile f(out);
	if(f.open(QFile::WriteOnly)) { f.write(QJsonDocument(o).toJson(QJsonDocument::Indented)); }
}
size_t nonzero(const Choices& c)
{
	size_t n = 0;
	for(int s = 0; s != S_COUNT; ++s) { for(uint32_t v : c.v[s]) { n += v != 0; } }
	return n;
}

int do_shrink(const Property* p, uint64_t seed, bool thorough, const char* out, double tlimit)
{
	double t0 = now_s();
	Result a = execute(p, seed, false, thorough, nullptr, true);
	Result b = execute(p, seed, false, thorough, nullptr, true);
	if(!a.violated || !b.violated || a.hash != b.hash || a.cls != b.cls)
	{
		fprintf(stderr, "violation of seed %llu does not repeat (%d %d %s %s %llx %llx)\n", static_cast<unsigned long long>(seed), a.violated, b.violated,
				a.cls.c_str(), b.cls.c_str(), static_cast<unsigned long long>(a.hash), static_cast<unsigned long long>(b.hash));
		return 4;
	}
	std::string cls = a.cls;
	Choices best = a.rec;
	size_t attempts = 0, before = nonzero(best);
	auto works = [&](const Choices& c) -> bool {
		if(now_s() - t0 > tlimit) { return false; }
		++attempts;
		Result r = execute(p, seed, false, thorough, &c, true);
		if(r.violated && r.cls == cls) { best = r.rec; return true; }
		return false;
	};
	auto cost = [&](const Choices& c) { uint64_t n = 0; for(int s = 0; s != S_COUNT; ++s) { n += c.v[s].size(); for(uint32_t v : c.v[s]) { n += v; } } return n; };
	// hangs are expensive to repeat: keep the budget small
	bool progress = cls != "hang";
	while(progress && now_s() - t0 < tlimit)
	{
		uint64_t c0 = cost(best);
		for(int s = S_COUNT - 1; s >= 0; --s)
		{
			{ Choices c = best; c.v[s].clear(); if(!best.v[s].empty() && works(c)) { continue; } }
			for(size_t chunk = std::max<size_t>(1, best.v[s].size() / 2); chunk >= 1; chunk /= 2)
			{
				for(size_t i = 0; i < best.v[s].size() && now_s() - t0 < tlimit;)
				{
					size_t e = std::min(best.v[s].size(), i + chunk);
					bool allzero = true;
					for(size_t k = i; k < e; ++k) { allzero = allzero && best.v[s][k] == 0; }
					Choices c = best;
					if(!allzero)
					{
						std::fill(c.v[s].begin() + static_cast<long>(i), c.v[s].begin() + static_cast<long>(e), 0u);
						if(works(c)) { i += chunk; continue; }
					}
					c = best;
					e = std::min(best.v[s].size(), i + chunk);
					c.v[s].erase(c.v[s].begin() + static_cast<long>(i), c.v[s].begin() + static_cast<long>(e));
					uint64_t cc = cost(best);
					Choices keep = best;
					if(works(c)) { if(cost(best) >= cc) { best = keep; i += chunk; } continue; }
					i += chunk;
				}
				if(chunk == 1) { break; }
			}
			for(size_t i = 0; i < best.v[s].size() && now_s() - t0 < tlimit; ++i)
			{
				while(i < best.v[s].size() && best.v[s][i] > 1)
				{
					Choices c = best;
					c.v[s][i] /= 2;
					if(!works(c)) { break; }
				}
			}
		}
		progress = cost(best) < c0;
	}
	Result f = execute(p, seed, true, thorough, &best, true);
	if(!f.violated || f.cls != cls)
	{
		fprintf(stderr, "minimised run does not repeat\n");
		best = a.rec;
		f = execute(p, seed, true, thorough, &best, true);
		if(!f.violated || f.cls != cls) { return 4; }
	}
	write_replay(out, p, seed, thorough, f, attempts, before, nonzero(best));
	printf("shrunk %s: class=%s attempts=%zu nonzero choices %zu -> %zu\n", p->id, cls.c_str(), attempts, before, nonzero(best));
	return 0;
}

int do_replay(const char* file, bool verbose)
{
	QFile f(file);
	if(!f.open(QFile::ReadOnly)) { fprintf(stderr, "can't open %s\n", file); return 3; }
	QJsonObject o(QJsonDocument::fromJson(f.readAll()).object());
	const Property* p = find_prop(o["property"].toString().toLatin1().constData());
	Choices c;
	QJsonObject ch(o["choices"].toObject());
	for(int s = 0; s != S_COUNT; ++s)
	{
		for(const QJsonValue& v : ch[stream_names[s]].toArray()) { c.v[s].push_back(static_cast<uint32_t>(v.toDouble())); }
	}
	Result r = execute(p, o["run_seed"].toString().toULongLong(), true, o["thorough"].toBool(), &c, false);
	if(verbose) { printf("%s\n", r.trace.c_str()); }
	bool same = r.violated && QString::fromStdString(r.cls) == o["class"].toString();
	bool exact = QString::number(r.hash, 16) == o["hash"].toString();
	printf("replay property=%s violated=%d class=%s same_class=%d exact=%d message=%s\n", p->id, r.violated, r.cls.c_str(), same, exact, r.msg.c_str());
	return r.violated ? (same && exact ? 1 : 5) : 0;
}
}

namespace sim { __attribute__((weak)) void worker_setup() {} }
int main(int argc, char** argv)
{
	// addresses must not vary between processes: they may reach data structures ordered by pointer
	int pers = personality(0xffffffff);
	if(pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("NBSIM_REEXEC"))
	{
		setenv("NBSIM_REEXEC", "1", 1);
		if(personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); }
	}
	// a fixed environment
	setenv("LC_ALL", "C.UTF-8", 1);
	setenv("QT_QPA_PLATFORM", "offscreen", 1);
	setenv("QT_LOGGING_RULES", "", 1);
	setenv("XDG_RUNTIME_DIR", "/nonexistent", 1);
	struct rlimit core = { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);

	std::map<std::string, std::string> a;
	std::string mode = argc > 1 ? argv[1] : "";
	for(int i = 2; i + 1 < argc; i += 2) { a[argv[i]] = argv[i + 1]; }
	if(a.count("--timeout")) { g_run_timeout = static_cast<unsigned>(atoi(a["--timeout"].c_str())); }

	g = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if(g == MAP_FAILED) { perror("mmap"); return 3; }

	worker_setup();
	std::string absfile, absout;
	char cwd[4096];
	if(!getcwd(cwd, sizeof(cwd))) { return 3; }
	auto absolute = [&](const std::string& f) { return f.empty() || f[0] == '/' ? f : std::string(cwd) + "/" + f; };
	absfile = absolute(a["--file"]);
	absout = absolute(a["--out"]);

	const char* bases[] = { getenv("NBSIM_SCRATCH"), "/dev/shm", "/tmp" };
	for(const char* b : bases)
	{
		if(!b) { continue; }
		std::string t = std::string(b) + "/nbsim.XXXXXX";
		std::vector<char> buf(t.begin(), t.end());
		buf.push_back(0);
		if(mkdtemp(buf.data())) { g_scratch = buf.data(); break; }
	}
	if(g_scratch.empty() || chdir(g_scratch.c_str()) != 0) { perror("scratch"); return 3; }

	int rc = 3;
	uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
	bool thorough = a["--tier"] == "thorough";
	if(mode == "explore")
	{
		rc = do_explore(find_prop(a["--prop"].c_str()), base, strtoull(a["--start"].c_str(), nullptr, 10), strtoull(a["--stride"].c_str(), nullptr, 10),
						strtoull(a["--runs"].c_str(), nullptr, 10), atof(a["--time"].c_str()), thorough, absout.c_str(),
						a.count("--selfcheck") ? atoi(a["--selfcheck"].c_str()) : 0);
	}
	else if(mode == "shrink")
	{
		rc = do_shrink(find_prop(a["--prop"].c_str()), strtoull(a["--runseed"].c_str(), nullptr, 10), thorough, absout.c_str(), atof(a["--time"].c_str()));
	}
	else if(mode == "replay")
	{
		rc = do_replay(absfile.c_str(), a["--verbose"] == "1");
	}
	else if(mode == "one")
	{
		uint64_t s = a.count("--runseed") ? strtoull(a["--runseed"].c_str(), nullptr, 10) : run_seed(base, a["--prop"].c_str(), strtoull(a["--index"].c_str(), nullptr, 10));
		Result r = execute(find_prop(a["--prop"].c_str()), s, true, thorough, nullptr, true);
		printf("%s\nseed=%llu hash=%llx violated=%d skipped=%d class=%s msg=%s events=%llu\n", r.trace.c_str(), static_cast<unsigned long long>(s),
			   static_cast<unsigned long long>(r.hash), r.violated, r.skipped, r.cls.c_str(), r.msg.c_str(), static_cast<unsigned long long>(r.events));
		for(const auto& k : r.counters) { printf("  %s = %llu\n", k.first.c_str(), static_cast<unsigned long long>(k.second)); }
		for(int k = 0; k != S_COUNT; ++k) { printf("  choices[%s] = %zu\n", stream_names[k], r.rec.v[k].size()); }
		rc = r.violated ? 1 : 0;
	}
	else if(mode == "info")
	{
		QJsonObject o;
		for(size_t i = 0; i != property_count; ++i)
		{
			QJsonObject q;
			q["fault_kinds"] = properties[i].fault_kinds; q["real"] = properties[i].real; q["stub"] = properties[i].stub; q["rule"] = properties[i].rule;
			o[properties[i].id] = q;
		}
		printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData());
		rc = 0;
	}
	if(chdir("/") == 0) { nftw(g_scratch.c_str(), rm_all_cb, 16, FTW_DEPTH | FTW_PHYS); }
	return rc;
}
