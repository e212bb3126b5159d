// Storage properties C01..C08: the recorder, the reader and the simulation program against a simulated disk.
#include "world.h"
#include "disk.h"
#include "simomp.h"
#include "prog.h"
#include "alloc.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <sys/resource.h>
#include <QByteArray>
#include <QString>
#include <QCoreApplication>

using namespace sim;
using world::Frame;
using namespace prog;

namespace {

// ------------------------------------------------------------------------------------------------ a recording and its oracle
struct Spec {				// what is recorded
	size_t nb = 1;
	double box = 10;
	uint64_t salt = 1;		// masses and colours
	uint64_t step0 = 0;
	double dt = 1.0 / 64;
	bool wild = false;
	qint64 part = 0;
	Frame frame(uint32_t id) const { return world::make_frame(id, nb, step0 + id, dt * id, wild); }
	qint64 bytes() const { return static_cast<qint64>(nb * 48); }
};
struct Attempt { uint32_t id; uint32_t acked; };
struct Log { uint32_t n; uint32_t opened; Attempt a[4096]; };
Log* log_() { return reinterpret_cast<Log*>(g->user); }
void log_begin(uint32_t id) { Log* l = log_(); if(l->n >= 4096) { skip(); } l->a[l->n].id = id; l->a[l->n].acked = 0; l->n++; }
void log_ack() { log_()->a[log_()->n - 1].acked = 1; }

Spec draw_spec(Stream s = S_WORK)
{
	Spec p;
	static const size_t nbs[] = { 2, 1, 3, 5, 17, 64, 700 };
	p.nb = nbs[choose(s, 7)];
	if(choose(s, 50) == 49)			// frames larger than any block they may be moved in
	{
		static const size_t large[] = { 3000, 1400, 6000, 25000 };
		p.nb = large[choose(s, 4)];
		count("recordings of large frames");
	}
	static const double boxes[] = { 10, 1, 100, 12345 };
	p.box = boxes[choose(s, 4)];
	static const uint64_t steps[] = { 0, 1000, 1ull << 33, (1ull << 63) + 11 };
	p.step0 = steps[choose(s, 4)];
	static const double dts[] = { 1.0 / 64, 0.1, 1e-7 / 3, 1e5 / 7, 1.0 / 3 };
	p.dt = dts[choose(s, 5)];
	p.wild = choose(s, 2) != 0;
	p.salt = 1 + choose(s, 1000);
	const qint64 b = p.bytes();
	const qint64 parts[] = { 1 << 30, 1, b, b + b / 2, 3 * b, 0, b - 1, b + 1 };
	p.part = parts[choose(s, 8)];
	event("spec nb=%zu box=%g step0=%llu dt=%g wild=%d part=%lld", p.nb, p.box, static_cast<unsigned long long>(p.step0), p.dt, p.wild, static_cast<long long>(p.part));
	return p;
}

// an index of more than one block of whatever size it is read in
bool draw_long(Spec& p)
{
	if(choose(S_WORK, 40) != 39) { return false; }
	p.nb = 1;
	const qint64 parts[] = { 1 << 30, 48 * 700, 48 * 100 };
	p.part = parts[choose(S_WORK, 3)];
	count("long recordings");
	return true;
}
uint32_t long_frames() { return 500 + choose(S_WORK, 2000); }

struct Want { uint32_t id; bool must; uint32_t extra = 0; };	// extra: refused attempts at the same frame, which may be there as well

// Reads the stream with a fresh reader, no faults, and compares it with what must and may be there.
// Returns the ids of the frames that are there.
std::vector<uint32_t> verify(const char* base, const Spec& p, const std::vector<Want>& want, const char* when, bool random_access = true, bool check_parts = true)
{
	bool was = disk::pol.active;
	disk::pol.active = false;
	size_t must = 0;
	size_t most = 0;
	for(const Want& w : want) { must += w.must; most += 1 + w.extra; }
	std::vector<uint32_t> got;
	nbody_data_stream_reader rd;
	int rc = rd.load(base);
	event("verify %s: load=%d frames=%zu must=%zu may=%zu", when, rc ? -1 : 0, rc ? 0 : rd.get_frame_count(), must, most - must);
	if(rc != 0)
	{
		if(must) { fail("unreadable", "%s: the stream cannot be opened although %zu frames were acknowledged; files: %s", when, must, disk::listing().c_str()); }
		disk::pol.active = was;
		return got;
	}
	if(rd.get_frame_count() > most) { fail("extra-frames", "%s: %zu frames, only %zu were ever written", when, rd.get_frame_count(), most); }
	if(rd.get_body_count() != p.nb) { fail("body-count", "%s: body count %zu instead of %zu", when, rd.get_body_count(), p.nb); }
	if(rd.get_coord_size() != sizeof(nbcoord_t)) { fail("coord-size", "%s: coordinate size %zu", when, rd.get_coord_size()); }
	if(rd.get_box_size() != std::floor(p.box)) { fail("box-size", "%s: box size %g instead of %g", when, rd.get_box_size(), p.box); }
	size_t n = rd.get_frame_count();
	nbody_data d;
	d.resize(p.nb);
	size_t w = 0;
	uint32_t hits = 0;
	for(size_t i = 0; i != n; ++i)
	{
		world::poison(d);
		if(i == 0 || choose(S_MISC, 2)) { if(0 != rd.seek(i)) { fail("seek", "%s: seek to frame %zu of %zu fails", when, i, n); } }
		if(0 != rd.read(&d))
		{
			fail("read", "%s: frame %zu of %zu cannot be read; files: %s", when, i, n, disk::listing().c_str());
		}
		for(;;)
		{
			if(w == want.size()) { fail("wrong-frame", "%s: frame %zu (step %zu, time %.12g) is none of the frames written (or out of order)", when, i, d.get_step(), d.get_time()); }
			std::string df = world::diff_frame(d, p.frame(want[w].id));
			if(df.empty())
			{
				got.push_back(want[w].id);
				if(++hits > want[w].extra) { ++w; hits = 0; }
				break;
			}
			if(want[w].must && hits == 0) { fail("wrong-frame", "%s: frame %zu should be acknowledged frame id %u but %s", when, i, want[w].id, df.c_str()); }
			++w;
			hits = 0;
		}
		if(d.get_box_size() != static_cast<size_t>(p.box)) { fail("box-size", "%s: frame %zu is delivered with a box of size %zu instead of %g", when, i, d.get_box_size(), p.box); }
		if(i == 0 || i + 1 == n)
		{
			std::string m = world::diff_masses(d, p.nb, p.salt);
			if(!m.empty()) { fail("masses", "%s: %s", when, m.c_str()); }
			m = world::diff_colors(d, p.nb, p.salt);
			if(!m.empty()) { fail("colours", "%s: %s", when, m.c_str()); }
		}
	}
	for(; w < want.size(); ++w)
	{
		if(hits) { hits = 0; continue; }
		if(want[w].must) { fail("lost-frame", "%s: acknowledged frame id %u is missing (%zu frames readable of %zu acknowledged); files: %s", when, want[w].id, n, must, disk::listing().c_str()); }
	}
	if(n)
	{
		Frame last = p.frame(got.back());
		if(rd.get_steps_count() != last.step) { fail("steps-count", "%s: last step %zu instead of %llu", when, rd.get_steps_count(), static_cast<unsigned long long>(last.step)); }
		if(!world::same_time(rd.get_max_time(), last.time)) { fail("max-time", "%s: last time %.17g instead of %.17g", when, rd.get_max_time(), last.time); }
		for(int k = 0; random_access && k < 4; ++k)
		{
			size_t i = choose(S_MISC, static_cast<uint32_t>(n));
			if(0 != rd.seek(i) || 0 != rd.read(&d)) { fail("random-access", "%s: frame %zu cannot be sought and read", when, i); }
			std::string df = world::diff_frame(d, p.frame(got[i]));
			if(!df.empty()) { fail("random-access", "%s: frame %zu after seek: %s", when, i, df.c_str()); }
		}
	}
	// a part is closed once it has reached the limit
	if(p.part > 0 && check_parts)
	{
		for(const std::string& f : disk::files())
		{
			if(f.compare(0, strlen(base), base) == 0 && f.size() > 4 && f.substr(f.size() - 4) == ".dat")
			{
				size_t sz = disk::slurp(f).size();
				if(static_cast<qint64>(sz) >= p.part + 2 * p.bytes() + 1) { fail("part-size", "%s: part %s has %zu bytes, limit %lld", when, f.c_str(), sz, static_cast<long long>(p.part)); }
			}
		}
	}
	disk::pol.active = was;
	return got;
}

// ------------------------------------------------------------------------------------------------ C01
struct Session { uint32_t first, frames; bool append; bool abrupt; };

int record_session(const char* base, const Spec& p, const Session& s)
{
	nbody_data d;
	world::init_data(d, p.nb, p.box, p.salt);
	std::unique_ptr<nbody_data_stream> st(new nbody_data_stream);
	std::unique_ptr<nbody_data_stream_reader> rd;
	if(s.append)
	{
		rd.reset(new nbody_data_stream_reader);
		if(0 != rd->load(base)) { return 3; }
		if(choose(S_WORK, 2))		// as the program does it
		{
			nbody_data last;
			last.resize(rd->get_body_count());
			if(0 != rd->seek(rd->get_frame_count() - 1) || 0 != rd->read(&last)) { return 4; }
		}
	}
	if(0 != st->open(base, p.part, rd.get())) { return 5; }
	log_()->opened = 1;
	if(rd) { rd->close(); }
	for(uint32_t k = 0; k != s.frames; ++k)
	{
		Frame f = p.frame(s.first + k);
		world::put_frame(d, f);
		log_begin(s.first + k);
		if(0 != st->write(&d)) { return 6; }
		log_ack();
		event("acked frame id %u", s.first + k);
	}
	if(s.abrupt) { _exit(0); }
	if(choose(S_WORK, 2)) { st->close(); }
	st.reset();
	return 0;
}

void draw_kill(int64_t est)
{
	disk::pol.kill_at = 1 + static_cast<int64_t>(choose(S_CRASH, static_cast<uint32_t>(est)));
	if(choose(S_CRASH, 2)) { disk::pol.kill_part = 256 + 1 + choose(S_CRASH, 60); }
	else { disk::pol.kill_part = choose(S_CRASH, 257); }
}

void run_c01()
{
	Spec p = draw_spec();
	const bool lng = draw_long(p);
	uint32_t sessions = 1 + choose(S_WORK, 4);
	std::vector<uint32_t> visible;
	uint32_t next = 0;
	const char* base = choose(S_WORK, 3) == 2 ? "dir/sub/rec" : "rec";
	if(g->thorough && choose(S_WORK, 8) == 7) { sessions = 4 + choose(S_WORK, 9); }
	for(uint32_t s = 0; s != sessions; ++s)
	{
		Session ss;
		ss.first = next;
		ss.frames = lng && s == 0 ? long_frames() : 1 + choose(S_WORK, 10);
		ss.append = !visible.empty();
		ss.abrupt = choose(S_WORK, 3) == 1;
		bool kill = choose(S_CRASH, 8) != 0;
		if(lng && s == 0) { kill = kill && choose(S_CRASH, 2); }
		memset(g->user, 0, sizeof(uint32_t) * 2);
		disk::reset();
		if(kill) { draw_kill(6 + static_cast<int64_t>(ss.frames) * (p.nb >= 700 ? 8 : 3) + (ss.append ? 6 : 4)); }
		event("session %u first=%u frames=%u append=%d kill=%lld", s, ss.first, ss.frames, ss.append, static_cast<long long>(disk::pol.kill_at));
		ProcResult r = process([&] { disk::start(); return record_session(base, p, ss); });
		disk::reset();
		if(!r.exited) { fail("recorder-crash", "the recording process died of signal %d", r.signal); }
		if(!r.killed && r.code != 0) { fail("recorder-failed", "session %u failed without any fault (step %d); files: %s", s, r.code, disk::listing().c_str()); }
		count(r.killed ? "sessions killed" : "sessions completed");
		std::vector<Want> want;
		for(uint32_t id : visible) { want.push_back(Want{ id, true }); }
		Log* l = log_();
		uint32_t acked = 0;
		for(uint32_t i = 0; i != l->n; ++i) { want.push_back(Want{ l->a[i].id, l->a[i].acked != 0 }); acked += l->a[i].acked; }
		if(!r.killed && acked != ss.frames) { fail("recorder-failed", "session %u acknowledged %u of %u frames", s, acked, ss.frames); }
		next += ss.frames;
		visible = verify(base, p, want, "after kill");
		count("frames acknowledged", acked);
		g->sim_time += acked * 1e-3;
	}
}

// ------------------------------------------------------------------------------------------------ C02
void draw_write_faults(disk::Policy& q, int64_t total_bytes)
{
	static const double ps[] = { 0, 0.02, 0.08, 0.3 };
	q.write_err = ps[choose(S_FAULT, 4)];
	q.write_short = ps[choose(S_FAULT, 4)];
	q.write_eintr = ps[choose(S_FAULT, 3)];
	q.open_err = choose(S_FAULT, 3) == 2 ? ps[choose(S_FAULT, 4)] : 0;
	q.open_eintr = ps[choose(S_FAULT, 2)];
	q.seek_err = choose(S_FAULT, 6) == 5 ? 0.05 : 0;
	q.sync_err = ps[choose(S_FAULT, 4)];
	q.rename_err = ps[choose(S_FAULT, 4)];
	q.trunc_err = choose(S_FAULT, 6) == 5 ? 0.3 : 0;
	static const double bs[] = { 0, 0.5, 0.97 };
	q.burst = bs[choose(S_FAULT, 3)];
	if(choose(S_FAULT, 2))
	{
		q.budget = static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(total_bytes)));
		static const double rs[] = { 0, 0.2, 0.6 };
		q.refill = rs[choose(S_FAULT, 3)];
	}
	event("policy err=%g short=%g eintr=%g open=%g burst=%g budget=%lld refill=%g", q.write_err, q.write_short, q.write_eintr, q.open_err, q.burst,
		  static_cast<long long>(q.budget), q.refill);
}

int faulty_session(const char* base, const Spec& p, uint32_t first, uint32_t frames, bool append, uint32_t how)
{
	nbody_data d;
	world::init_data(d, p.nb, p.box, p.salt);
	std::unique_ptr<nbody_data_stream> st(new nbody_data_stream);
	std::unique_ptr<nbody_data_stream_reader> rd;
	if(append)
	{
		rd.reset(new nbody_data_stream_reader);
		if(0 != rd->load(base)) { return 3; }
	}
	int rc = -1;
	for(int t = 0; t < 3 && rc != 0; ++t) { rc = st->open(base, p.part, rd.get()); }
	if(rc != 0) { event("open refused"); return 0; }
	log_()->opened = 1;
	for(uint32_t k = 0; k != frames; ++k)
	{
		Frame f = p.frame(first + k);
		world::put_frame(d, f);
		log_begin(first + k);
		rc = st->write(&d);
		event("write id %u -> %d", first + k, rc);
		if(rc == 0) { log_ack(); continue; }
		count("frames refused");
		uint32_t act = choose(S_WORK, 4);
		if(how == 1) { break; }
		if(act == 1) { --k; if(log_()->n > 300) { break; } }		// the same frame once more
		else if(act == 2) { break; }								// give up
	}
	if(how == 2) { _exit(0); }
	if(choose(S_WORK, 2)) { st->close(); }
	st.reset();
	return 0;
}

void c02_api()
{
	Spec p = draw_spec();
	uint32_t sessions = 1 + choose(S_WORK, 3);
	std::vector<uint32_t> visible;
	uint32_t next = 0;
	for(uint32_t s = 0; s != sessions; ++s)
	{
		uint32_t frames = 1 + choose(S_WORK, 12);
		uint32_t how = choose(S_WORK, 3);
		bool append = !visible.empty();
		bool faulty = s + 1 < sessions || s == 0;
		memset(g->user, 0, sizeof(uint32_t) * 2);
		disk::reset();
		if(faulty) { draw_write_faults(disk::pol, static_cast<int64_t>(frames) * p.bytes() + 400 + static_cast<int64_t>(p.nb) * 24); }
		event("session %u first=%u frames=%u append=%d how=%u", s, next, frames, append, how);
		disk::Policy keep = disk::pol;
		ProcResult r = process([&] { disk::start(); return faulty_session("rec", p, next, frames, append, how); });
		disk::reset();
		if(!r.exited) { fail("recorder-crash", "the recording process died of signal %d", r.signal); }
		Log* l = log_();
		if(r.code == 3 && !faulty) { fail("unreadable", "the stream cannot be opened for appending after a failed recording; files: %s", disk::listing().c_str()); }
		std::vector<Want> want;
		// opening for writing anew discards the old recording; appending keeps it
		for(uint32_t id : visible) { want.push_back(Want{ id, true }); }
		uint32_t acked = 0;
		for(uint32_t i = 0; i != l->n; ++i)
		{
			acked += l->a[i].acked;
			if(i && l->a[i - 1].id == l->a[i].id) { want.back().extra++; want.back().must = l->a[i].acked != 0; }
			else { want.push_back(Want{ l->a[i].id, l->a[i].acked != 0 }); }
		}
		if(!faulty && acked != frames) { fail("no-progress", "frames are still refused (%u of %u acknowledged) after the faults stopped", acked, frames); }
		next += frames;
		visible = verify("rec", p, want, "after faults", true, false);
		count("frames acknowledged", acked);
	}
}

// ------------------------------------------------------------------------------------------------ the simulation program
void c02_program()
{
	Prog p = draw_prog(true);
	Recording ref = reference(p);
	int64_t nops = *shared_ops();
	(void)nops;
	int64_t bytes = static_cast<int64_t>(ref.f.size()) * static_cast<int64_t>(p.nb) * 48 + static_cast<int64_t>(p.nb) * 24 + 300;
	disk::reset();
	const bool resume = choose(S_WORK, 3) == 2;		// the faults meet a run that goes on from an earlier one
	size_t before = 0;
	if(resume)
	{
		ProcResult r0 = run_prog(with(with(p.args, "--output=rec"), fmt("--max_time=%.17g", p.dt * (choose(S_WORK, p.steps) + 0.5))), true);
		disk::reset();
		if(!r0.exited || r0.code != 0) { fail("program-failed", "the first part of the run ends with status %d, signal %d without any fault", r0.code, r0.signal); }
		before = load_recording("rec").f.size();
		count("resumed programs under faults");
	}
	draw_write_faults(disk::pol, bytes);
	disk::pol.open_err = choose(S_FAULT, 4) == 3 ? 0.1 : 0;
	if(resume && choose(S_FAULT, 3) == 2) { static const double ps[] = { 0.02, 0.1 }; disk::pol.read_err = ps[choose(S_FAULT, 2)]; disk::pol.read_short = 0.05; }
	disk::shared_faults() = 0;
	ProcResult r = run_prog(with(p.args, resume ? "--resume=rec" : "--output=rec"), true);
	disk::reset();
	if(!r.exited) { fail("program-crash", "the program died of signal %d", r.signal); }
	Recording got = load_recording("rec");
	event("program ended with %d, %zu of %zu frames", r.code, got.f.size(), ref.f.size());
	count(r.code ? "programs that reported failure" : "programs that reported success");
	if(got.f.size() < before) { fail("lost-by-resume", "%zu frames before the resumed run, %zu after it (status %d)", before, got.f.size(), r.code); }
	const bool content = !(resume && p.history);
	if(r.code == 0) { compare_recordings(got, ref, content, false, "success-without-recording", "the program reported success"); }
	else
	{
		if(disk::shared_faults() == 0) { fail("program-failed", "the program fails with %d although no fault was injected", r.code); }
		compare_recordings(got, ref, content, true, "wrong-recording", "the program reported failure");
	}
}
void run_c02()
{
	if(choose(S_WORK, 4) == 3) { c02_program(); } else { c02_api(); }
}

// ------------------------------------------------------------------------------------------------ C03
void run_c03()
{
	Prog p = draw_prog(!thorough());
	Recording ref = reference(p);
	int64_t nops = *shared_ops();
	uint32_t kills = 1 + choose(S_CRASH, 4);
	bool done = false;
	size_t before = 0;
	for(uint32_t k = 0; !done; ++k)
	{
		Recording now = load_recording("rec");
		if(now.load == 0 && now.f.size() < before) { fail("lost-by-resume", "%zu frames before the resume, %zu now", before, now.f.size()); }
		compare_recordings(now, ref, !p.history, true, "resume-differs", "after kill and resume");
		before = now.f.size();
		bool resume = now.load == 0 && !now.f.empty();
		disk::reset();
		bool kill = k < kills;
		if(kill) { draw_kill(std::max<int64_t>(4, nops + 12)); if(resume && choose(S_CRASH, 2)) { disk::pol.kill_at = 1 + choose(S_CRASH, 24); } }
		Args a = with(p.args, resume ? "--resume=rec" : "--output=rec");
		bool early = kill && choose(S_WORK, 4) == 3;	// this run is only asked to go part of the way
		if(early) { a = with(a, prog::fmt("--max_time=%.17g", p.dt * (choose(S_WORK, p.steps) + 0.5))); }
		if(resume && choose(S_WORK, 4) == 3) { a = with(a, prog::fmt("--max_part_size=%zu", 1 + choose(S_WORK, 3) * 48 * p.nb)); }
		simomp::reset();
		simomp::cfg.threads = 1 + static_cast<int>(choose(S_WORK, 4));	// another machine may go on with the run
		event("run %u resume=%d early=%d kill=%lld", k, resume, early, static_cast<long long>(disk::pol.kill_at));
		ProcResult r = run_prog(a, true);
		disk::reset();
		if(!r.exited) { fail("program-crash", "%s run died of signal %d", resume ? "the resumed" : "the", r.signal); }
		simomp::reset();
		if(r.killed) { count("programs killed"); if(resume) { count("resumed programs killed"); } continue; }
		if(r.code != 0) { fail("resume-refused", "%s run fails with status %d after a kill; files: %s", resume ? "the resumed" : "the restarted", r.code, disk::listing().c_str()); }
		if(resume) { count("resumed programs completed"); }
		if(early) { count("programs ended at an earlier end time"); continue; }
		done = true;
	}
	if(choose(S_WORK, 4) == 3)
	{
		event("resume of the finished run");
		ProcResult r = run_prog(with(p.args, "--resume=rec"), true);
		disk::reset();
		if(!r.exited || r.code != 0) { fail("resume-refused", "resuming the finished run fails with status %d, signal %d", r.code, r.signal); }
		count("finished runs resumed");
	}
	Recording got = load_recording("rec");
	compare_recordings(got, ref, !p.history, false, "resume-differs", "after kill and resume");
}

// ------------------------------------------------------------------------------------------------ C04
void draw_read_faults(disk::Policy& q)
{
	static const double ps[] = { 0, 0.02, 0.1, 0.4 };
	q.read_err = ps[choose(S_FAULT, 4)];
	q.read_short = ps[choose(S_FAULT, 4)];
	q.read_eintr = ps[choose(S_FAULT, 3)];
	q.open_err = ps[choose(S_FAULT, 3)];
	q.open_eintr = ps[choose(S_FAULT, 2)];
	q.seek_err = ps[choose(S_FAULT, 3)];
	static const double bs[] = { 0, 0.5 };
	q.burst = bs[choose(S_FAULT, 2)];
}
void write_stream(const char* base, const Spec& p, uint32_t first, uint32_t frames)
{
	nbody_data d;
	world::init_data(d, p.nb, p.box, p.salt);
	nbody_data_stream st;
	if(0 != st.open(base, p.part)) { fail("recorder-failed", "%s cannot be opened for writing without any fault", base); }
	for(uint32_t k = 0; k != frames; ++k)
	{
		world::put_frame(d, p.frame(first + k));
		if(0 != st.write(&d)) { fail("recorder-failed", "%s: frame %u refused without any fault", base, k); }
	}
	st.close();
}
void run_c04()
{
	const uint32_t ns = 1 + choose(S_WORK, 3);
	std::vector<Spec> sp;
	std::vector<uint32_t> len, first;
	std::vector<std::string> name;
	for(uint32_t i = 0; i != ns; ++i)
	{
		Spec p = draw_spec();
		if(i && choose(S_WORK, 2)) { p.nb = sp[0].nb; }
		if(p.nb == 700) { p.nb = 400; }
		const bool lng = i == 0 && draw_long(p);
		sp.push_back(p);
		len.push_back(lng ? long_frames() : 1 + choose(S_WORK, 7));
		first.push_back(i * 10000);
		name.push_back("s" + std::to_string(i));
		write_stream(name[i].c_str(), p, first[i], len[i]);
	}
	disk::reset();
	draw_read_faults(disk::pol);
	disk::Policy faulty = disk::pol;
	disk::start();
	struct R { nbody_data_stream_reader r; int st = -1; bool sure = false; size_t cur = 0; bool end = false; };
	std::vector<std::unique_ptr<R>> rs;
	for(uint32_t i = 0, nr = 1 + choose(S_WORK, 2); i != nr; ++i) { rs.emplace_back(new R); }
	std::vector<std::unique_ptr<nbody_data>> bufs;
	uint32_t nops = 10 + choose(S_WORK, 60);
	auto check_read = [&](R& r, nbody_data& d, size_t cur, int rc, bool faults, bool at_end) {
		if(rc == 0)
		{
			if(r.st < 0) { fail("read-nothing", "a reader without an open stream reports a successful read"); }
			if(cur >= len[static_cast<size_t>(r.st)]) { fail("read-nothing", "a read at cursor %zu of %u frames reports success", cur, len[static_cast<size_t>(r.st)]); }
			const Spec& p(sp[static_cast<size_t>(r.st)]);
			std::string df = world::diff_frame(d, p.frame(first[static_cast<size_t>(r.st)] + static_cast<uint32_t>(cur)));
			if(!df.empty()) { fail("wrong-frame", "stream %d frame %zu: %s", r.st, cur, df.c_str()); }
			df = world::diff_masses(d, p.nb, p.salt);
			if(!df.empty()) { fail("wrong-masses", "stream %d frame %zu: %s", r.st, cur, df.c_str()); }
			df = world::diff_colors(d, p.nb, p.salt);
			if(!df.empty() && disk::faults == 0) { fail("wrong-colours", "stream %d frame %zu: %s", r.st, cur, df.c_str()); }
			if(d.get_box_size() != static_cast<size_t>(p.box)) { fail("wrong-box", "stream %d frame %zu: a box of size %zu instead of %g", r.st, cur, d.get_box_size(), p.box); }
			count("reads that delivered");
		}
		else
		{
			count("reads that failed");
			if(!faults && r.sure && r.st >= 0 && !at_end) { fail("read-refused", "stream %d frame %zu cannot be read although no fault was injected", r.st, cur); }
		}
	};
	for(uint32_t o = 0; o != nops; ++o)
	{
		R& r(*rs[choose(S_WORK, static_cast<uint32_t>(rs.size()))]);
		int64_t f0 = disk::faults;
		uint32_t op = choose(S_WORK, 12);
		if(op < 6 && r.st >= 0)			// read
		{
			nbody_data d;
			d.resize(sp[static_cast<size_t>(r.st)].nb);
			world::poison(d);
			size_t cur = r.r.get_current_frame();
			if(r.sure && cur != r.cur) { fail("cursor", "the cursor is at %zu instead of %zu", cur, r.cur); }
			int rc = r.r.read(&d);
			event("read stream %d cursor %zu -> %d", r.st, cur, rc ? -1 : 0);
			check_read(r, d, cur, rc, disk::faults != f0, r.end);
			size_t now = r.r.get_current_frame();
			if(rc == 0)
			{
				size_t last = len[static_cast<size_t>(r.st)] - 1, nx = std::min(cur + 1, last);
				if(now != nx) { fail("cursor", "after reading frame %zu of %zu the cursor is at %zu", cur, last + 1, now); }
				r.end = cur == last;
				r.cur = nx;
				r.sure = true;
			}
			else if(r.sure && now != cur) { fail("cursor", "a failed read moved the cursor from %zu to %zu", cur, now); }
		}
		else if(op < 9 && r.st >= 0)	// seek
		{
			size_t n = len[static_cast<size_t>(r.st)];
			size_t to = choose(S_WORK, static_cast<uint32_t>(n + 1));
			if(to == n && choose(S_WORK, 2)) { to = static_cast<size_t>(-1) - choose(S_WORK, 2); }
			size_t cur = r.r.get_current_frame();
			int rc = r.r.seek(to);
			event("seek stream %d to %zu -> %d", r.st, to, rc ? -1 : 0);
			size_t now = r.r.get_current_frame();
			if(to >= n)
			{
				if(rc == 0 && r.sure) { fail("seek-outside", "seek to %zu of %zu frames reports success", to, n); }
				if(now != cur) { fail("cursor", "a refused seek moved the cursor from %zu to %zu", cur, now); }
			}
			else if(rc == 0)
			{
				if(now != to) { fail("cursor", "seek to %zu succeeded, the cursor is at %zu", to, now); }
				r.cur = to;
				r.sure = true;
				r.end = false;
			}
			else
			{
				if(disk::faults == f0 && r.sure) { fail("seek-refused", "seek to %zu of %zu fails although no fault was injected", to, n); }
				r.cur = now;
				r.sure = false;
				r.end = false;
			}
		}
		else if(op == 9)				// close
		{
			r.r.close();
			event("close");
			r.st = -1;
			r.sure = false;
			if(r.r.get_frame_count() != 0) { fail("close", "%zu frames after close", r.r.get_frame_count()); }
			nbody_data d;
			d.resize(sp[0].nb);
			if(r.r.read(&d) == 0) { fail("read-nothing", "a closed reader reports a successful read"); }
		}
		else if(op == 10 && choose(S_WORK, 3) == 0)	// misuse
		{
			nbody_data d;
			d.resize(r.st >= 0 ? sp[static_cast<size_t>(r.st)].nb + 1 : 3);
			event("misuse");
			if(r.r.read(nullptr) == 0) { fail("misuse", "reading into nothing reports success"); }
			if(r.r.read(&d) == 0) { fail("misuse", "reading into a buffer of the wrong size reports success"); }
			if(r.r.load("missing") == 0) { fail("misuse", "opening a missing stream reports success"); }
			r.st = -1;
			r.sure = false;
			nbody_data e;
			if(r.r.read(&e) == 0 && r.r.get_frame_count() == 0) { fail("read-nothing", "a reader whose open failed reports a successful read"); }
		}
		else							// load
		{
			uint32_t i = choose(S_WORK, ns);
			int rc = r.r.load(QString::fromStdString(name[i]));
			event("load %u -> %d", i, rc ? -1 : 0);
			if(rc == 0)
			{
				r.st = static_cast<int>(i);
				r.sure = true;
				r.end = false;
				r.cur = 0;
				if(r.r.get_frame_count() != len[i]) { fail("frame-count", "stream %u: %zu frames instead of %u", i, r.r.get_frame_count(), len[i]); }
				if(r.r.get_body_count() != sp[i].nb || r.r.get_box_size() != std::floor(sp[i].box)) { fail("header", "stream %u: body count %zu, box %g", i, r.r.get_body_count(), r.r.get_box_size()); }
				if(r.r.get_current_frame() != 0) { fail("cursor", "the cursor is at %zu after opening", r.r.get_current_frame()); }
			}
			else
			{
				if(disk::faults == f0) { fail("load-refused", "stream %u cannot be opened although no fault was injected", i); }
				r.r.close();
				r.st = -1;
				r.sure = false;
			}
		}
	}
	// the faults stop: everything is readable again, without reopening where the reader is open
	disk::pol.read_err = disk::pol.read_short = disk::pol.read_eintr = disk::pol.open_err = disk::pol.open_eintr = disk::pol.seek_err = disk::pol.burst = 0;
	disk::start();
	for(auto& rp : rs)
	{
		R& r(*rp);
		if(r.st < 0)
		{
			r.st = 0;
			if(0 != r.r.load(QString::fromStdString(name[0]))) { fail("no-recovery", "stream 0 cannot be opened after the faults stopped"); }
		}
		for(int k = 0; k < 4; ++k)
		{
			size_t to = choose(S_WORK, len[static_cast<size_t>(r.st)]);
			nbody_data d;
			d.resize(sp[static_cast<size_t>(r.st)].nb);
			world::poison(d);
			if(0 != r.r.seek(to) || 0 != r.r.read(&d)) { fail("no-recovery", "stream %d frame %zu cannot be sought and read after the faults stopped", r.st, to); }
			r.sure = true;
			check_read(r, d, to, 0, false, false);
		}
	}
}

// ------------------------------------------------------------------------------------------------ C05
void run_c05()
{
	Spec p = draw_spec();
	if(p.nb == 700) { p.nb = 400; }
	if(p.nb > 3000) { p.nb = 3000; }
	uint32_t sessions = 1 + choose(S_WORK, 2);
	uint32_t next = 0;
	std::vector<Want> want;
	const bool lng = draw_long(p);
	if(lng)		// the recording is long already when it is watched
	{
		next = long_frames();
		write_stream("rec", p, 0, next);
		for(uint32_t k = 0; k != next; ++k) { want.push_back(Want{ k, true }); }
		sessions = 1;
	}
	struct Old { nbody_data_stream_reader r; std::vector<uint32_t> ids; };
	std::vector<std::unique_ptr<Old>> open;
	bool busy = false;
	static const double pr[] = { 0.1, 0.3, 0.8 };
	const double look = lng ? 0.1 : pr[choose(S_SCHED, 3)];
	const uint32_t split = choose(S_SCHED, 4);
	auto reader_step = [&]() {
		if(busy) { return; }
		busy = true;
		bool was = disk::pol.active;
		disk::pol.active = false;
		if(open.empty() || choose(S_SCHED, 2) == 0)
		{
			std::vector<uint32_t> got = verify("rec", p, want, "live", false, false);
			count("live opens");
			sig(disk::ops * 2048 + static_cast<int64_t>(got.size()));
			if(!got.empty() && open.size() < 3)
			{
				std::unique_ptr<Old> o(new Old);
				if(0 != o->r.load("rec")) { fail("live-open", "the growing stream opened once but not again"); }
				if(o->r.get_frame_count() != got.size()) { fail("live-open", "two opens at the same instant see %zu and %zu frames", got.size(), o->r.get_frame_count()); }
				o->ids = got;
				open.push_back(std::move(o));
			}
		}
		else
		{
			Old& o(*open[choose(S_SCHED, static_cast<uint32_t>(open.size()))]);
			size_t i = choose(S_SCHED, static_cast<uint32_t>(o.ids.size()));
			nbody_data d;
			d.resize(p.nb);
			if(o.r.get_frame_count() != o.ids.size()) { fail("live-changed", "an open reader's frame count changed"); }
			if(0 != o.r.seek(i) || 0 != o.r.read(&d)) { fail("live-read", "a reader that is already open cannot read frame %zu any more", i); }
			std::string df = world::diff_frame(d, p.frame(o.ids[i]));
			if(!df.empty()) { fail("live-read", "a reader that is already open: frame %zu: %s", i, df.c_str()); }
			count("live reads");
			sig(disk::ops * 2048 + 1024 + static_cast<int64_t>(i));
		}
		disk::pol.active = was;
		busy = false;
	};
	for(uint32_t s = 0; s != sessions; ++s)
	{
		disk::reset();
		disk::pol.hook = [&](disk::Kind, const char*, bool) { if(!busy && chance(S_SCHED, look)) { reader_step(); } };
		if(split) { disk::pol.split = [&](const char*, int64_t n) -> int64_t { if(busy || choose(S_SCHED, 4) >= split) { return -1; } count("fault:write made visible in pieces"); return static_cast<int64_t>(choose(S_SCHED, static_cast<uint32_t>(std::min<int64_t>(n, 65535)))); }; }
		if(s && choose(S_WORK, 3) == 2)		// the writer before this one was killed inside a frame
		{
			std::string t = disk::slurp("rec.idx");
			disk::spit("rec.idx", t + t.substr(t.rfind('\n', t.size() - 2) + 1, 1 + choose(S_CRASH, 5)));
			count("fault:previous writer killed inside an index line");
		}
		if(s == 0) { disk::pol.hook = nullptr; disk::pol.split = nullptr; }	// nothing exists before the first open; watch from then on
		disk::start();
		nbody_data d;
		world::init_data(d, p.nb, p.box, p.salt);
		nbody_data_stream st;
		std::unique_ptr<nbody_data_stream_reader> rd;
		if(s || lng) { rd.reset(new nbody_data_stream_reader); if(0 != rd->load("rec")) { fail("unreadable", "the stream cannot be opened for appending"); } }
		if(s == 0)
		{
			disk::pol.hook = [&](disk::Kind, const char*, bool) { if(!busy && chance(S_SCHED, look)) { reader_step(); } };
			if(split) { disk::pol.split = [&](const char*, int64_t n) -> int64_t { if(busy || choose(S_SCHED, 4) >= split) { return -1; } count("fault:write made visible in pieces"); return static_cast<int64_t>(choose(S_SCHED, static_cast<uint32_t>(std::min<int64_t>(n, 65535)))); }; }
		}
		if(0 != st.open("rec", p.part, rd.get())) { fail("recorder-failed", "cannot open the stream"); }
		uint32_t frames = 1 + choose(S_WORK, 8);
		for(uint32_t k = 0; k != frames; ++k)
		{
			want.push_back(Want{ next, false });
			world::put_frame(d, p.frame(next));
			++next;
			if(0 != st.write(&d)) { fail("recorder-failed", "frame refused without any fault"); }
			want.back().must = true;
			event("acked frame id %u", next - 1);
		}
		st.close();
		g->sim_time += frames * 1e-3;
	}
	disk::reset();
	busy = false;
	for(int k = 0; k < 4; ++k) { reader_step(); }
	verify("rec", p, want, "at the end");
}

// ------------------------------------------------------------------------------------------------ C06
struct Line { uint64_t step; double time; uint64_t file; long long pos; bool strict; bool junk; };
bool digits(const std::string& s) { return !s.empty() && s.size() < 19 && s.find_first_not_of("0123456789") == std::string::npos; }
struct Index { bool clean = true; bool junk = false; bool dup_header = false; uint64_t coord = 0, bodies = 0, box = 0; std::vector<Line> l; size_t loose = 0; };
// an independent reading of the index format
Index parse_index(const std::string& t)
{
	Index x;
	size_t b = 0;
	for(;;)
	{
		size_t e = t.find('\n', b);
		if(e == std::string::npos) { break; }		// an unterminated last line is a write that never finished
		std::string line = t.substr(b, e - b);
		b = e + 1;
		for(unsigned char c : line) { if(c != '\t' && (c < 32 || c > 126)) { x.clean = false; } }
		if(line.empty()) { x.clean = false; continue; }	// says nothing: may be refused or passed over
		if(line[0] == '#')
		{
			size_t sp = line.find(' ');
			std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
			uint64_t* to = k == "#coord_size" ? &x.coord : k == "#body_count" ? &x.bodies : k == "#box_size" ? &x.box : nullptr;
			if(!to || !digits(v)) { x.clean = false; continue; }
			*to = strtoull(v.c_str(), nullptr, 10);
			continue;
		}
		Line l = Line();
		std::vector<std::string> f;
		size_t q = 0;
		for(;;) { size_t w = line.find('\t', q); f.push_back(line.substr(q, w == std::string::npos ? w : w - q)); if(w == std::string::npos) { break; } q = w + 1; }
		l.strict = f.size() == 4 && digits(f[0]) && digits(f[2]) && !f[1].empty() && f[1].find_first_not_of("0123456789.e-+") == std::string::npos && !f[3].empty();
		if(l.strict)
		{
			char* ee = nullptr;
			l.time = strtod(f[1].c_str(), &ee);
			std::string neg = f[3][0] == '-' ? f[3].substr(1) : f[3];
			if(*ee || !std::isfinite(l.time) || !digits(neg) || f[1][0] == '+' || f[1][0] == '.') { l.strict = false; }
			else { l.step = strtoull(f[0].c_str(), nullptr, 10); l.file = strtoull(f[2].c_str(), nullptr, 10); l.pos = strtoll(f[3].c_str(), nullptr, 10); }
		}
		// characters that are part of no number, whatever forms of numbers are accepted
		for(size_t k = 0; f.size() == 4 && k != 4; ++k)
		{
			if(f[k].empty()) { l.junk = x.junk = true; }
			for(char c : f[k])
			{
				const bool sign = strchr("!\"#$%&()*/:;<=>?@[\\]^_`{|}~", c) != nullptr && c;
				if(sign || (isalpha(static_cast<unsigned char>(c)) && (k != 1 || !strchr("eEinfaNtyIFATYxXpP", c)))) { l.junk = x.junk = true; }
			}
		}
		if(line.find('@') != std::string::npos || (f.size() != 4 && line.find_first_of("\r") == std::string::npos)) { l.junk = true; x.junk = true; }
		if(!l.strict) { x.clean = false; }
		x.l.push_back(l);
	}
	if(b < t.size()) { x.loose = t.size() - b; }
	return x;
}
void mutate(std::string& s, uint32_t kind)
{
	if(s.empty()) { return; }
	uint32_t n = static_cast<uint32_t>(s.size());
	switch(kind)
	{
	case 0: s.resize(choose(S_FAULT, n)); break;													// truncated
	case 1: { uint32_t at = choose(S_FAULT, n); s[at] = static_cast<char>(s[at] ^ (1 << choose(S_FAULT, 8))); break; }	// bit flip
	case 2: { uint32_t at = choose(S_FAULT, n), len = 1 + choose(S_FAULT, std::min(64u, n - at)); s.erase(at, len); break; }	// bytes lost
	case 3: { uint32_t at = choose(S_FAULT, n), len = 1 + choose(S_FAULT, std::min(64u, n - at)); s.insert(at, s.substr(at, len)); break; } // duplicated
	case 4: { uint32_t at = choose(S_FAULT, n), len = 1 + choose(S_FAULT, std::min(512u, n - at)); std::fill(s.begin() + at, s.begin() + at + len, '\0'); break; } // zeroed sector
	case 5: s.clear(); break;
	default: break;
	}
}
void mutate_index(std::string& s)
{
	std::vector<std::string> ls;
	size_t b = 0, e;
	while((e = s.find('\n', b)) != std::string::npos) { ls.push_back(s.substr(b, e - b)); b = e + 1; }
	std::string rest = s.substr(b);
	if(ls.empty()) { return; }
	uint32_t i = choose(S_FAULT, static_cast<uint32_t>(ls.size()));
	uint32_t kind = choose(S_FAULT, 14);
	switch(kind)
	{
	case 0: ls.erase(ls.begin() + i); break;
	case 1: ls.insert(ls.begin() + i, ls[choose(S_FAULT, static_cast<uint32_t>(ls.size()))]); break;
	case 2: ls.insert(ls.begin() + i, "@junk"); break;
	case 3: ls[i] += "\t7"; break;
	case 4: { size_t t = ls[i].rfind('\t'); if(t != std::string::npos) { ls[i] = ls[i].substr(0, t); } else { ls[i] = "@"; } break; }
	case 5: { size_t t = ls[i].rfind('\t'); if(t != std::string::npos) { ls[i] = ls[i].substr(0, t) + "\t-48"; } break; }
	case 6: { size_t t = ls[i].rfind('\t'); if(t != std::string::npos) { ls[i] = ls[i].substr(0, t) + "\t" + std::to_string(1 + choose(S_FAULT, 2000)); } break; }
	case 7: { size_t t = ls[i].rfind('\t'); if(t != std::string::npos) { ls[i] = ls[i].substr(0, t) + "\t9223372036854775000"; } break; }
	case 8: { std::string& h(ls[choose(S_FAULT, std::min<uint32_t>(3, static_cast<uint32_t>(ls.size())))]); size_t t = h.find(' '); static const char* v[] = { "0", "4", "16", "8", "1", "77", "@", "", "12 13" }; if(t != std::string::npos) { h = h.substr(0, t + 1) + v[choose(S_FAULT, 9)]; } break; }
	case 9: { size_t t = ls[i].find('\t'); if(t != std::string::npos) { ls[i] = "@" + ls[i].substr(t); } break; }
	case 10: { std::vector<std::string> f; size_t q = 0; for(;;) { size_t w = ls[i].find('\t', q); f.push_back(ls[i].substr(q, w == std::string::npos ? w : w - q)); if(w == std::string::npos) { break; } q = w + 1; } if(f.size() == 4) { static const char* v[] = { "0", "1", "2", "9", "123456", "18446744073709551615" }; ls[i] = f[0] + "\t" + f[1] + "\t" + v[choose(S_FAULT, 6)] + "\t" + f[3]; } break; }
	case 11: rest = ls[i].substr(0, choose(S_FAULT, static_cast<uint32_t>(ls[i].size() + 1))); break;
	default:							// a column that is no number
	{
		if(ls[i][0] == '#') { break; }
		size_t q = 0;
		for(uint32_t skip = choose(S_FAULT, 4); skip && ls[i].find('\t', q) != std::string::npos; --skip) { q = ls[i].find('\t', q) + 1; }
		size_t w = std::min(ls[i].size(), ls[i].find('\t', q));
		static const char* in[] = { "q", "*", "_", "L", ":" };
		if(kind == 12) { ls[i].erase(q, w - q); }
		else { ls[i].insert(q + choose(S_FAULT, static_cast<uint32_t>(w - q + 1)), in[choose(S_FAULT, 5)]); }
		break;
	}
	}
	s.clear();
	for(const std::string& l : ls) { s += l + "\n"; }
	s += rest;
}
void run_c06()
{
	if(!&alloc::pol) { struct rlimit lim = { 8ull << 30, 8ull << 30 }; setrlimit(RLIMIT_AS, &lim); }	// the sanitizer has a limit of its own
	Spec p = draw_spec();
	if(p.nb > 64) { p.nb = 9; }
	const bool lng = draw_long(p);
	uint32_t frames = lng ? long_frames() : 1 + choose(S_WORK, 7);
	write_stream("rec", p, 0, frames);
	const std::string index0 = disk::slurp("rec.idx");
	uint32_t muts = 1 + choose(S_FAULT, 3);
	for(uint32_t m = 0; m != muts; ++m)
	{
		std::vector<std::string> fs = disk::files();
		if(fs.empty()) { break; }
		std::string f;
		if(choose(S_FAULT, 3)) { f = "rec.idx"; if(!disk::exists(f)) { continue; } }
		else { f = fs[choose(S_FAULT, static_cast<uint32_t>(fs.size()))]; }
		std::string t = disk::slurp(f);
		if(f == "rec.idx" && choose(S_FAULT, 3)) { mutate_index(t); disk::spit(f, t); event("damage index -> %zu bytes", t.size()); count("fault:index damaged"); continue; }
		uint32_t k = choose(S_FAULT, 7);
		if(k == 6) { disk::remove_file(f); event("remove %s", f.c_str()); count("fault:file removed"); continue; }
		mutate(t, k);
		disk::spit(f, t);
		event("damage %s kind %u -> %zu bytes", f.c_str(), k, t.size());
		static const char* names[] = { "fault:file truncated", "fault:bit flipped", "fault:bytes lost", "fault:bytes duplicated", "fault:sector zeroed", "fault:file emptied" };
		count(names[k]);
	}
	bool have = false;
	std::string text = disk::slurp("rec.idx", &have);
	Index x = parse_index(text);
	// lines as they were written, perhaps fewer: only then is refusing wrong
	const bool intact = have && index0.compare(0, text.size(), text) == 0;
	if(g->tracing) { note("index: %s", text.c_str()); }
	hash_bytes(text.data(), text.size());
	sig(std::hash<std::string>()(text));
	nbody_data_stream_reader rd;
	int rc = rd.load("rec");
	event("load -> %d clean=%d junk=%d lines=%zu loose=%zu", rc ? -1 : 0, x.clean, x.junk, x.l.size(), x.loose);
	count(rc ? "loads refused" : "loads accepted");
	if(!have && rc == 0) { fail("misread", "a stream without an index is opened"); }
	if(rc == 0 && x.junk) { fail("misread", "an index with a malformed line is accepted"); }
	if(rc == 0 && x.clean && (x.coord != sizeof(nbcoord_t) || x.bodies == 0 || x.box == 0)) { fail("misread", "a header with coordinate size %llu, body count %llu, box %llu is accepted", static_cast<unsigned long long>(x.coord), static_cast<unsigned long long>(x.bodies), static_cast<unsigned long long>(x.box)); }
	auto dat = [&](const Line& l) { return "rec" + std::to_string(l.file) + ".dat"; };
	if(rc != 0)
	{
		bool ok_to_refuse = !intact || !x.clean || x.coord != sizeof(nbcoord_t) || x.bodies == 0 || x.box == 0 || x.l.empty() || x.l[0].pos < 0 || !disk::exists(dat(x.l[0]));
		if(!ok_to_refuse) { fail("refused-good", "a stream whose index is intact and whose first part exists is refused"); }
		return;
	}
	size_t n = rd.get_frame_count();
	if(x.clean && n != x.l.size()) { fail("misread", "%zu frames, the index has %zu complete lines", n, x.l.size()); }
	if(n > x.l.size()) { fail("misread", "%zu frames, the index has %zu complete lines", n, x.l.size()); }
	size_t bc = rd.get_body_count();
	if(x.clean && bc != x.bodies) { fail("misread", "body count %zu, the header says %llu", bc, static_cast<unsigned long long>(x.bodies)); }
	if(bc == 0 || bc > 4000 || n == 0) { return; }
	std::string mass = disk::slurp("rec.mass"), col = disk::slurp("rec.col");
	for(size_t k = 0; k < n + 3; ++k)
	{
		size_t i = k < n ? k : choose(S_WORK, static_cast<uint32_t>(n));
		const Line& l(x.l[i]);
		nbody_data d;
		d.resize(bc);
		world::poison(d);
		int rs = rd.seek(i);
		int rr = rs == 0 ? rd.read(&d) : -1;
		if(!x.clean && !l.strict) { continue; }
		if(x.l.size() != n) { continue; }
		bool hf = false;
		std::string bytes = disk::slurp(dat(l), &hf);
		bool avail = hf && l.pos >= 0 && static_cast<uint64_t>(l.pos) <= bytes.size() && bytes.size() - static_cast<uint64_t>(l.pos) >= bc * 48;
		bool masses = mass.size() >= bc * 8;
		event("frame %zu seek=%d read=%d avail=%d masses=%d", i, rs ? -1 : 0, rr ? -1 : 0, avail, masses);
		if(rr == 0)
		{
			if(!avail) { fail("misread", "frame %zu is delivered although its bytes (%s at %lld) are not there", i, dat(l).c_str(), l.pos); }
			if(!masses) { fail("misread", "frame %zu is delivered although the mass table is too short (%zu bytes for %zu bodies)", i, mass.size(), bc); }
			if(!world::same_bits(d.get_vertites(), bytes.data() + l.pos, bc * 24) || !world::same_bits(d.get_velosites(), bytes.data() + l.pos + bc * 24, bc * 24)) { fail("misread", "frame %zu differs from the bytes stored at %s:%lld", i, dat(l).c_str(), l.pos); }
			if(!world::same_bits(d.get_mass(), mass.data(), bc * 8)) { fail("misread", "masses differ from those stored"); }
			if(d.get_step() != l.step || !world::close_time(d.get_time(), l.time)) { fail("misread", "frame %zu: step %zu time %.17g, the index says %llu %.17g", i, d.get_step(), d.get_time(), static_cast<unsigned long long>(l.step), l.time); }
			if(col.size() >= bc * sizeof(nbcolor_t) && !world::same_bits(d.get_color(), col.data(), bc * sizeof(nbcolor_t))) { fail("misread", "colours differ from those stored"); }
			count("damaged streams: frames delivered");
		}
		else
		{
			if(intact && avail && masses) { fail("refused-good", "frame %zu is complete on disk (%s at %lld) but cannot be read", i, dat(l).c_str(), l.pos); }
			count("damaged streams: frames refused");
		}
	}
}

// ------------------------------------------------------------------------------------------------ C07
struct Body { double c[8]; };
bool parse_state(const std::string& t, std::vector<Body>& out)		// independent reading of the table format
{
	out.clear();
	size_t b = 0;
	while(b < t.size())
	{
		size_t e = t.find('\n', b);
		std::string l = t.substr(b, e == std::string::npos ? e : e - b);
		b = e == std::string::npos ? t.size() : e + 1;
		size_t cm = l.find("//");
		if(cm != std::string::npos) { l = l.substr(0, cm); }
		Body x = Body();
		const char* c = l.c_str();
		int k = 0;
		for(; k < 8; ++k)
		{
			char* ee = nullptr;
			double v = strtod(c, &ee);
			if(ee == c) { break; }
			x.c[k] = v;
			c = ee;
		}
		if(k == 0) { continue; }
		if(k < 7) { return false; }
		out.push_back(x);
	}
	return true;
}
std::string diff_bodies(const nbody_data& d, const std::vector<Body>& b)
{
	if(d.get_count() != b.size()) { return fmt("%zu bodies instead of %zu", d.get_count(), b.size()); }
	for(size_t i = 0; i != b.size(); ++i)
	{
		const double v[7] = { d.get_vertites()[i].x, d.get_vertites()[i].y, d.get_vertites()[i].z, d.get_velosites()[i].x, d.get_velosites()[i].y, d.get_velosites()[i].z, d.get_mass()[i] };
		for(int k = 0; k != 7; ++k) { if(v[k] != b[i].c[k]) { return fmt("value %d of body %zu is %.17g instead of %.17g", k, i, v[k], b[i].c[k]); } }
	}
	return std::string();
}
void c07_save()
{
	static const size_t nbs[] = { 1, 2, 7, 60, 150, 700 };
	size_t nb = nbs[choose(S_WORK, 6)];
	if(choose(S_WORK, 40) == 39) { nb = 700 + choose(S_WORK, 5000); count("large states"); }
	nbody_data d;
	std::vector<Body> want;
	uint64_t s = mix(g->seed, 0x5A5A);
	for(size_t i = 0; i != nb; ++i)
	{
		Body b;
		for(double& c : b.c)
		{
			uint64_t r = raw_rand(s);
			double m = static_cast<double>(r >> 11) / 9007199254740992.0 + 0.5;
			int ex = static_cast<int>(raw_rand(s) % 120) - 60;
			c = (r & 1 ? -1 : 1) * std::ldexp(m, ex);
			if(r % 17 == 3) { c = 0; }
		}
		b.c[6] = std::fabs(b.c[6]);
		b.c[7] = std::fabs(b.c[7]);
		want.push_back(b);
		d.add_body(nbvertex_t(b.c[0], b.c[1], b.c[2]), nbvertex_t(b.c[3], b.c[4], b.c[5]), b.c[6], nbcolor_t(1, 1, 1, 1), b.c[7]);
	}
	if(choose(S_WORK, 3) == 2) { disk::spit("save.txt", "an older file\n"); }
	disk::reset();
	draw_write_faults(disk::pol, static_cast<int64_t>(nb) * 200);
	disk::start();
	bool ok = d.save("save.txt");
	int64_t faults = disk::faults;
	disk::reset();
	event("save %zu bodies -> %d (faults %lld)", nb, ok, static_cast<long long>(faults));
	count(ok ? "saves that reported success" : "saves that reported failure");
	if(!ok) { if(!faults) { fail("save-refused", "saving fails without any fault"); } return; }
	std::vector<Body> got;
	if(!parse_state(disk::slurp("save.txt"), got)) { fail("incomplete-save", "saving reported success, the file cannot be parsed (%zu bytes)", disk::slurp("save.txt").size()); }
	if(got.size() != want.size()) { fail("incomplete-save", "saving reported success, the file holds %zu of %zu bodies", got.size(), want.size()); }
	nbody_data e;
	if(!e.load("save.txt")) { fail("save-load", "a saved state cannot be loaded"); }
	std::string df = diff_bodies(e, want);
	if(!df.empty()) { fail("save-load", "saved and loaded: %s", df.c_str()); }
	if(!e.is_equal(d)) { fail("save-load", "a saved and loaded state is not equal to the original"); }
}
void c07_load()
{
	static const size_t nbs[] = { 2, 1, 7, 60, 150, 700 };
	size_t nb = nbs[choose(S_WORK, 6)];
	if(choose(S_WORK, 40) == 39) { nb = 700 + choose(S_WORK, 5000); count("large states"); }
	bool zeno = choose(S_WORK, 2) != 0;
	struct Type { const char* name; double mass; };
	static const Type types[] = { { "G1", 1 }, { "SI", nbody::MassFactorSI }, { "ADK", nbody::MassFactorAuDayKg }, { "g1", 1 } };
	const Type& type(types[choose(S_WORK, 4)]);
	std::string t = state_text(nb, 1 + choose(S_WORK, 50), zeno ? "Zeno" : "G1");
	if(!zeno && choose(S_WORK, 2)) { t = "// a comment\n\n" + t + "// the end\n"; }
	disk::spit("state.txt", t);
	// fault-free oracle
	std::vector<Body> want;
	if(zeno)
	{
		std::vector<double> v;
		const char* c = t.c_str();
		for(;;) { char* e = nullptr; double x = strtod(c, &e); if(e == c) { break; } v.push_back(x); c = e; }
		for(size_t i = 0; i != nb; ++i)
		{
			Body b = Body();
			for(int k = 0; k != 3; ++k) { b.c[k] = v[3 + nb + 3 * i + static_cast<size_t>(k)]; b.c[3 + k] = v[3 + 4 * nb + 3 * i + static_cast<size_t>(k)]; }
			b.c[6] = v[3 + i];
			want.push_back(b);
		}
	}
	else { parse_state(t, want); for(Body& b : want) { b.c[6] *= type.mass; } }
	// a truncated file: Zeno files declare their body count
	bool cut = zeno && choose(S_FAULT, 3) == 2;
	if(cut)
	{
		size_t lines = static_cast<size_t>(std::count(t.begin(), t.end(), '\n'));
		size_t keep = choose(S_FAULT, static_cast<uint32_t>(lines));
		size_t at = 0;
		for(size_t i = 0; i != keep; ++i) { at = t.find('\n', at) + 1; }
		disk::spit("state.txt", t.substr(0, at));
		count("fault:file truncated");
	}
	else if(choose(S_FAULT, 4) == 3)		// a number that is none, or a line that ends early
	{
		const uint32_t lines = static_cast<uint32_t>(std::count(t.begin(), t.end(), '\n'));
		uint32_t at = choose(S_FAULT, lines);
		size_t b = 0;
		for(uint32_t i = 0; i != at; ++i) { b = t.find('\n', b) + 1; }
		size_t e = t.find('\n', b);
		std::string line = t.substr(b, e - b);
		if(!line.empty() && line.compare(0, 2, "//") != 0 && !(zeno && at == 2))		// the third line of a Zeno file is not used
		{
			std::vector<std::string> w;
			for(size_t q = 0; q <= line.size();) { size_t x = line.find(' ', q); if(x == std::string::npos) { x = line.size(); } w.push_back(line.substr(q, x - q)); q = x + 1; }
			if(choose(S_FAULT, 2) && w.size() > 1) { w.resize(choose(S_FAULT, static_cast<uint32_t>(std::min<size_t>(w.size(), 7)))); if(!zeno && w.empty()) { w.push_back("?"); } }
			else { std::string& x(w[choose(S_FAULT, static_cast<uint32_t>(w.size()))]); static const char* bad[] = { "@", "1.5e", "-", "1.2.3", "12x" }; x = bad[choose(S_FAULT, 5)]; }
			line.clear();
			for(size_t q = 0; q != w.size(); ++q) { line += (q ? " " : "") + w[q]; }
			disk::spit("state.txt", t.substr(0, b) + line + t.substr(e));
			event("line %u becomes <%s>", at, line.c_str());
			count("fault:line damaged");
			cut = true;
		}
	}
	disk::reset();
	draw_read_faults(disk::pol);
	disk::pol.max_ops = 20000;
	nbody_data d;
	if(choose(S_WORK, 2)) { d.make_universe(1, 5, 5, 5); }	// a set that held something before
	disk::start();
	bool ok = zeno ? (choose(S_WORK, 2) ? d.load_zeno_ascii("state.txt") : d.load_initial("state.txt", "Zeno")) : (type.mass == 1 && choose(S_WORK, 2) ? d.load("state.txt") : d.load_initial("state.txt", type.name));
	int64_t faults = disk::faults;
	disk::reset();
	event("load %s %zu bodies -> %d (faults %lld, cut %d)", zeno ? "zeno" : "table", nb, ok, static_cast<long long>(faults), cut);
	count(ok ? "loads that reported success" : "loads that reported failure");
	if(!ok) { if(!faults && !cut) { fail("load-refused", "an intact state file cannot be loaded"); } return; }
	if(cut) { fail("incomplete-load", "a truncated or damaged state file is loaded with success (%zu bodies)", d.get_count()); }
	std::string df = diff_bodies(d, want);
	if(!df.empty()) { fail("incomplete-load", "loading reported success (%lld faults): %s", static_cast<long long>(faults), df.c_str()); }
}
void c07_program()
{
	Prog p = draw_prog(true);
	if(p.state.empty()) { skip(); }
	Recording ref = reference(p);
	disk::reset();
	draw_read_faults(disk::pol);
	disk::pol.max_ops = 200000;
	disk::shared_faults() = 0;
	ProcResult r = run_prog(with(p.args, "--output=rec"), true);
	disk::reset();
	if(!r.exited) { fail("program-crash", "the program died of signal %d", r.signal); }
	event("program ended with %d", r.code);
	count(r.code ? "programs that reported failure" : "programs that reported success");
	if(r.code == 0) { Recording got = load_recording("rec"); compare_recordings(got, ref, true, false, "started-with-wrong-state", "initial state read under faults, success reported"); }
	else if(disk::shared_faults() == 0) { fail("program-failed", "the program fails with %d although no fault was injected", r.code); }
	else
	{
		Recording got = load_recording("rec");
		compare_recordings(got, ref, true, true, "started-with-wrong-state", "initial state read under faults");
	}
}
void run_c07()
{
	switch(choose(S_WORK, 5)) { case 0: case 1: c07_save(); break; case 2: case 3: c07_load(); break; default: c07_program(); break; }
}

// ------------------------------------------------------------------------------------------------ C08
struct Rec08 { int base; uint32_t spec; uint32_t first, frames; uint32_t opened; uint32_t started; uint32_t acked; uint32_t attempted; uint32_t append; };
void run_c08()
{
	const uint32_t nb = 1 + choose(S_WORK, 2);
	const char* names[] = { "a", "sub/b" };
	std::vector<Spec> sp;
	std::vector<Rec08> plan;
	uint32_t procs = 1 + choose(S_WORK, 3);
	std::vector<uint32_t> ends;
	uint32_t id = 0;
	for(uint32_t q = 0; q != procs; ++q)
	{
		uint32_t n = 1 + choose(S_WORK, 3);
		for(uint32_t k = 0; k != n; ++k)
		{
			Rec08 r = Rec08();
			r.base = static_cast<int>(choose(S_WORK, nb));
			sp.push_back(draw_spec());
			if(sp.back().nb == 700) { sp.back().nb = 6; }
			r.spec = static_cast<uint32_t>(sp.size() - 1);
			r.first = id;
			r.frames = choose(S_WORK, 9);		// none: the writer is opened and nothing recorded
			if(r.frames == 0 || r.frames == 8) { r.frames = r.frames == 0 ? 1 : 0; }
			id += 100;
			if(!plan.empty() && choose(S_WORK, 3) == 2)
			{
				// a recording that starts with the very step and time an earlier one ended with
				const Rec08& o(plan[choose(S_WORK, static_cast<uint32_t>(plan.size()))]);
				if(o.frames) { r.spec = o.spec; r.first = o.first + o.frames - 1; }
			}
			plan.push_back(r);
		}
		ends.push_back(static_cast<uint32_t>(plan.size()));
	}
	Rec08* sh = reinterpret_cast<Rec08*>(g->user);
	std::copy(plan.begin(), plan.end(), sh);
	int last[2] = { -1, -1 };
	std::vector<uint32_t> there[2];		// frames of the last recording under each name
	uint32_t at = 0;
	for(uint32_t q = 0; q != procs; ++q)
	{
		uint32_t end = ends[q];
		disk::reset();
		bool kill = choose(S_CRASH, 3) == 2;
		if(kill) { draw_kill(12 + 20 * (end - at)); }
		bool reuse = choose(S_WORK, 4) != 3;
		// the first recording of this process may go on with what is there under its name
		const int b0 = sh[at].base;
		if(last[b0] >= 0 && !there[b0].empty() && choose(S_WORK, 3) == 2) 
		{
			sh[at].append = 1;
			sh[at].spec = sh[last[b0]].spec;
			sh[at].first = id;
			id += 100;
			count("continued recordings");
			if(end - at > 1 && choose(S_WORK, 3) == 2)
			{
				// opened to go on and then used for a new recording of that very state
				sh[at].frames = 0;
				sh[at + 1].spec = sh[at].spec;
				sh[at + 1].first = there[b0].back();
			}
		}
		ProcResult pr = process([&] {
			disk::start();
			std::unique_ptr<nbody_data_stream> st(new nbody_data_stream);
			for(uint32_t i = at; i != end; ++i)
			{
				Rec08& r(sh[i]);
				const Spec& p(sp[r.spec]);
				if(!reuse) { st.reset(new nbody_data_stream); }
				nbody_data d;
				world::init_data(d, p.nb, p.box, p.salt);
				r.started = 1;
				event("recording %u base %s nb=%zu frames=%u reuse=%d", i, names[r.base], p.nb, r.frames, reuse);
				nbody_data_stream_reader rd;
				if(r.append && 0 != rd.load(names[r.base])) { return 4; }
				if(0 != st->open(names[r.base], p.part, r.append ? &rd : nullptr)) { return 5; }
				r.opened = 1;
				for(uint32_t k = 0; k != r.frames; ++k)
				{
					world::put_frame(d, p.frame(r.first + k));
					r.attempted = k + 1;
					if(0 != st->write(&d)) { return 6; }
					r.acked = k + 1;
				}
				if(choose(S_WORK, 2)) { st->close(); }
			}
			if(choose(S_WORK, 3) == 2) { _exit(0); }
			st.reset();
			return 0;
		});
		disk::reset();
		if(!pr.exited) { fail("recorder-crash", "the recording process died of signal %d", pr.signal); }
		if(!pr.killed && pr.code != 0) { fail("recorder-failed", "a new recording is refused without any fault (step %d); files: %s", pr.code, disk::listing().c_str()); }
		count(pr.killed ? "sessions killed" : "sessions completed");
		const uint32_t from = at;
		for(uint32_t i = at; i != end; ++i) { if(sh[i].started) { if(!(sh[i].append && !sh[i].opened)) { last[sh[i].base] = static_cast<int>(i); } } }
		at = end;
		for(uint32_t b = 0; b != nb; ++b)
		{
			if(last[b] < 0) { continue; }
			const Rec08& r(sh[last[b]]);
			if(!r.opened) { there[b].clear(); continue; }		// killed while taking over the name: neither recording is complete
			std::vector<Want> want;
			if(r.append && static_cast<uint32_t>(last[b]) >= from) { for(uint32_t id : there[b]) { want.push_back(Want{ id, true }); } }
			else if(static_cast<uint32_t>(last[b]) < from) { for(uint32_t id : there[b]) { want.push_back(Want{ id, true }); } }
			if(static_cast<uint32_t>(last[b]) >= from) { for(uint32_t k = 0; k != r.attempted; ++k) { want.push_back(Want{ r.first + k, k < r.acked }); } }
			there[b] = verify(names[b], sp[r.spec], want, "new recording", true, false);
			count("recordings verified");
		}
	}
}
// ------------------------------------------------------------------------------------------------ C09
// The program with failing allocations: it ends, says so, and what it recorded stays good.
void run_c09()
{
	if(!&alloc::pol) { skip(); }
	int64_t* total = reinterpret_cast<int64_t*>(g->user);
	Prog p = draw_prog(true);
	before_main = [] { alloc::seen = 0; alloc::active = true; };
	after_main = [total] { alloc::active = false; total[0] = alloc::seen; };
	Recording ref = reference(p);
	bool resumed = choose(S_WORK, 3) == 2 && ref.f.size() > 1;
	if(resumed)
	{
		ProcResult r = run_prog(with(with(p.args, "--output=rec"), fmt("--max_time=%.17g", p.dt * (choose(S_WORK, p.steps) + 0.5))), true);
		if(!r.exited || r.code != 0) { fail("reference", "the first part of the run ends with status %d, signal %d", r.code, r.signal); }
	}
	alloc::pol.persist = choose(S_FAULT, 3) == 2;
	static const int64_t sizes[] = { 0, 0, 64, 512 };
	alloc::pol.min_size = sizes[choose(S_FAULT, 4)];
	alloc::pol.fail_at = 1 + static_cast<int64_t>(choose(S_FAULT, static_cast<uint32_t>(std::max<int64_t>(1, total[0]))));
	if(choose(S_FAULT, 3) == 2) { alloc::pol.fail_at = 1 + choose(S_FAULT, 60); }
	before_main = [] { alloc::seen = 0; alloc::failed = 0; alloc::active = true; };
	after_main = [total] { alloc::active = false; };
	total[1] = 0;
	event("allocation %lld%s of %lld fails, from %lld bytes on, resumed=%d", static_cast<long long>(alloc::pol.fail_at), alloc::pol.persist ? " and all later ones" : "", static_cast<long long>(total[0]),
		  static_cast<long long>(alloc::pol.min_size), resumed);
	const std::string how = resumed ? "--resume=rec" : "--output=rec";
	std::string point = fmt("%lld %d %lld %s", static_cast<long long>(alloc::pol.fail_at), alloc::pol.persist, static_cast<long long>(alloc::pol.min_size), how.c_str());
	for(const auto& a : p.args) { point += " " + a; }
	sig(std::hash<std::string>()(point));
	ProcResult r = process([&] {
		disk::start();
		before_main();
		int rc = world::run_main(with(p.args, how));
		alloc::active = false;
		total[1] = alloc::failed;
		return rc;
	});
	disk::reset();
	alloc::pol = alloc::Policy();
	before_main = nullptr;
	after_main = nullptr;
	event("the program ends with status %d, signal %d", r.code, r.signal);
	if(r.exited && r.code == 97) { fail("memory-error", "a failed allocation makes the program access memory it does not have"); }
	if(!r.exited && r.signal != SIGABRT) { fail("memory-error", "a failed allocation ends the program with signal %d", r.signal); }
	Recording got = load_recording("rec");
	const bool good = r.exited && r.code == 0;
	count(good ? "programs that reported success" : r.exited ? "programs that reported failure" : "programs that ended by abort");
	if(good)
	{
		if(total[1]) { count("programs that went on after a failed allocation"); }
		compare_recordings(got, ref, !(resumed && p.history), false, "success-without-recording", "the program reported success");
		return;
	}
	if(resumed && got.load != 0) { fail("lost-by-failure", "the recording cannot be opened after the resumed run ran out of memory"); }
	compare_recordings(got, ref, !(resumed && p.history), true, "wrong-recording", "the program ran out of memory");
	// memory is there again: the run can be completed
	const bool again = got.load == 0 && !got.f.empty();
	ProcResult r2 = run_prog(with(p.args, again ? "--resume=rec" : "--output=rec"), true);
	disk::reset();
	if(!r2.exited || r2.code != 0) { fail("no-recovery", "the run cannot be completed after it ran out of memory (status %d, signal %d)", r2.code, r2.signal); }
	compare_recordings(load_recording("rec"), ref, !p.history, false, "resume-differs", "completed after running out of memory");
}
}

namespace sim {
void run_setup()
{
	world::quiet();
	disk::reset();
	simomp::reset();
}
#define REAL "nbody_data_stream, nbody_data_stream_reader, nbody_data, Qt file and text streams; kernel file system contents"
const Property properties[] = {
	{ "C01", run_c01, "process kill between and inside file operations (torn writes), abrupt exit without destructors", REAL, "system calls on the recording's files (intercepted, executed on a scratch tmpfs)",
	  "one run: up to four recording sessions (body count, part size, frame content, step and time drawn), each killed at a drawn file operation or inside a drawn write, each followed by a full read-back; non-trivial: a kill or abrupt exit happened or several sessions appended" },
	{ "C02", run_c02, "ENOSPC, EIO, EDQUOT, EFBIG on write, disk full with and without space coming back, short writes, EINTR, open failures; read, seek and truncate errors when a program resumes", REAL ", simulation program (test/main), solvers and CPU engines", "system calls on the recording's files; OpenMP runtime (one thread)",
	  "one run: recording sessions under a drawn fault policy, frames retried, skipped or given up, then read back; or the whole program under such a policy compared with its undisturbed run; non-trivial: at least one fault was injected" },
	{ "C03", run_c03, "process kill between and inside file operations, repeated, also while resuming; early end; other number of threads and part size on resume", REAL ", simulation program (test/main), solvers and CPU engines", "system calls on the recording's files; OpenMP runtime (one thread)",
	  "one run: the program with drawn engine, solver, bodies, steps and cadence, killed and resumed up to four times, compared frame by frame with its undisturbed run; non-trivial: at least one kill happened" },
	{ "C04", run_c04, "EIO, ESTALE, ENXIO on read and seek, short reads, EINTR, open failures, persistent and transient", REAL, "system calls on the recording's files",
	  "one run: one to three streams, one or two readers, 10 to 70 drawn operations under a drawn read-fault policy, then recovery; non-trivial: distinct operation and fault history" },
	{ "C05", run_c05, "writes that become visible in pieces; reader scheduled between and inside any two file operations of the writer", REAL, "system calls of the writer (the reader runs between them)",
	  "one run: a recorder interrupted at drawn file operations and inside drawn writes by readers that open the growing stream or read on; non-trivial: at least one live open or read" },
	{ "C06", run_c06, "bit flips, truncation, lost, duplicated and zeroed bytes, missing files, damaged index and header lines", REAL, "the contents of the recording's files",
	  "one run: a recording damaged by one to three drawn mutations, opened and read completely, compared with an independent parser; non-trivial: distinct damaged index or files" },
	{ "C07", run_c07, "ENOSPC, EIO, short writes and reads, EINTR, open failures, disk full, truncated files, damaged lines and numbers", "nbody_data save/load/load_zeno_ascii/load_initial, simulation program", "system calls on the state file",
	  "one run: a drawn body set saved, or a drawn state file (table or Zeno) loaded, or the program started from one, under a drawn fault policy; non-trivial: at least one fault was injected" },
	{ "C08", run_c08, "process kill between and inside file operations of an overwritten or continued recording", REAL, "system calls on the recording's files",
	  "one run: up to nine recordings over one or two base names by reused or new writers in up to three processes, some killed; each last recording read back; non-trivial: a base name or writer was reused" },
	{ "C09", run_c09, "one allocation fails, or that one and all later ones, also only those of at least 64 or 512 bytes", REAL ", simulation program (test/main), solvers and CPU engines", "malloc and operator new of the code under test; system calls on the recording's files; OpenMP runtime (one thread)",
	  "one run: the program with drawn engine, solver and steps (one in three resumed from an earlier part) in which a drawn allocation of its code fails, then completed with memory back; compared with its undisturbed run; non-trivial: an allocation failed" },
};
const size_t property_count = sizeof(properties) / sizeof(properties[0]);
}
