// Player properties C30 (image recorder) and C31 (player): real recorder, player and control under a simulated
// thread pool, clock, disk and user.
#include "simview.h"
#include "world.h"
#include "disk.h"
#include "simomp.h"
#include "simqt.h"
#include "wgt_nbody_player.h"
#include "wgt_nbody_player_control.h"
#include "nbody_frame_compressor_image.h"
#include "nbody_frame_compressor_opencv.h"
#include <algorithm>
#include <cstring>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <QAction>
#include <QApplication>
#include <QBuffer>
#include <QDir>
#include <QDoubleSpinBox>
#include <QFileDialog>
#include <QImageReader>
#include <QLabel>
#include <QPointer>
#include <QProgressDialog>
#include <QPushButton>
#include <QSlider>
#include <QSpinBox>
#include <unistd.h>

using namespace sim;

// a freed object keeps nothing a later use could mistake for it
void operator delete(void* p) noexcept { if(p && simqt::cfg.on) { memset(p, 0xDB, malloc_usable_size(p)); } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }

namespace {
// ------------------------------------------------------------------------------------------------ pictures
QImage picture(uint64_t id, int w, int h, QImage::Format f)
{
	QImage m(w, h, f);
	uint64_t s = mix(id, 0x1C);
	for(int y = 0; y != h; ++y) { for(int x = 0; x != w; ++x) { m.setPixelColor(x, y, QColor::fromRgb(static_cast<QRgb>(raw_rand(s)) | 0xFF000000u)); } }
	return m;
}
bool same_picture(const QImage& a, const QImage& b) { return !a.isNull() && a.convertToFormat(QImage::Format_ARGB32) == b.convertToFormat(QImage::Format_ARGB32); }
QImage load_picture(const std::string& path)
{
	std::string s = disk::slurp(path);
	QImage m;
	m.loadFromData(reinterpret_cast<const uchar*>(s.data()), static_cast<int>(s.size()), "PNG");
	return m;
}
std::string frame_file(const std::string& dir, size_t n) { char b[40]; snprintf(b, sizeof(b), "/%08zu.png", n); return dir + b; }
// the files below dir must be exactly the pictures given, except those in doubt (a write of theirs was made to fail)
void check_pictures(const std::string& dir, const std::map<size_t, QImage>& want, const std::set<std::string>& doubt)
{
	std::set<std::string> names;
	for(const auto& w : want)
	{
		std::string f = frame_file(dir, w.first);
		names.insert(f);
		if(doubt.count(f)) { count("pictures in doubt: their write failed"); continue; }
		if(!disk::exists(f)) { fail("picture-missing", "frame %zu was pushed and %s does not exist when the recording is over; files: %.600s", w.first, f.c_str(), disk::listing().c_str()); }
		QImage got = load_picture(f);
		if(!same_picture(got, w.second))
		{
			std::string which = "no frame's";
			for(const auto& o : want) { if(same_picture(got, o.second)) { which = "frame " + std::to_string(o.first) + "'s"; } }
			fail("wrong-picture", "%s holds %s picture", f.c_str(), which.c_str());
		}
		count("pictures compared");
	}
	for(const std::string& f : disk::files())
	{
		if(f.compare(0, dir.size() + 1, dir + "/") == 0 && !names.count(f)) { fail("stray-file", "%s was written although no such frame was pushed", f.c_str()); }
	}
}
std::set<std::string> doubt;
void watch_disk()
{
	doubt.clear();
	disk::pol.sched = [] { simqt::point(); };
	disk::pol.failed = [](const char* path) { doubt.insert(path); };
}

// ------------------------------------------------------------------------------------------------ C30
void run_c30()
{
	QImageReader::supportedImageFormats();
	simqt::cfg.on = true;
	simqt::cfg.threads = 1 + static_cast<int>(choose(S_WORK, 8));
	simqt::cfg.lazy = 1 << choose(S_SCHED, 7);
	static const char* dirs[] = { "out", "deep/er/out", "my movie", "run%1", "50%20", "out.d", "a%L1b", "%2/%1" };
	std::string dir = dirs[choose(S_WORK, 8)];
	bool exists = choose(S_WORK, 3) == 2;
	bool blocked = choose(S_WORK, 12) == 11;
	if(blocked) { disk::spit("out", "a file"); dir = choose(S_WORK, 2) ? "out" : "out/sub"; }
	else if(exists) { QDir().mkpath(QString::fromStdString(dir)); }
	bool faulty = !blocked && choose(S_FAULT, 4) == 3;
	uint32_t n = 1 + choose(S_WORK, choose(S_WORK, 3) == 2 ? 80 : 16);
	sim::event("dir %s threads=%d frames=%u blocked=%d faulty=%d", dir.c_str(), simqt::cfg.threads, n, blocked, faulty);
	watch_disk();
	if(faulty)
	{
		disk::pol.write_err = choose(S_FAULT, 2) ? 0.05 : 0;
		disk::pol.write_short = choose(S_FAULT, 2) ? 0.1 : 0;
		disk::pol.write_eintr = choose(S_FAULT, 2) ? 0.1 : 0;
		disk::pol.open_err = choose(S_FAULT, 3) == 2 ? 0.1 : 0;
		disk::pol.burst = choose(S_FAULT, 2) ? 0.5 : 0;
		if(choose(S_FAULT, 3) == 2) { disk::pol.budget = 200 + choose(S_FAULT, 8000); disk::pol.refill = 0.2; }
	}
	disk::start();
	std::map<size_t, QImage> want;
	static const QImage::Format formats[] = { QImage::Format_RGB32, QImage::Format_ARGB32, QImage::Format_RGB888, QImage::Format_ARGB32_Premultiplied };
	QImage::Format format = formats[choose(S_WORK, 4)];
	int w = 1 + static_cast<int>(choose(S_WORK, 24)), h = 1 + static_cast<int>(choose(S_WORK, 24));
	if(choose(S_WORK, 8) == 7) { w = 90; h = 70; }		// larger than one write
	{
		nbody_frame_compressor_image c;
		if(!c.set_destination(QString::fromStdString(dir)))
		{
			if(!blocked) { fail("refused", "the usable directory %s is refused", dir.c_str()); }
			count("unusable directories refused");
			return;
		}
		if(blocked) { fail("bad-directory-accepted", "%s cannot be a directory and is accepted", dir.c_str()); }
		uint64_t next = choose(S_WORK, 3) == 2 ? choose(S_WORK, 100000000) : 0;
		QImage canvas = picture(12345, w, h, format);
		for(uint32_t k = 0; k != n; ++k)
		{
			size_t number = static_cast<size_t>(next);
			next += choose(S_WORK, 10) == 9 ? 1 + choose(S_WORK, 40) : 1;
			bool own = choose(S_WORK, 3) != 2;
			QImage m = picture(number + 1, w, h, format);
			want[number] = m.copy();
			sim::event("push %zu", number);
			if(own) { canvas = m; m = QImage(); c.push_frame(canvas, number); canvas.fill(Qt::red); }	// the caller paints over its image at once
			else { c.push_frame(m, number); }
			size_t left = simqt::pending();
			if(left > 3 * static_cast<size_t>(simqt::cfg.threads) + 8) { fail("queue-unbounded", "%zu frames wait after a push with %d workers", left, simqt::cfg.threads); }
			for(uint32_t i = choose(S_SCHED, 4); i; --i) { simqt::point(); }
		}
		sim::event("end of recording");
	}
	// whatever is still unfinished now runs later, when the user already looks at the result
	disk::pol.active = false;
	check_pictures(dir, want, doubt);
	if(simqt::pending()) { fail("unfinished", "%zu frames are still being written when the recording is over", simqt::pending()); }
	count("recordings compared");
	count("pool:task switches", simqt::st.switches);
	count("pool:result polls", simqt::st.polls);
}

// ------------------------------------------------------------------------------------------------ C31
struct Rec { std::string dest; bool png = false; bool accepted = false, over = false, stopped = false, nested = false; std::vector<std::pair<size_t, QImage>> pushed; size_t rendered = 0; int64_t faults = 0; };
struct Ui {
	size_t nb = 0;
	std::vector<world::Frame> frames;
	nbody_data_stream_reader stream;
	QPointer<wgt_nbody_player> player;
	wgt_nbody_view* view = nullptr;
	std::vector<Rec> recs;
	std::vector<size_t> open;		// recordings in progress, innermost last
	int dialog = 0;					// a modal file dialog is open
	bool stale = false;				// the last attempt to show the timeline's frame met a fault
	bool calm = false;
	bool loaded = false;
	int depth = 0;
	int64_t nulls = 0;
	int shown = -2;
	int expect = 0;
	uint64_t salt = 0;
	double box = 0;
};
Ui* ui = nullptr;

int which(const nbody_data& d)
{
	for(size_t k = 0; k != ui->frames.size(); ++k) { if(world::diff_frame(d, ui->frames[k]).empty()) { return static_cast<int>(k); } }
	return -1;
}
QImage shot(const world::Frame& f)
{
	uint64_t h = f.step + 1;
	for(size_t i = 0; i != f.r.size(); ++i)
	{
		uint64_t b[6];
		memcpy(b, &f.r[i], 24);
		memcpy(b + 3, &f.v[i], 24);
		for(uint64_t x : b) { h = mix(h, x); }
	}
	return picture(h, 7, 5, QImage::Format_RGB32);
}
wgt_nbody_player_control* control() { return ui->player->findChild<wgt_nbody_player_control*>(); }
QSlider* slider(const char* tip)
{
	for(QSlider* s : ui->player->findChildren<QSlider*>()) { if(s->toolTip() == tip) { return s; } }
	return nullptr;
}
struct Driver : QObject {
	std::function<void()> next;
	bool event(QEvent* e) override
	{
		if(e->type() != QEvent::User || !next) { return QObject::event(e); }
		std::function<void()> f;
		f.swap(next);
		f();
		return true;
	}
};
Driver* driver = nullptr;
void post(const std::function<void()>& f) { driver->next = f; QCoreApplication::postEvent(driver, new QEvent(QEvent::User)); }

void tick()
{
	static const double steps[] = { 0.016, 0.001, 0.005, 0.017, 0.04, 0.1, 0.5, 1, 5, 20, 3600 };
	double dt = steps[choose(S_CLOCK, 11)];
	sim::event("tick %g", dt);
	simqt::advance(dt);
}
void toggle(const char* text)
{
	for(QAction* a : ui->player->findChildren<QAction*>())
	{
		if(a->text() == text) { sim::event("action %s%s", text, a->isEnabled() ? "" : " (disabled)"); a->trigger(); return; }
	}
	fail("harness", "no action %s", text);
}
QProgressDialog* progress()
{
	for(QWidget* w : QApplication::topLevelWidgets()) { if(QProgressDialog* p = qobject_cast<QProgressDialog*>(w)) { if(p->isVisible()) { return p; } } }
	return nullptr;
}
void user_action()
{
	if(!ui->player) { return; }
	if(ui->dialog) { return; }
	QWidget* modal = QApplication::activeModalWidget();
	bool blocked = modal && modal != ui->player;
	uint32_t what = choose(S_UI, 19);
	if(QProgressDialog* p = what == 14 || (blocked && what < 3) ? progress() : nullptr)
	{
		sim::event("cancel");
		count("fault:recording cancelled");
		for(size_t i : ui->open) { ui->recs[i].stopped = true; }
		if(QPushButton* b = p->findChild<QPushButton*>()) { b->click(); } else { p->close(); }
		return;
	}
	if(blocked) { sim::event("input blocked by a modal window"); return; }
	QSlider* t = slider("Timeline");
	if(!t) { fail("harness", "no timeline"); }
	int max = static_cast<int>(ui->frames.size()) - 1;
	switch(what)
	{
	case 0: toggle("Start"); break;
	case 1: toggle("Pause"); break;
	case 2: toggle("<Backward"); break;
	case 3: toggle("Stop"); break;
	case 4: toggle("Forward>"); break;
	case 5: case 6:
		if(ui->open.size() < 2) { toggle("Record*"); }
		break;
	case 7:
	{
		sim::event("drag");
		t->setSliderDown(true);
		for(uint32_t k = 1 + choose(S_UI, 3); k && ui->player; --k) { int x = static_cast<int>(choose(S_UI, static_cast<uint32_t>(max + 3))) - 1; sim::event("drag to %d", x); t->setSliderPosition(x); }
		t->setSliderDown(false);
		break;
	}
	case 8:
	{
		static const QAbstractSlider::SliderAction acts[] = { QAbstractSlider::SliderPageStepAdd, QAbstractSlider::SliderPageStepSub, QAbstractSlider::SliderSingleStepAdd, QAbstractSlider::SliderSingleStepSub, QAbstractSlider::SliderToMinimum, QAbstractSlider::SliderToMaximum };
		uint32_t a = choose(S_UI, 6);
		sim::event("slider action %u", a);
		t->triggerAction(acts[a]);
		break;
	}
	case 9: case 10: { int x = static_cast<int>(choose(S_UI, static_cast<uint32_t>(max + 5))) - 2; sim::event("slider to %d", x); t->setValue(x); break; }
	case 11: case 16: case 17: case 18:
	{
		uint32_t c = choose(S_UI, 5), v = choose(S_UI, 120);
		sim::event("setting %u %u", c, v);
		if(c == 0) { if(QSlider* s = slider("Stereo base")) { s->setValue(static_cast<int>(v)); } }
		if(c == 1) { for(QSpinBox* s : ui->player->findChildren<QSpinBox*>()) { if(s->toolTip() == "Stars intensity") { s->setValue(static_cast<int>(v)); } } }
		if(c == 2) { for(QDoubleSpinBox* s : ui->player->findChildren<QDoubleSpinBox*>()) { if(s->toolTip() == "Stars size") { s->setValue(v); } } }
		if(c == 3) { for(QDoubleSpinBox* s : ui->player->findChildren<QDoubleSpinBox*>()) { if(s->toolTip() == "View scale") { s->setValue(v + 1); } } }
		if(c == 4) { toggle(v % 2 ? "Show box" : "Color from velosity"); }
		break;
	}
	case 12: { sim::event("star size range"); double top = 2 + choose(S_UI, 60); ui->view->send_range(1, top, 0.5); break; }
	case 13:
		if(choose(S_UI, 3) == 2) { sim::event("close"); ui->player->close(); }
		break;
	default: break;
	}
}
void nested()
{
	if(ui->calm) { return; }
	uint32_t k = choose(S_UI, 4);
	if(k == 0 || k == 1) { return; }
	if(k == 2) { tick(); return; }
	if(!driver->next) { count("actions during a recording"); post([] { user_action(); }); }
}
void finish_recording(size_t i)
{
	Rec& r(ui->recs[i]);
	r.over = true;
	r.faults += disk::faults;
	auto at = std::find(ui->open.begin(), ui->open.end(), i);
	if(at != ui->open.end()) { ui->open.erase(at); }
}
void check_recording(Rec& r)
{
	if(!r.accepted) { return; }
	std::vector<std::pair<size_t, QImage>> got = r.pushed;
	if(r.png)
	{
		for(size_t k = 0; disk::exists(frame_file(r.dest, k)); ++k) { got.push_back(std::make_pair(k, load_picture(frame_file(r.dest, k)))); }
		size_t files = 0;
		for(const std::string& f : disk::files()) { files += f.compare(0, r.dest.size() + 1, r.dest + "/") == 0; }
		if(files != got.size()) { fail("recording-gap", "the recording %s holds %zu files and only %zu of them are a sequence from the first frame on: %.500s", r.dest.c_str(), files, got.size(), disk::listing().c_str()); }
	}
	bool full = !r.stopped && r.faults == 0;
	for(size_t k = 0; k != got.size(); ++k)
	{
		if(got[k].first != k) { fail("recording-order", "the recording's picture number %zu was pushed as frame %zu", k, got[k].first); }
		if(k >= ui->frames.size()) { fail("recording-length", "the recording has more than the stream's %zu frames", ui->frames.size()); }
		if(!same_picture(got[k].second, shot(ui->frames[k])))
		{
			int w = -1;
			for(size_t j = 0; j != ui->frames.size(); ++j) { if(same_picture(got[k].second, shot(ui->frames[j]))) { w = static_cast<int>(j); } }
			fail("recording-content", "picture %zu of the recording shows frame %d of the stream", k, w);
		}
		count("recorded pictures compared");
	}
	if(full && got.size() != ui->frames.size()) { fail("recording-length", "an undisturbed recording holds %zu of %zu frames", got.size(), ui->frames.size()); }
	if(!r.nested && got.size() != r.rendered) { fail("recording-length", "%zu frames were rendered for the recording and %zu recorded", r.rendered, got.size()); }
	count(full ? "complete recordings compared" : "partial recordings compared");
}
// control is back in the event loop
void check_now(int64_t faults)
{
	for(size_t i = 0; i != ui->recs.size(); ++i) { if(!ui->recs[i].over) { finish_recording(i); } }
	for(Rec& r : ui->recs) { if(r.over && r.accepted) { check_recording(r); r.accepted = false; } }
	if(!ui->player) { return; }
	if(simqt::pending()) { fail("unfinished", "%zu pictures are still being written when the recording is over", simqt::pending()); }
	wgt_nbody_player_control* c = control();
	QSlider* t = slider("Timeline");
	size_t cur = c->get_current_frame();
	if(cur >= ui->frames.size()) { fail("timeline-range", "the current frame is %zu of %zu", cur, ui->frames.size()); }
	if(t->value() != static_cast<int>(cur)) { fail("timeline-range", "the timeline stands at %d and the control reports frame %zu", t->value(), cur); }
	char label[24];
	snprintf(label, sizeof(label), "F%08zu", cur);
	for(QLabel* l : ui->player->findChildren<QLabel*>())
	{
		if(l->text().startsWith('F') && l->text().size() == 9 && l->text() != label) { fail("label", "the label says %s at frame %zu", l->text().toUtf8().constData(), cur); }
	}
	if(ui->view->m_dirty)
	{
		ui->view->m_dirty = false;
		ui->shown = which(*ui->view->m_data);
		ui->view->m_shown_look = ui->view->m_look;
		bool blank = true;
		for(size_t i = 0; i != ui->nb; ++i)
		{
			const nbvertex_t& r(ui->view->m_data->get_vertites()[i]);
			const nbvertex_t& v(ui->view->m_data->get_velosites()[i]);
			blank &= r.length() == 0 && v.length() == 0;
		}
		if(ui->shown >= 0) { ui->loaded = true; }
		else if(!ui->loaded && blank && disk::faults) { ui->shown = -2; }	// no frame could be read so far
		else { fail("mixed-frame", "the bodies shown are not those of any frame of the stream (timeline at %zu)", cur); }
		if(disk::faults == 0)
		{
			std::string d = world::diff_masses(*ui->view->m_data, ui->nb, ui->salt);
			if(d.empty()) { d = world::diff_colors(*ui->view->m_data, ui->nb, ui->salt); }
			if(!d.empty()) { fail("mixed-frame", "the bodies shown are not the stream's: %s", d.c_str()); }
		}
	}
	bool met_fault = disk::faults != faults;
	if(met_fault) { ui->stale = true; }
	else if(static_cast<int>(cur) != ui->expect) { ui->stale = false; }
	ui->expect = static_cast<int>(cur);
	if(!ui->stale && ui->shown != static_cast<int>(cur)) { fail("wrong-frame", "the timeline names frame %zu and frame %d is shown", cur, ui->shown); }
	if(ui->shown == -2 && !ui->stale) { fail("wrong-frame", "no frame is shown"); }
	if(!ui->stale) { count("shown frames compared"); }
	const wgt_nbody_view::look_t& k(ui->view->m_shown_look);
	if(ui->shown >= 0 && (k.stereo != c->get_stereo_base() || k.intensity != c->get_star_intensity() || k.size != c->get_star_size() || k.velocity != c->get_color_from_velosity() || k.box != c->get_show_box() || k.scale != c->get_scale()))
	{
		fail("stale-setting", "the view does not use the controls' settings");
	}
	sim::event("at frame %zu showing %d", cur, ui->shown);
}
void settle() { for(int i = 0; i != 3; ++i) { QCoreApplication::processEvents(); } }

void run_c31()
{
	simqt::cfg.on = true;
	simqt::cfg.threads = 1 + static_cast<int>(choose(S_WORK, 4));
	simqt::cfg.lazy = 1 << choose(S_SCHED, 5);
	Ui u;
	ui = &u;
	u.nb = 1 + choose(S_WORK, 12);
	u.salt = 1 + choose(S_WORK, 100);
	u.box = 100;
	uint32_t nf = 1 + choose(S_WORK, choose(S_WORK, 6) == 5 ? 120 : 14);
	sim::event("bodies %zu frames %u threads %d", u.nb, nf, simqt::cfg.threads);
	{
		nbody_data d;
		world::init_data(d, u.nb, u.box, u.salt);
		nbody_data_stream w;
		size_t limit = choose(S_WORK, 2) ? 1 + choose(S_WORK, 1000) : 1 << 30;
		if(0 != w.open("movie", limit)) { fail("harness", "cannot write a stream"); }
		for(uint32_t k = 0; k != nf; ++k)
		{
			u.frames.push_back(world::make_frame(k + 1, u.nb, k * 3, k * 0.5, false));
			world::put_frame(d, u.frames.back());
			if(0 != w.write(&d)) { fail("harness", "cannot write a frame"); }
		}
	}
	if(0 != u.stream.load("movie")) { fail("harness", "cannot load the stream"); }
	Driver drv;
	driver = &drv;
	watch_disk();
	bool faulty = choose(S_FAULT, 2) != 0;
	if(faulty)
	{
		static const double ps[] = { 0.02, 0.1, 0.4 };
		disk::pol.read_err = choose(S_FAULT, 2) ? ps[choose(S_FAULT, 3)] : 0;
		disk::pol.read_short = choose(S_FAULT, 2) ? ps[choose(S_FAULT, 3)] : 0;
		disk::pol.read_eintr = choose(S_FAULT, 2) ? 0.1 : 0;
		disk::pol.seek_err = choose(S_FAULT, 3) == 2 ? ps[choose(S_FAULT, 3)] : 0;
		disk::pol.open_err = choose(S_FAULT, 3) == 2 ? ps[choose(S_FAULT, 3)] : 0;
		disk::pol.burst = choose(S_FAULT, 2) ? 0.6 : 0;
		disk::pol.applies = [](const char* path) { return strncmp(path, "movie", 5) == 0; };
	}
	disk::start();
	u.player = new wgt_nbody_player(&u.stream, "PLV");
	u.view = u.player->findChild<wgt_nbody_view*>();
	if(!u.view) { fail("harness", "no view"); }
	u.player->show();
	settle();
	check_now(0);
	uint32_t n = 2 + choose(S_WORK, sim::thorough() ? 60 : 30);
	for(uint32_t k = 0; k != n && u.player; ++k)
	{
		int64_t f0 = disk::faults;
		if(choose(S_UI, 2)) { tick(); settle(); }
		else { post([] { user_action(); }); settle(); }
		check_now(f0);
		count("user actions and ticks");
	}
	// the faults stop: the player recovers
	u.calm = true;
	disk::pol.read_err = disk::pol.read_short = disk::pol.read_eintr = disk::pol.seek_err = disk::pol.open_err = disk::pol.burst = 0;
	if(u.player)
	{
		int64_t f0 = disk::faults;
		post([] { toggle("Pause"); });
		settle();
		check_now(f0);
		int max = static_cast<int>(nf) - 1;
		for(int to : { max, 0, static_cast<int>(choose(S_UI, nf)), max / 2 })
		{
			f0 = disk::faults;
			post([to] { slider("Timeline")->setValue(to); });
			settle();
			if(!u.player) { fail("harness", "the player is gone"); }
			if(slider("Timeline")->value() != to) { fail("timeline-range", "the timeline does not go to frame %d", to); }
			check_now(f0);
		}
		if(max > 0 && u.stale) { fail("no-recovery", "the player does not show the timeline's frame after the faults have stopped"); }
		if(choose(S_UI, 3) == 2)
		{
			f0 = disk::faults;
			post([] { toggle("Record*"); });
			settle();
			check_now(f0);
		}
		post([] { ui->player->close(); });
		settle();
		if(u.player) { fail("not-closed", "the window cannot be closed when no recording is in progress"); }
	}
	count("pool:task switches", simqt::st.switches);
}
}

wgt_nbody_view::wgt_nbody_view(nbody_data* d) : m_data(d) {}
wgt_nbody_view::~wgt_nbody_view() {}
QImage wgt_nbody_view::render_to_image()
{
	simqt::advance(0.001 * (1 + choose(S_CLOCK, 200)));
	int k = which(*m_data);
	sim::event("render frame %d", k);
	if(k < 0) { fail("mixed-frame", "bodies are rendered that are not those of any frame of the stream"); }
	Rec* r = ui->open.empty() ? nullptr : &ui->recs[ui->open.back()];
	if(!ui->calm && choose(S_FAULT, 200) == 199)
	{
		count("fault:rendering fails");
		sim::event("FAULT rendering fails");
		for(size_t i : ui->open) { ui->recs[i].stopped = true; }
		return QImage();
	}
	if(r) { ++r->rendered; }
	nested();
	return shot(ui->frames[static_cast<size_t>(k)]);
}
// the encoder for films: notes what it is given
struct nbody_frame_compressor_opencv::data { size_t rec; };
nbody_frame_compressor_opencv::nbody_frame_compressor_opencv() : d(new data) { d->rec = ui->recs.size() - 1; }
nbody_frame_compressor_opencv::~nbody_frame_compressor_opencv() { sim::event("film finished"); finish_recording(d->rec); delete d; }
bool nbody_frame_compressor_opencv::set_destination(const QString& s)
{
	if(!ui->calm && choose(S_FAULT, 10) == 9) { count("fault:film cannot be created"); sim::event("FAULT film refused"); return false; }
	sim::event("film %s", s.toUtf8().constData());
	ui->recs[d->rec].accepted = true;
	return true;
}
void nbody_frame_compressor_opencv::push_frame(const QImage& f, size_t n) { sim::event("film frame %zu", n); ui->recs[d->rec].pushed.push_back(std::make_pair(n, f.copy())); }

QString QFileDialog::getSaveFileName(QWidget*, const QString&, const QString&, const QString& filter, QString* selected, Options)
{
	QStringList f = filter.split('\n');
	Rec r;
	r.png = choose(S_UI, 2) != 0;
	++ui->dialog;
	for(uint32_t k = ui->calm ? 0 : choose(S_UI, 3); k; --k) { tick(); QCoreApplication::processEvents(); }
	--ui->dialog;
	if(!ui->calm && choose(S_UI, 10) == 9) { sim::event("dialog cancelled"); return QString(); }
	for(const QString& x : f) { if(selected && x.contains(r.png ? "png" : "avi")) { *selected = x; } }
	r.nested = !ui->open.empty();
	if(r.nested) { for(size_t i : ui->open) { ui->recs[i].nested = true; } }
	r.faults = -disk::faults;
	r.dest = "rec" + std::to_string(ui->recs.size());
	if(r.png && !ui->calm && choose(S_UI, 8) == 7) { disk::spit(r.dest, "in the way"); }	// not usable as a directory
	else { r.accepted = r.png; }
	sim::event("record to %s %s", r.dest.c_str(), r.png ? "png" : "avi");
	ui->recs.push_back(r);
	ui->open.push_back(ui->recs.size() - 1);
	return QString::fromStdString(r.dest);
}

namespace sim {
void worker_setup()
{
	static int argc = 1;
	static char name[] = "nbody-player";
	static char* argv[] = { name, nullptr };
	setenv("QT_NO_GLIB", "1", 1);
	world::quiet();
	new QApplication(argc, argv);
	QApplication::setQuitOnLastWindowClosed(false);
}
void run_setup()
{
	if(!g->tracing) { if(!freopen("/dev/null", "w", stderr)) { _exit(3); } }	// the picture library complains there about injected errors
	world::quiet();
	disk::reset();
	simomp::reset();
	simqt::reset();
}
const Property properties[] = {
	{ "C30", run_c30, "worker tasks delayed, interleaved at every file operation, 1 to 8 workers; write errors, short writes, full disk on single pictures; unusable directories", "nbody_frame_compressor_image, QtConcurrent, Qt's PNG encoder", "QThreadPool, QFuture waiting (simulated: tasks are fibers), system calls on files",
	  "one run: drawn directory, worker count, pictures and pushes under a drawn interleaving; non-trivial: tasks of several workers interleaved with the caller" },
	{ "C31", run_c31, "clock ticks of 1 ms to 1 h at any point, user actions also during a recording, recordings cancelled, refused or failing to render, window closed, read errors, short reads, seek and open errors on the stream", "wgt_nbody_player, wgt_nbody_player_control, nbody_data_stream_reader, nbody_frame_compressor_image, Qt widgets, animations and event loop", "OpenGL view (notes the bodies and settings it is given), film encoder (notes the frames), file dialog, thread pool, clock, system calls on files",
	  "one run: a drawn stream and a drawn history of user actions, ticks and faults; non-trivial: distinct interleaving and fault signature" },
};
const size_t property_count = sizeof(properties) / sizeof(properties[0]);
}
