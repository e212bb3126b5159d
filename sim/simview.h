// Stands in for player/wgt_nbody_view.h (same include guard, same interface): an OpenGL view that only notes what it is given.
#ifndef WGT_NBODY_VIEW_H
#define WGT_NBODY_VIEW_H

#include <QWidget>
#include <QImage>
#include <QOpenGLWidget>
#include "nbody_solver.h"

class wgt_nbody_view : public QWidget
{
	Q_OBJECT
public:
	struct look_t { int stereo = 0; int intensity = 255; double size = 1; bool velocity = true; bool box = true; double scale = 1; };
	nbody_data*	m_data;
	look_t		m_look;
	look_t		m_shown_look;
	bool		m_dirty = false;
	explicit wgt_nbody_view(nbody_data*);
	~wgt_nbody_view();

	void set_stereo_base(int v) { m_look.stereo = v; }
	void set_star_intensity(int v) { m_look.intensity = v; }
	void set_star_size(double v) { m_look.size = v; }
	bool get_color_from_velosity() const { return m_look.velocity; }
	void set_color_from_velosity(bool v) { m_look.velocity = v; }
	void set_show_box(bool v) { m_look.box = v; }
	void set_scale(double v) { m_look.scale = v; }
	QImage render_to_image();
	void update() { m_dirty = true; }
	void repaint() { m_dirty = true; }
	void send_range(double a, double b, double c) { emit stars_size_range_changed(a, b, c); }
signals:
	void stars_size_range_changed(double, double, double);
};

#endif // WGT_NBODY_VIEW_H
