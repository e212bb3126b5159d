From 409a3911cd373601f648ead260ca1f0b6fe0ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 01/27] fix: report frames that could not be flushed to disk as
 failed

nbody_data_stream::write ignored the results of flushing the data, colour
and mass files and the state of the index stream, so on a full disk frames
were acknowledged that were never stored.
---
 nbody/nbody_data_stream.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..b117e94 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -75,6 +75,11 @@ struct nbody_data_stream::data
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
 			}
+			if(!col.flush())
+			{
+				qDebug() << "Can't flush file" << col.fileName() << col.errorString();
+				return -1;
+			}
 		}
 		{
 			QFile	mass(make_mass_name(m_base_name));
@@ -89,6 +94,11 @@ struct nbody_data_stream::data
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
 			}
+			if(!mass.flush())
+			{
+				qDebug() << "Can't flush file" << mass.fileName() << mass.errorString();
+				return -1;
+			}
 		}
 		m_header_written = true;
 		return 0;
@@ -149,7 +159,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't flush file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
@@ -158,6 +173,13 @@ int nbody_data_stream::write(const nbody_data* bdata)
 
 	d->m_idx_stream.flush();
 
+	if(d->m_idx_stream.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName() << d->m_idx.errorString();
+		d->m_idx_stream.resetStatus();
+		return -1;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From 243ca85541b3d9a68c5e4504ce8168dd8bbedbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 02/27] fix: store frame times with full precision in the
 stream index

Times were written with six digits: reading gave another time than the one
recorded and a resumed simulation went on from a wrong time.
---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index b117e94..790d746 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -54,6 +54,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.setRealNumberPrecision(15);
 		return 0;
 	}
 
-- 
2.43.0


From 6598c572e3b40e07a115af7879dfbac7eadefce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 03/27] fix: write a header for every new recording of a reused
 stream writer

The second recording of one nbody_data_stream had no header, masses and
colours and could not be opened.
---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 790d746..3ef95a3 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -201,6 +201,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From c19dd11891222868483b828d0d83229821b89923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 04/27] fix: always position the stream reader on the frame it
 is about to read

seek() returned early when the requested frame was already current, so after
a failed or short read the following read() started in the middle of a frame,
and reading the last frame twice returned garbage or an error. A failed open
of the next part also left the current frame unchanged, so that the frame just
read was returned again.
---
 nbody/nbody_data_stream_reader.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..59f05bc 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -221,11 +221,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -243,6 +238,7 @@ int nbody_data_stream_reader::seek(size_t frame)
 			qDebug() << "Can't open file" << d->m_file.fileName() << d->m_file.errorString();
 			return -1;
 		}
+		d->m_file_n = i.file_n;
 	}
 
 	if(!d->m_file.seek(i.file_pos))
@@ -327,11 +323,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 	bdata->set_step(frame.step);
 	if(d->m_current_frame < d->m_frames.size() - 1)
 	{
-		if(0 != seek(d->m_current_frame + 1))
-		{
-			qDebug() << "Seek to frame #" << d->m_current_frame + 1
-					 << "failed, but current #" << d->m_current_frame << "is OK";
-		}
+		++d->m_current_frame;
 	}
 
 	if(!d->m_colors_read)
-- 
2.43.0


From dbbc3e7857bf4884230604ce7376178ffc0ff27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 05/27] fix: give every frame read from a stream its masses and
 colours

The masses and colours went only into the buffer of the first read() after the
reader was created: later reads into other buffers and streams loaded later
into the same reader got none, and a frame whose masses could not be read was
reported as read. The header of the previously loaded stream was kept as well.
---
 nbody/nbody_data_stream_reader.cpp | 56 ++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 59f05bc..8bfb3ef 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -1,6 +1,7 @@
 #include "nbody_data_stream_reader.h"
 #include "nbody_data_stream.h"
 #include "nbody_engine.h"
+#include <algorithm>
 #include <vector>
 #include <map>
 #include <limits>
@@ -31,6 +32,8 @@ struct nbody_data_stream_reader::data
 	size_t						m_box_size;
 	bool						m_colors_read;
 	bool						m_masses_read;
+	std::vector<nbcolor_t>		m_colors;
+	std::vector<nbcoord_t>		m_masses;
 	data() :
 		m_file_n(std::numeric_limits<size_t>::max()),
 		m_current_frame(std::numeric_limits<size_t>::max()),
@@ -71,7 +74,7 @@ struct nbody_data_stream_reader::data
 		}
 	}
 
-	int read_colors(nbody_data* bdata)
+	int read_colors()
 	{
 		QFile	col(nbody_data_stream::make_col_name(m_file_base_name));
 		if(!col.open(QFile::ReadOnly))
@@ -79,8 +82,9 @@ struct nbody_data_stream_reader::data
 			qDebug() << "Can't open file" << col.fileName() << col.errorString();
 			return -1;
 		}
-		qint64		col_sz(sizeof(nbcolor_t)*bdata->get_count());
-		if(col_sz != col.read(reinterpret_cast<char*>(bdata->get_color()), col_sz))
+		m_colors.resize(m_body_count);
+		qint64		col_sz(sizeof(nbcolor_t)*m_colors.size());
+		if(col_sz != col.read(reinterpret_cast<char*>(m_colors.data()), col_sz))
 		{
 			qDebug() << "Can't read file" << col.fileName() << col.errorString();
 			return -1;
@@ -88,7 +92,7 @@ struct nbody_data_stream_reader::data
 		return 0;
 	}
 
-	int read_masses(nbody_data* bdata)
+	int read_masses()
 	{
 		QFile	mass(nbody_data_stream::make_mass_name(m_file_base_name));
 		if(!mass.open(QFile::ReadOnly))
@@ -96,8 +100,9 @@ struct nbody_data_stream_reader::data
 			qDebug() << "Can't open file" << mass.fileName() << mass.errorString();
 			return -1;
 		}
-		qint64		mass_sz(sizeof(nbcoord_t)*bdata->get_count());
-		if(mass_sz != mass.read(reinterpret_cast<char*>(bdata->get_mass()), mass_sz))
+		m_masses.resize(m_body_count);
+		qint64		mass_sz(sizeof(nbcoord_t)*m_masses.size());
+		if(mass_sz != mass.read(reinterpret_cast<char*>(m_masses.data()), mass_sz))
 		{
 			qDebug() << "Can't read file" << mass.fileName() << mass.errorString();
 			return -1;
@@ -194,6 +199,11 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
+	d->m_colors_read = false;
+	d->m_masses_read = false;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
@@ -302,6 +312,22 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
+	if(!d->m_masses_read)
+	{
+		d->m_masses_read = (0 == d->read_masses());
+	}
+
+	if(!d->m_masses_read)
+	{
+		qDebug() << "Can't read masses";
+		return -1;
+	}
+
+	if(!d->m_colors_read)
+	{
+		d->m_colors_read = (0 == d->read_colors());
+	}
+
 	qint64				fpos(d->m_file.pos());
 	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
 	const data::item&	frame(d->m_frames[ d->m_current_frame ]);
@@ -319,6 +345,11 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
+	std::copy(d->m_masses.begin(), d->m_masses.end(), bdata->get_mass());
+	if(d->m_colors_read)
+	{
+		std::copy(d->m_colors.begin(), d->m_colors.end(), bdata->get_color());
+	}
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
 	if(d->m_current_frame < d->m_frames.size() - 1)
@@ -326,19 +357,6 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		++d->m_current_frame;
 	}
 
-	if(!d->m_colors_read)
-	{
-		d->m_colors_read = (0 == d->read_colors(bdata));
-	}
-
-	if(!d->m_masses_read)
-	{
-		d->m_masses_read = (0 == d->read_masses(bdata));
-	}
-
-
 	return 0;
 }
 
-
-
-- 
2.43.0


From 191e802b8ec28beb5c3c530d31f4650d97631606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 06/27] fix: do not take a partly read or partly written stream
 index for a whole one

An error while reading the index was taken for its end, so the frames behind
it vanished, and a last line cut short by a crash was either parsed as another
file position or made the whole stream unreadable.
---
 nbody/nbody_data_stream_reader.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 8bfb3ef..d8df1f0 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -132,7 +132,25 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		return -1;
 	}
 
-	QTextStream	stream(&idx);
+	QByteArray	content;
+	for(;;)
+	{
+		const QByteArray	chunk(idx.read(64 * 1024));
+		if(chunk.isEmpty())
+		{
+			break;
+		}
+		content += chunk;
+	}
+	if(idx.error() != QFile::NoError)
+	{
+		qDebug() << "Can't read index file" << idx.fileName() << idx.errorString();
+		return -1;
+	}
+	// A line without terminator is not (completely) written yet
+	content.truncate(content.lastIndexOf('\n') + 1);
+
+	QTextStream	stream(content);
 
 	while(!stream.atEnd())
 	{
-- 
2.43.0


From 1fdf617c2e41365b71041ef2e66b3d9b107411c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 07/27] fix: do not append frames to a stream index line cut
 short by a crash

---
 nbody/nbody_data_stream.cpp | 42 +++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 3ef95a3..1c612a3 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -40,12 +40,54 @@ struct nbody_data_stream::data
 		return 0;
 	}
 
+	//! Remove the incomplete last line which an interrupted writer left behind
+	int repair_index_file()
+	{
+		QFile	idx(make_idx_name(m_base_name));
+		if(!idx.open(QFile::ReadWrite))
+		{
+			qDebug() << "Can't open file" << idx.fileName() << idx.errorString();
+			return -1;
+		}
+		qint64	complete(0);
+		for(;;)
+		{
+			const qint64		pos(idx.pos());
+			const QByteArray	chunk(idx.read(64 * 1024));
+			if(chunk.isEmpty())
+			{
+				break;
+			}
+			const int			end(chunk.lastIndexOf('\n'));
+			if(end >= 0)
+			{
+				complete = pos + end + 1;
+			}
+		}
+		if(idx.error() != QFile::NoError)
+		{
+			qDebug() << "Can't read file" << idx.fileName() << idx.errorString();
+			return -1;
+		}
+		if(complete != idx.size() && !idx.resize(complete))
+		{
+			qDebug() << "Can't truncate file" << idx.fileName() << idx.errorString();
+			return -1;
+		}
+		return 0;
+	}
+
 	int open_index_file(bool append)
 	{
 		if(m_idx.isOpen())
 		{
 			m_idx.close();
 		}
+		if(append && 0 != repair_index_file())
+		{
+			qDebug() << "Can't repair_index_file()";
+			return -1;
+		}
 		m_idx.setFileName(make_idx_name(m_base_name));
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
 		if(!m_idx.open(openmode))
-- 
2.43.0


From a86476916b2e7f3ed9fa8f59d625a52d2801737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 08/27] fix: restore the box size of a stream, resumed runs
 clamp to it

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data.h                 | 1 +
 nbody/nbody_data_stream_reader.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..6b5e26d 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -245,6 +245,11 @@ size_t nbody_data::get_box_size() const
 	return m_box_size;
 }
 
+void nbody_data::set_box_size(size_t box_size)
+{
+	m_box_size = box_size;
+}
+
 size_t nbody_data::get_count() const
 {
 	return m_count;
diff --git a/nbody/nbody_data.h b/nbody/nbody_data.h
index 86609ad..bb252ac 100644
--- a/nbody/nbody_data.h
+++ b/nbody/nbody_data.h
@@ -56,6 +56,7 @@ public:
 	nbcolor_t* get_color();
 	const nbcolor_t* get_color() const;
 	size_t get_box_size() const;
+	void set_box_size(size_t box_size);
 	void print_statistics(nbody_engine*);
 	void dump_body(size_t n);
 	bool resize(size_t);
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index d8df1f0..f2f5b03 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -368,6 +368,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 	{
 		std::copy(d->m_colors.begin(), d->m_colors.end(), bdata->get_color());
 	}
+	bdata->set_box_size(d->m_box_size);
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
 	if(d->m_current_frame < d->m_frames.size() - 1)
-- 
2.43.0


From 089ca31150ecea43fb65a563137d08cb9ffac108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 09/27] fix: do not store the frame again from which a run was
 resumed

A run resumed from its first frame, at time 0, wrote that frame twice.
---
 nbody/nbody_data_stream.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 1c612a3..5ea38ef 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -16,11 +16,17 @@ struct nbody_data_stream::data
 	QFile			m_idx;
 	QString			m_base_name;
 	bool			m_header_written;
+	bool			m_appended;
+	size_t			m_last_step;
+	nbcoord_t		m_last_time;
 
 	data() :
 		m_file_n(0),
 		m_max_part_size(1024 * 1024 * 1024),
-		m_header_written(false)
+		m_header_written(false),
+		m_appended(false),
+		m_last_step(0),
+		m_last_time(0)
 	{
 	}
 
@@ -171,6 +177,15 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
+	if(d->m_appended)
+	{
+		d->m_appended = false;
+		if(bdata->get_step() == d->m_last_step && bdata->get_time() == d->m_last_time)
+		{
+			return 0; // The run goes on from this frame, it is in the stream
+		}
+	}
+
 	if((!d->m_header_written) && 0 != d->write_header(bdata))
 	{
 		qDebug() << "Write header failed";
@@ -239,11 +254,15 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	{
 		d->m_file_n = append_to->get_last_file_n();
 		d->m_header_written = true;
+		d->m_appended = append_to->get_frame_count() != 0;
+		d->m_last_step = append_to->get_steps_count();
+		d->m_last_time = append_to->get_max_time();
 	}
 	else
 	{
 		d->m_file_n = 0;
 		d->m_header_written = false;
+		d->m_appended = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From 6d7e51ab5c425f840a4f0ee0cfebf488ca9a9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:58 +0000
Subject: [PATCH 10/27] fix: report initial states that could not be written or
 read completely

save() reported success when the disk was full, and a read error in load() or
load_zeno_ascii() was taken for the end of a line or repeated forever.
---
 nbody/nbody_data.cpp | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 6b5e26d..ac57264 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -441,6 +441,33 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+
+	if(s.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
+	return true;
+}
+
+static bool read_content(QFile* file, QByteArray* content)
+{
+	for(;;)
+	{
+		const QByteArray	chunk(file->read(64 * 1024));
+		if(chunk.isEmpty())
+		{
+			break;
+		}
+		*content += chunk;
+	}
+	if(file->error() != QFile::NoError)
+	{
+		qDebug() << "Can't read file" << file->fileName() << file->errorString();
+		return false;
+	}
 	return true;
 }
 
@@ -457,8 +484,14 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 
 	clear();
 
+	QByteArray	content;
+	if(!read_content(&file, &content))
+	{
+		return false;
+	}
+
 	nbcoord_t	mass_factor = get_mass_factor(unit_type);
-	QTextStream	s(&file);
+	QTextStream	s(content);
 
 	for(size_t line_n = 0; !s.atEnd(); ++line_n)
 	{
@@ -528,7 +561,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 
 	clear();
 
-	QTextStream	s(&file);
+	QByteArray	content;
+	if(!read_content(&file, &content))
+	{
+		return false;
+	}
+
+	QTextStream	s(content);
 	size_t		count;
 	{
 		QString line_count(s.readLine());
-- 
2.43.0


From 4d23e8278821abc6650c1a1f1b9ea47b1b302020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:16 +0000
Subject: [PATCH 11/27] fix: compute all forces in the first step of a resumed
 Ahmad-Cohen run

When the step number of the resumed frame was no multiple of the full
recompute rate, the sparse step used neighbour lists never made.
---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..b4dfe0c 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_data->get_step() % m_full_recompute_rate == 0 ||
+	   m_univerce_force.size() != m_data->get_count())
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From 7ad0e5e2b6269edfb8c00e7895dc0d7c855f2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:16 +0000
Subject: [PATCH 12/27] fix: keep the block engine inside its arrays

With a body count that is no multiple of the block size the last block read
and wrote behind the end of the state.
---
 nbody/nbody_engine_block.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..51b06ad 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -1,4 +1,5 @@
 #include "nbody_engine_block.h"
+#include <algorithm>
 #include <omp.h>
 #include <QDebug>
 
@@ -57,8 +58,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_x[block];
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
+		const size_t		block1 = std::min(block, count - n1);
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -75,8 +77,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			nbcoord_t			y2[block];
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
+			const size_t		block2 = std::min(block, count - n2);
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			for(size_t b2 = 0; b2 != block2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +89,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != block1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != block2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +115,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From c696eb87c761a0c4c912291f2bd7a01dcaae1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:45 +0000
Subject: [PATCH 13/27] fix: build the heap of any body count

The nodes of a median-split tree are the nodes 1 ... 2 * count - 1 of a heap
only if the body count is a power of two. For other counts bodies were stored
outside the heap or not visited, and rebuild() updated a level while the one
below it was still being computed.
---
 nbody/nbody_space_heap.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..f3e87eb 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -49,10 +49,17 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	size_t	level_begin = NBODY_HEAP_ROOT_INDEX;
+	while(level_begin * 2 < count)
 	{
+		level_begin *= 2;
+	}
+	for(; level_begin >= NBODY_HEAP_ROOT_INDEX; level_begin /= 2)
+	{
+		// Inner nodes are all nodes below 'count', the last level may be incomplete
+		size_t	level_end = std::min(level_begin * 2, count);
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_begin; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
@@ -146,7 +153,13 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	// Only the last level of the heap may be incomplete, it is filled from the left
+	size_t	half_level = 1;
+	while(half_level * 4 <= count)
+	{
+		half_level *= 2;
+	}
+	size_t	left_size = half_level + std::min(count - half_level * 2, half_level);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From d6ce02d89efeb49f9d47724ce1b0c95719b24d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:00 +0000
Subject: [PATCH 14/27] fix: do not crash destroying a solver that never got an
 engine

The destructors dereferenced the engine, which is unset when the program gives
up before the solver is used: Adams solvers crashed when the first frame could
not be written, all of them when the engine could not be initialised.
---
 nbody/nbody_solver.cpp                  | 16 ++++++++++++++++
 nbody/nbody_solver.h                    |  4 ++++
 nbody/nbody_solver_adams.cpp            |  4 ++--
 nbody/nbody_solver_bulirsch_stoer.cpp   |  2 +-
 nbody/nbody_solver_euler.cpp            |  2 +-
 nbody/nbody_solver_midpoint.cpp         |  6 +++---
 nbody/nbody_solver_midpoint_stetter.cpp |  8 ++++----
 nbody/nbody_solver_rk4.cpp              |  4 ++--
 nbody/nbody_solver_rk_butcher.cpp       | 12 ++++++------
 nbody/nbody_solver_trapeze.cpp          |  4 ++--
 10 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/nbody/nbody_solver.cpp b/nbody/nbody_solver.cpp
index 1373124..885ff71 100644
--- a/nbody/nbody_solver.cpp
+++ b/nbody/nbody_solver.cpp
@@ -121,3 +121,19 @@ void nbody_solver::reset()
 {
 }
 
+void nbody_solver::free_buffer(nbody_engine::memory* m)
+{
+	if(m_engine != NULL)
+	{
+		m_engine->free_buffer(m);
+	}
+}
+
+void nbody_solver::free_buffers(nbody_engine::memory_array& mema)
+{
+	if(m_engine != NULL)
+	{
+		m_engine->free_buffers(mema);
+	}
+}
+
diff --git a/nbody/nbody_solver.h b/nbody/nbody_solver.h
index fbe7c95..fbb4d53 100644
--- a/nbody/nbody_solver.h
+++ b/nbody/nbody_solver.h
@@ -36,6 +36,10 @@ public:
 	virtual e_ode_order get_ode_order() const;
 	//! Reset solver's state to initial
 	virtual void reset();
+protected:
+	//! Free memory allocated by engine. Without engine nothing was allocated
+	void free_buffer(nbody_engine::memory* m);
+	void free_buffers(nbody_engine::memory_array& mema);
 };
 
 #endif // NBODY_SOLVER_H
diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..337830d 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -18,8 +18,8 @@ nbody_solver_adams::nbody_solver_adams(nbody_solver* starter,
 nbody_solver_adams::~nbody_solver_adams()
 {
 	delete m_starter;
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_corr_data);
+	free_buffers(m_f);
+	free_buffer(m_corr_data);
 }
 
 const char* nbody_solver_adams::type_name() const
diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index f6c2468..a80d2d3 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -52,7 +52,7 @@ nbody_solver_bulirsch_stoer::nbody_solver_bulirsch_stoer(
 
 nbody_solver_bulirsch_stoer::~nbody_solver_bulirsch_stoer()
 {
-	engine()->free_buffer(m_y0);
+	free_buffer(m_y0);
 	delete m_extrapolator;
 	delete m_internal;
 }
diff --git a/nbody/nbody_solver_euler.cpp b/nbody/nbody_solver_euler.cpp
index 4b684f9..2245e42 100644
--- a/nbody/nbody_solver_euler.cpp
+++ b/nbody/nbody_solver_euler.cpp
@@ -8,7 +8,7 @@ nbody_solver_euler::nbody_solver_euler() : nbody_solver()
 
 nbody_solver_euler::~nbody_solver_euler()
 {
-	engine()->free_buffer(m_dy);
+	free_buffer(m_dy);
 }
 
 const char* nbody_solver_euler::type_name() const
diff --git a/nbody/nbody_solver_midpoint.cpp b/nbody/nbody_solver_midpoint.cpp
index f1d53f3..e677d5f 100644
--- a/nbody/nbody_solver_midpoint.cpp
+++ b/nbody/nbody_solver_midpoint.cpp
@@ -9,9 +9,9 @@ nbody_solver_midpoint::nbody_solver_midpoint():
 
 nbody_solver_midpoint::~nbody_solver_midpoint()
 {
-	engine()->free_buffer(m_k1);
-	engine()->free_buffer(m_k2);
-	engine()->free_buffer(m_tmp);
+	free_buffer(m_k1);
+	free_buffer(m_k2);
+	free_buffer(m_tmp);
 }
 
 const char* nbody_solver_midpoint::type_name() const
diff --git a/nbody/nbody_solver_midpoint_stetter.cpp b/nbody/nbody_solver_midpoint_stetter.cpp
index 62f136d..c3e5fe0 100644
--- a/nbody/nbody_solver_midpoint_stetter.cpp
+++ b/nbody/nbody_solver_midpoint_stetter.cpp
@@ -9,10 +9,10 @@ nbody_solver_midpoint_stetter::nbody_solver_midpoint_stetter() :
 
 nbody_solver_midpoint_stetter::~nbody_solver_midpoint_stetter()
 {
-	engine()->free_buffers(m_fu);
-	engine()->free_buffers(m_uv);
-	engine()->free_buffer(m_tmp);
-	engine()->free_buffer(m_du);
+	free_buffers(m_fu);
+	free_buffers(m_uv);
+	free_buffer(m_tmp);
+	free_buffer(m_du);
 }
 
 const char* nbody_solver_midpoint_stetter::type_name() const
diff --git a/nbody/nbody_solver_rk4.cpp b/nbody/nbody_solver_rk4.cpp
index 62a9c7c..691b22c 100644
--- a/nbody/nbody_solver_rk4.cpp
+++ b/nbody/nbody_solver_rk4.cpp
@@ -7,8 +7,8 @@ nbody_solver_rk4::nbody_solver_rk4() : nbody_solver()
 
 nbody_solver_rk4::~nbody_solver_rk4()
 {
-	engine()->free_buffers(m_k);
-	engine()->free_buffer(m_tmp);
+	free_buffers(m_k);
+	free_buffer(m_tmp);
 }
 
 const char* nbody_solver_rk4::type_name() const
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..8895c4d 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -19,12 +19,12 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 nbody_solver_rk_butcher::~nbody_solver_rk_butcher()
 {
 	delete m_bt;
-	engine()->free_buffers(m_k);;
-	engine()->free_buffer(m_t);
-	engine()->free_buffer(m_tmpk);
-	engine()->free_buffer(m_ycorr_data);
-	engine()->free_buffer(m_tcorr_data);
-	engine()->free_buffers(m_y_stack);
+	free_buffers(m_k);;
+	free_buffer(m_t);
+	free_buffer(m_tmpk);
+	free_buffer(m_ycorr_data);
+	free_buffer(m_tcorr_data);
+	free_buffers(m_y_stack);
 }
 
 const char* nbody_solver_rk_butcher::type_name() const
diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..de569ff 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -9,8 +9,8 @@ nbody_solver_trapeze::nbody_solver_trapeze() : nbody_solver()
 
 nbody_solver_trapeze::~nbody_solver_trapeze()
 {
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_predictor);
+	free_buffers(m_f);
+	free_buffer(m_predictor);
 }
 
 const char* nbody_solver_trapeze::type_name() const
-- 
2.43.0


From 04b516d7d3ccbf858efa15a12d536d92159b5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:57 +0000
Subject: [PATCH 15/27] fix: nested traversal of the node tree walks every
 leaf, also those with a zero radius

---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From 68ff2453d832c7c0d76dee6a730b5d2baf0992c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:57 +0000
Subject: [PATCH 16/27] fix: fmaddn with only zero coefficients copies its base
 instead of leaving the target unchanged

---
 nbody/nbody_engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index d13ff1d..f899d5c 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -110,6 +110,12 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		}
 		a_initiated = true;
 	}
+
+	const size_t	full_size = sizeof(nbcoord_t) * problem_size();
+	if(!a_initiated && a != b && a->size() >= full_size && b->size() >= full_size)
+	{
+		copy_buffer(a, b);
+	}
 }
 
 void nbody_engine::print_info() const
-- 
2.43.0


From dc1693344f836004342d9d0296c81acaeaa8559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 17/27] fix: wait for OpenCL events of separate contexts one by
 one

---
 nbody/nbody_engine_opencl.cpp | 67 ++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..ae7d60c 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -2,6 +2,7 @@
 #include <QDebug>
 #include <QFile>
 #include <QStringList>
+#include <exception>
 #include <set>
 
 #include "nbody_space_heap.h"
@@ -23,6 +24,32 @@ using namespace compatibility;
 #include <CL/cl.hpp>
 #endif //HAVE_OPENCL2
 
+namespace {
+// clWaitForEvents() takes only events of the same context, so wait for each event separately
+void wait_for_events(const std::vector<cl::Event>& events)
+{
+	std::exception_ptr	failed;
+	for(size_t i = 0; i != events.size(); ++i)
+	{
+		try
+		{
+			events[i].wait();
+		}
+		catch(...)
+		{
+			if(!failed)
+			{
+				failed = std::current_exception();
+			}
+		}
+	}
+	if(failed)
+	{
+		std::rethrow_exception(failed);
+	}
+}
+} //namespace
+
 std::string load_program(const QString& filename)
 {
 	QFile			file(filename);
@@ -701,7 +728,7 @@ void nbody_engine_opencl::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 
 	d->print_profile_info(events, "fcompute");
 
@@ -736,7 +763,7 @@ void nbody_engine_opencl::clamp(memory* _y, nbcoord_t b)
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 }
 
 void nbody_engine_opencl::synchronize_f(smemory* f)
@@ -798,7 +825,7 @@ void nbody_engine_opencl::synchronize_f(smemory* f)
 				}
 			}
 			rect_row_size *= 2;
-			cl::Event::waitForEvents(events);
+			wait_for_events(events);
 		}
 	}
 	else
@@ -815,7 +842,7 @@ void nbody_engine_opencl::synchronize_f(smemory* f)
 											  row_size, 0, row_size, 0, host_buffer.data(), NULL, &ev);
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 		write_buffer(f, host_buffer.data());
 	}
 }
@@ -852,7 +879,7 @@ void nbody_engine_opencl::synchronize_y(nbody_engine_opencl::smemory* y)
 				}
 			}
 			device_data_size *= 2;
-			cl::Event::waitForEvents(events);
+			wait_for_events(events);
 		}
 	}
 	else
@@ -914,7 +941,7 @@ void nbody_engine_opencl::synchronize_sum(smemory* f)
 												  0, 0, f->size(), nullptr, &ev);
 					events.push_back(ev);
 				}
-				cl::Event::waitForEvents(events);
+				wait_for_events(events);
 			}
 			{
 				std::vector<cl::Event>	events;
@@ -926,7 +953,7 @@ void nbody_engine_opencl::synchronize_sum(smemory* f)
 														   d->m_f_sync->buffer(dev_n), 1));
 					events.push_back(ev);
 				}
-				cl::Event::waitForEvents(events);
+				wait_for_events(events);
 			}
 		}
 	}
@@ -944,7 +971,7 @@ void nbody_engine_opencl::synchronize_sum(smemory* f)
 											  host_buffers[dev_n].data(), NULL, &ev);
 				events.push_back(ev);
 			}
-			cl::Event::waitForEvents(events);
+			wait_for_events(events);
 		}
 		#pragma omp parallel for
 		for(size_t i = 0; i < size; ++i)
@@ -1044,7 +1071,7 @@ void nbody_engine_opencl::data::update_tree(
 									  m_indites->buffer(dev_n)));
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 	}
 	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
 	{
@@ -1074,7 +1101,7 @@ void nbody_engine_opencl::data::update_tree(
 									  distance_to_node_radius_ratio_sqr));
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 	}
 }
 void nbody_engine_opencl::fcompute_bh_impl(const nbcoord_t& t, const memory* _y, memory* _f,
@@ -1149,7 +1176,7 @@ void nbody_engine_opencl::fcompute_bh_impl(const nbcoord_t& t, const memory* _y,
 									   d->m_tree_r2->buffer(dev_n)));
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 		d->print_profile_info(events, "fcompute_bh");
 		if(device_count > 1)
 		{
@@ -1177,7 +1204,7 @@ void nbody_engine_opencl::fcompute_bh_impl(const nbcoord_t& t, const memory* _y,
 										d->m_indites->buffer(dev_n)));
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 		d->print_profile_info(events, "fcompute_hbh");
 		if(device_count > 1)
 		{
@@ -1232,7 +1259,7 @@ void nbody_engine_opencl::read_buffer(void* _dst, const memory* _src)
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 }
 
 // Copy all host memory to each device
@@ -1258,7 +1285,7 @@ void nbody_engine_opencl::write_buffer(memory* _dst, const void* _src)
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 }
 
 void nbody_engine_opencl::copy_buffer(memory* _a, const memory* _b)
@@ -1293,7 +1320,7 @@ void nbody_engine_opencl::copy_buffer(memory* _a, const memory* _b)
 									0, 0, a->size(), nullptr, &ev);
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 	}
 	else
 	{
@@ -1326,7 +1353,7 @@ void nbody_engine_opencl::fill_buffer(memory* _a, const nbcoord_t& value)
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 }
 
 void nbody_engine_opencl::fmadd_inplace(memory* _a, const memory* _b, const nbcoord_t& c)
@@ -1361,7 +1388,7 @@ void nbody_engine_opencl::fmadd_inplace(memory* _a, const memory* _b, const nbco
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 }
 
 void nbody_engine_opencl::fmadd(memory* _a, const memory* _b, const memory* _c, const nbcoord_t& _d)
@@ -1402,7 +1429,7 @@ void nbody_engine_opencl::fmadd(memory* _a, const memory* _b, const memory* _c,
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 }
 
 void nbody_engine_opencl::fmaddn_corr(nbody_engine::memory* _a, nbody_engine::memory* _corr,
@@ -1462,7 +1489,7 @@ void nbody_engine_opencl::fmaddn_corr(nbody_engine::memory* _a, nbody_engine::me
 														c[k]));
 			events.push_back(ev);
 		}
-		cl::Event::waitForEvents(events);
+		wait_for_events(events);
 	}
 }
 
@@ -1497,7 +1524,7 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 		events.push_back(ev);
 	}
 
-	cl::Event::waitForEvents(events);
+	wait_for_events(events);
 
 	std::vector<nbcoord_t> host_buff(rsize);
 
-- 
2.43.0


From 3cf86d366a68e705021946d3034a0e3a60c2da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 18/27] fix: image recorder keeps a destination path that
 contains a place marker

---
 player/nbody_frame_compressor_image.cpp | 4 +---
 player/nbody_frame_compressor_image.h   | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/player/nbody_frame_compressor_image.cpp b/player/nbody_frame_compressor_image.cpp
index a475447..2fc8492 100644
--- a/player/nbody_frame_compressor_image.cpp
+++ b/player/nbody_frame_compressor_image.cpp
@@ -22,8 +22,6 @@ bool nbody_frame_compressor_image::set_destination(const QString& d)
 
 	m_destination = d;
 
-	m_name_tmpl = d + "/%1.png";
-
 	return true;
 }
 
@@ -34,7 +32,7 @@ static bool frame_writer(const QImage& img, const QString& fname)
 
 void nbody_frame_compressor_image::push_frame(const QImage& frame, size_t frame_n)
 {
-	QString		frame_name(m_name_tmpl.arg(frame_n, 8, 10,  QChar('0')));
+	QString		frame_name(m_destination + QString("/%1.png").arg(frame_n, 8, 10,  QChar('0')));
 
 	m_results << QtConcurrent::run(frame_writer, frame, frame_name);
 
diff --git a/player/nbody_frame_compressor_image.h b/player/nbody_frame_compressor_image.h
index 846618d..36326c1 100644
--- a/player/nbody_frame_compressor_image.h
+++ b/player/nbody_frame_compressor_image.h
@@ -9,7 +9,6 @@
 class nbody_frame_compressor_image : public nbody_frame_compressor
 {
 	QString					m_destination;
-	QString					m_name_tmpl;
 	QList< QFuture<bool> >	m_results;
 public:
 	nbody_frame_compressor_image();
-- 
2.43.0


From de1c3529740debce2a7f4c00a622ae7c5562f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 19/27] fix: a failed frame read leaves the destination
 unchanged instead of mixing two frames

---
 nbody/nbody_data_stream_reader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index f2f5b03..1b57044 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -350,19 +350,24 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
 	const data::item&	frame(d->m_frames[ d->m_current_frame ]);
 
-	if(sz != d->m_file.read(reinterpret_cast<char*>(bdata->get_vertites()), sz))
+	std::vector<nbvertex_t>	vertites(bdata->get_count());
+	std::vector<nbvertex_t>	velosites(bdata->get_count());
+
+	if(sz != d->m_file.read(reinterpret_cast<char*>(vertites.data()), sz))
 	{
 		qDebug() << "Can't read file" << d->m_file.fileName()
 				 << d->m_file.errorString() << "from pos" << fpos;
 		return -1;
 	}
-	if(sz != d->m_file.read(reinterpret_cast<char*>(bdata->get_velosites()), sz))
+	if(sz != d->m_file.read(reinterpret_cast<char*>(velosites.data()), sz))
 	{
 		qDebug() << "Can't read file" << d->m_file.fileName()
 				 << d->m_file.errorString() << "from pos" << fpos + sz;
 		return -1;
 	}
 
+	std::copy(vertites.begin(), vertites.end(), bdata->get_vertites());
+	std::copy(velosites.begin(), velosites.end(), bdata->get_velosites());
 	std::copy(d->m_masses.begin(), d->m_masses.end(), bdata->get_mass());
 	if(d->m_colors_read)
 	{
-- 
2.43.0


From 0d62292e513eb3255b82d50f35fe0762c9a3578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 20/27] fix: player loads the first frame when it opens

---
 player/wgt_nbody_player.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/player/wgt_nbody_player.cpp b/player/wgt_nbody_player.cpp
index b19b37f..3052f24 100644
--- a/player/wgt_nbody_player.cpp
+++ b/player/wgt_nbody_player.cpp
@@ -50,6 +50,8 @@ wgt_nbody_player::wgt_nbody_player(nbody_data_stream_reader* stream,
 			this, SLOT(on_update_view()));
 	connect(m_view, SIGNAL(stars_size_range_changed(double, double, double)),
 			m_control, SLOT(on_stars_size_range_changed(double, double, double)));
+
+	on_update_data();
 }
 
 wgt_nbody_player::~wgt_nbody_player()
-- 
2.43.0


From e6b6efb81ff5325bafb5defcaef030cad2e7e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:51 +0000
Subject: [PATCH 21/27] fix: player window is not closed (and deleted) while a
 recording uses it

---
 player/wgt_nbody_player.cpp | 17 +++++++++++++++++
 player/wgt_nbody_player.h   |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/player/wgt_nbody_player.cpp b/player/wgt_nbody_player.cpp
index 3052f24..fa5585d 100644
--- a/player/wgt_nbody_player.cpp
+++ b/player/wgt_nbody_player.cpp
@@ -10,6 +10,7 @@
 #include <QLayout>
 #include <QDebug>
 #include <QTimerEvent>
+#include <QCloseEvent>
 #include <QProgressDialog>
 #include <QCoreApplication>
 #include <QTime>
@@ -26,6 +27,7 @@ wgt_nbody_player::wgt_nbody_player(nbody_data_stream_reader* stream,
 	m_data = new nbody_data;
 	m_data->set_check_list(check_list);
 	m_stream = stream;
+	m_record_count = 0;
 	m_view = new wgt_nbody_view(m_data);
 	m_data->resize(m_stream->get_body_count());
 	m_control = new wgt_nbody_player_control(this, m_stream);
@@ -59,6 +61,17 @@ wgt_nbody_player::~wgt_nbody_player()
 	delete m_data;
 }
 
+void wgt_nbody_player::closeEvent(QCloseEvent* e)
+{
+	if(m_record_count != 0)
+	{
+		// Close deletes this window, recording still works with it
+		e->ignore();
+		return;
+	}
+	QWidget::closeEvent(e);
+}
+
 void wgt_nbody_player::on_update_data()
 {
 	if(0 != m_stream->seek(m_control->get_current_frame()))
@@ -124,6 +137,8 @@ void wgt_nbody_player::on_start_record()
 		return;
 	}
 
+	++m_record_count;
+
 	QProgressDialog	progress(this);
 	QElapsedTimer	timer;
 
@@ -174,6 +189,8 @@ void wgt_nbody_player::on_start_record()
 		QCoreApplication::processEvents();
 	}
 
+	--m_record_count;
+
 	on_update_data();
 
 	qDebug() << "Record done!";
diff --git a/player/wgt_nbody_player.h b/player/wgt_nbody_player.h
index 77fb004..bf1a74b 100644
--- a/player/wgt_nbody_player.h
+++ b/player/wgt_nbody_player.h
@@ -17,10 +17,12 @@ class wgt_nbody_player : public QWidget
 	wgt_nbody_player_control*	m_control;
 	nbody_data_stream_reader*	m_stream;
 	nbody_data*					m_data;
+	size_t						m_record_count;
 public:
 	explicit wgt_nbody_player(nbody_data_stream_reader* stream,
 							  const QString& check_list);
 	~wgt_nbody_player();
+	void closeEvent(QCloseEvent*) override;
 public slots:
 	void on_update_data();
 	void on_update_view();
-- 
2.43.0


From 6e0b865038ed175bd97599548e6737ac4d0cf578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:40 +0000
Subject: [PATCH 22/27] fix: engine memory that could not be allocated is
 reported and not written through

---
 nbody/nbody_engine_simple.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index 6ef25f8..eae2884 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -1,5 +1,6 @@
 #include "nbody_engine_simple.h"
 #include <QDebug>
+#include <new>
 #include "summation.h"
 
 nbody_engine_simple::nbody_engine_simple()
@@ -421,6 +422,10 @@ void nbody_engine_simple::fmaxabs(const nbody_engine::memory* __a, nbcoord_t& re
 nbody_engine_simple::smemory::smemory(size_t s)
 {
 	m_data = ::malloc(s);
+	if(m_data == NULL && s != 0)
+	{
+		throw std::bad_alloc();
+	}
 	m_size = s;
 }
 
-- 
2.43.0


From f5b789f735de82ef96d16f5ce04ebbba0fc0455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:40 +0000
Subject: [PATCH 23/27] fix: unreadable numbers in a Zeno file are refused
 instead of read as zero

---
 nbody/nbody_data.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index ac57264..b4f6d42 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -617,7 +617,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass to double" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -632,9 +638,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[ZENO_DIM] = {false, false, false};
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(ok + 0),
+									   pos_line[1].toDouble(ok + 1),
+									   pos_line[2].toDouble(ok + 2));
+		if(!ok[0] || !ok[1] || !ok[2])
+		{
+			qDebug() << "Can't convert vector to double" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -650,9 +662,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[ZENO_DIM] = {false, false, false};
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(ok + 0),
+										vel_line[1].toDouble(ok + 1),
+										vel_line[2].toDouble(ok + 2));
+		if(!ok[0] || !ok[1] || !ok[2])
+		{
+			qDebug() << "Can't convert vector to double" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From 1d21e545e9d0e5825d0a7b975b9fc2d12a346162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:42 +0000
Subject: [PATCH 24/27] fix: rounding of the recorded time no longer adds or
 drops the last step of a resumed run

The index stores 15 digits of the time. A run resumed from 0.3 that was 0.30000000000000004
when it was recorded could make one step more than the uninterrupted run (or one less) when
the end time is a multiple of the step. The end is compared with a small part of the step
as tolerance, as the check and dump times already are.
---
 nbody/nbody_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver.cpp b/nbody/nbody_solver.cpp
index 885ff71..4f90e52 100644
--- a/nbody/nbody_solver.cpp
+++ b/nbody/nbody_solver.cpp
@@ -70,7 +70,7 @@ int nbody_solver::run(nbody_data* data, nbody_data_stream* stream, nbcoord_t max
 		last_dump = data->get_time();
 	}
 
-	while(data->get_time() < max_time)
+	while(data->get_time() < max_time - dt * 1e-3)
 	{
 		if(m_clamp_to_box)
 		{
-- 
2.43.0


From fafc67cacc30c6c64b71bc52964a89d9f6a085a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:15 +0000
Subject: [PATCH 25/27] fix: CUDA engines refuse device and body counts they
 would compute only partly

The exchange between devices without NCCL needs a power of two, and kernels
process whole blocks: anything else was left uncomputed without a word.
---
 nbody/nbody_engine_cuda.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index aaac309..1835a27 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -50,6 +50,28 @@ struct nbody_engine_cuda::data
 		m_device_ids(1, 0),
 		m_nccl_is_active(false)
 	{}
+	bool is_supported(size_t count) const
+	{
+		size_t	device_count(m_device_ids.size());
+		bool	exchange_by_nccl(false);
+#ifdef HAVE_NCCL
+		exchange_by_nccl = m_nccl_is_active;
+#endif // HAVE_NCCL
+		if(!exchange_by_nccl && (device_count & (device_count - 1)) != 0)
+		{
+			qDebug() << "Device count must be power of TWO. Selected" << device_count << "device(s)";
+			return false;
+		}
+		// Kernels process whole blocks only
+		if(m_block_size <= 0 || count % (device_count * static_cast<size_t>(m_block_size)) != 0 ||
+		   count % NBODY_DATA_BLOCK_SIZE != 0 || (6 * count) % (device_count * NBODY_DATA_BLOCK_SIZE) != 0)
+		{
+			qDebug() << "Can't split" << count << "bodies between" << device_count
+					 << "device(s) by whole blocks of" << m_block_size;
+			return false;
+		}
+		return true;
+	}
 	void stream_sync()
 	{
 		for(size_t i = 0; i < m_device_ids.size(); ++i)
@@ -91,6 +113,10 @@ const char* nbody_engine_cuda::type_name() const
 bool nbody_engine_cuda::init(nbody_data* body_data)
 {
 	size_t	device_count(d->m_device_ids.size());
+	if(!d->is_supported(body_data->get_count()))
+	{
+		return false;
+	}
 	d->m_streams.resize(device_count);
 	for(size_t i = 0; i < device_count; ++i)
 	{
-- 
2.43.0


From 9bf6929c503a276ba9780651ea401117c82def83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 26/27] fix: failing CUDA calls in the tree engines are
 reported

A failed allocation of a work buffer ended in a null pointer access, and the
results of device selection, synchronization and texture creation were lost.
---
 nbody/nbody_engine_cuda.cpp        | 12 ++++++++++-
 nbody/nbody_engine_cuda.h          |  2 ++
 nbody/nbody_engine_cuda_bh.cpp     | 34 +++++++++++++++---------------
 nbody/nbody_engine_cuda_bh_tex.cpp | 28 ++++++++++++------------
 nbody/nbody_engine_cuda_memory.cpp |  4 ++--
 5 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index 1835a27..7b97e07 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -301,6 +301,16 @@ nbody_engine_cuda::memory* nbody_engine_cuda::create_buffer(size_t s)
 	return mem;
 }
 
+nbody_engine_cuda::smemory* nbody_engine_cuda::create_work_buffer(size_t s)
+{
+	smemory*	mem = dynamic_cast<smemory*>(create_buffer(s));
+	if(mem == nullptr)
+	{
+		CUDACHECK(cudaErrorMemoryAllocation);
+	}
+	return mem;
+}
+
 void nbody_engine_cuda::free_buffer(memory* mem)
 {
 	delete mem;
@@ -782,7 +792,7 @@ void nbody_engine_cuda::synchronize_sum(nbody_engine_cuda::smemory* f)
 		size_t	data_size = f->size();
 		if(d->m_f_sync == nullptr)
 		{
-			d->m_f_sync = dynamic_cast<smemory*>(create_buffer(data_size));
+			d->m_f_sync = create_work_buffer(data_size);
 		}
 		for(size_t shift_n = 1; shift_n < device_count; shift_n *= 2)
 		{
diff --git a/nbody/nbody_engine_cuda.h b/nbody/nbody_engine_cuda.h
index a9d8a9e..8c8f4ae 100644
--- a/nbody/nbody_engine_cuda.h
+++ b/nbody/nbody_engine_cuda.h
@@ -56,6 +56,8 @@ protected:
 	const std::vector<int>& get_device_ids() const;
 	const nbody_data* get_data() const;
 	const smemory* get_mass() const;
+	//! Same as create_buffer, never returns nullptr: a failed allocation ends the program
+	smemory* create_work_buffer(size_t s);
 };
 
 #endif // NBODY_ENGINE_CUDA_H
diff --git a/nbody/nbody_engine_cuda_bh.cpp b/nbody/nbody_engine_cuda_bh.cpp
index 51623a2..78a794d 100644
--- a/nbody/nbody_engine_cuda_bh.cpp
+++ b/nbody/nbody_engine_cuda_bh.cpp
@@ -97,18 +97,18 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 
 		if(m_dev_indites == NULL)
 		{
-			m_dev_tree_cmx = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_tree_cmy = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_tree_cmz = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmin_cmx = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmin_cmy = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmin_cmz = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmax_cmx = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmax_cmy = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmax_cmz = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_tree_crit_r2 = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_tree_mass = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_indites = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(int)));
+			m_dev_tree_cmx = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_tree_cmy = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_tree_cmz = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmin_cmx = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmin_cmy = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmin_cmz = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmax_cmx = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmax_cmy = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmax_cmz = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_tree_crit_r2 = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_tree_mass = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_indites = create_work_buffer(tree_size * sizeof(int));
 		}
 
 		std::vector<nbcoord_t>	host_tree_cmx(tree_size), host_tree_cmy(tree_size), host_tree_cmz(tree_size);
@@ -137,7 +137,7 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 		#pragma omp parallel num_threads(device_count)
 		{
 			size_t	dev_n = static_cast<size_t>(omp_get_thread_num());
-			cudaSetDevice(get_device_ids()[dev_n]);
+			CUDACHECK(cudaSetDevice(get_device_ids()[dev_n]));
 			update_leaf_bh(data_size,
 						   static_cast<const nbcoord_t*>(y->data(dev_n)),
 						   static_cast<nbcoord_t*>(m_dev_tree_cmx->data(dev_n)),
@@ -150,7 +150,7 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 						   static_cast<nbcoord_t*>(m_dev_bmax_cmy->data(dev_n)),
 						   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 						   static_cast<int*>(m_dev_indites->data(dev_n)));
-			cudaDeviceSynchronize();
+			CUDACHECK(cudaDeviceSynchronize());
 			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
@@ -169,7 +169,7 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 							   static_cast<nbcoord_t*>(m_dev_tree_mass->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_crit_r2->data(dev_n)),
 							   distance_to_node_radius_ratio_sqr);
-				cudaDeviceSynchronize();
+				CUDACHECK(cudaDeviceSynchronize());
 			}
 		}
 	}
@@ -180,7 +180,7 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 	{
 		size_t	dev_n = static_cast<size_t>(omp_get_thread_num());
 		size_t	offset = dev_n * device_data_size;
-		cudaSetDevice(get_device_ids()[dev_n]);
+		CUDACHECK(cudaSetDevice(get_device_ids()[dev_n]));
 		const nbcoord_t*	dev_y = static_cast<const nbcoord_t*>(y->data(dev_n));
 		nbcoord_t*			dev_f = static_cast<nbcoord_t*>(f->data(dev_n));
 		nbcoord_t*			dev_tree_cmx = static_cast<nbcoord_t*>(m_dev_tree_cmx->data(dev_n));
@@ -196,7 +196,7 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 						 dev_tree_cmx, dev_tree_cmy, dev_tree_cmz,
 						 dev_tree_mass, dev_tree_crit_r2,
 						 dev_indites, get_block_size());
-		cudaDeviceSynchronize();
+		CUDACHECK(cudaDeviceSynchronize());
 	}
 	if(device_count > 1)
 	{
diff --git a/nbody/nbody_engine_cuda_bh_tex.cpp b/nbody/nbody_engine_cuda_bh_tex.cpp
index d9014c9..70df1c4 100644
--- a/nbody/nbody_engine_cuda_bh_tex.cpp
+++ b/nbody/nbody_engine_cuda_bh_tex.cpp
@@ -93,15 +93,15 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 
 		if(m_dev_indites == NULL)
 		{
-			m_dev_tree_xyzr = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t) * 4));
-			m_dev_bmin_cmx = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmin_cmy = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmin_cmz = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmax_cmx = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmax_cmy = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_bmax_cmz = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_tree_mass = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(nbcoord_t)));
-			m_dev_indites = dynamic_cast<smemory*>(create_buffer(tree_size * sizeof(int)));
+			m_dev_tree_xyzr = create_work_buffer(tree_size * sizeof(nbcoord_t) * 4);
+			m_dev_bmin_cmx = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmin_cmy = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmin_cmz = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmax_cmx = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmax_cmy = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_bmax_cmz = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_tree_mass = create_work_buffer(tree_size * sizeof(nbcoord_t));
+			m_dev_indites = create_work_buffer(tree_size * sizeof(int));
 		}
 
 		static_assert(sizeof(vertex4<nbcoord_t>) == sizeof(nbcoord_t) * 4,
@@ -131,7 +131,7 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 		#pragma omp parallel num_threads(device_count)
 		{
 			size_t	dev_n = static_cast<size_t>(omp_get_thread_num());
-			cudaSetDevice(get_device_ids()[dev_n]);
+			CUDACHECK(cudaSetDevice(get_device_ids()[dev_n]));
 			update_leaf_bh_tex(data_size,
 							   static_cast<const nbcoord_t*>(y->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_xyzr->data(dev_n)),
@@ -142,7 +142,7 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 							   static_cast<nbcoord_t*>(m_dev_bmax_cmy->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 							   static_cast<int*>(m_dev_indites->data(dev_n)));
-			cudaDeviceSynchronize();
+			CUDACHECK(cudaDeviceSynchronize());
 			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
@@ -158,7 +158,7 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 								   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_tree_mass->data(dev_n)),
 								   distance_to_node_radius_ratio_sqr);
-				cudaDeviceSynchronize();
+				CUDACHECK(cudaDeviceSynchronize());
 			}
 		}
 	}
@@ -169,7 +169,7 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 	{
 		size_t	dev_n = static_cast<size_t>(omp_get_thread_num());
 		size_t	offset = dev_n * device_data_size;
-		cudaSetDevice(get_device_ids()[dev_n]);
+		CUDACHECK(cudaSetDevice(get_device_ids()[dev_n]));
 		const nbcoord_t*	dev_y = static_cast<const nbcoord_t*>(y->data(dev_n));
 		nbcoord_t*			dev_f = static_cast<nbcoord_t*>(f->data(dev_n));
 		int*				dev_indites = static_cast<int*>(m_dev_indites->data(dev_n));
@@ -191,7 +191,7 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 									   m_dev_tree_mass->tex(dev_n, smemory::evs1),
 									   dev_indites, get_block_size());
 		}
-		cudaDeviceSynchronize();
+		CUDACHECK(cudaDeviceSynchronize());
 	}
 	if(device_count > 1)
 	{
diff --git a/nbody/nbody_engine_cuda_memory.cpp b/nbody/nbody_engine_cuda_memory.cpp
index 178324e..c6c93ab 100644
--- a/nbody/nbody_engine_cuda_memory.cpp
+++ b/nbody/nbody_engine_cuda_memory.cpp
@@ -10,7 +10,7 @@ nbody_engine_cuda::smemory::smemory(size_t size, const std::vector<int>& dev_ids
 	#pragma omp parallel num_threads(m_device_ids.size())
 	{
 		size_t	dev_n = static_cast<size_t>(omp_get_thread_num());
-		cudaSetDevice(m_device_ids[dev_n]);
+		CUDACHECK(cudaSetDevice(m_device_ids[dev_n]));
 		cudaError_t res = cudaMalloc(&m_data[dev_n], size);
 		if(res != cudaSuccess)
 		{
@@ -124,7 +124,7 @@ cudaTextureObject_t nbody_engine_cuda::smemory::tex(size_t dev_n, evecsize vec_s
 	tex_desc.filterMode = cudaFilterModePoint;
 	tex_desc.normalizedCoords = 0;
 
-	cudaCreateTextureObject(&m_tex[dev_n], &res_desc, &tex_desc, NULL);
+	CUDACHECK(cudaCreateTextureObject(&m_tex[dev_n], &res_desc, &tex_desc, NULL));
 
 	return m_tex[dev_n];
 }
-- 
2.43.0


From 46b4bbc86291d2b67466d65e9401c4a629e4ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:32 +0000
Subject: [PATCH 27/27] fix: CUDA devices finish their work before others write
 to their memory

A copy between devices waits for the commands of its source only: clamp or
copy_buffer still running on the target overwrote what it had received.
---
 nbody/nbody_engine_cuda.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index 7b97e07..a6006c7 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -80,6 +80,14 @@ struct nbody_engine_cuda::data
 			CUDACHECK(cudaStreamSynchronize(m_streams[i]));
 		}
 	}
+	void device_sync()
+	{
+		for(size_t i = 0; i < m_device_ids.size(); ++i)
+		{
+			CUDACHECK(cudaSetDevice(m_device_ids[i]));
+			CUDACHECK(cudaDeviceSynchronize());
+		}
+	}
 };
 
 nbody_engine_cuda::nbody_engine_cuda() :
@@ -677,6 +685,8 @@ void nbody_engine_cuda::synchronize_y(smemory* y)
 #endif // HAVE_NCCL
 	{
 		size_t	device_data_size = y->size() / device_count;
+		// Commands of the target device may still use the memory which copies below write to
+		d->device_sync();
 		for(size_t shift_n = 1; shift_n < device_count; shift_n *= 2)
 		{
 			size_t	group_size = 2 * shift_n;
-- 
2.43.0

