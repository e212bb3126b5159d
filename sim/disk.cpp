#include "disk.h"
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>

namespace disk {
const char* const kind_names[] = { "open", "read", "write", "seek", "truncate", "close", "sync", "rename", "unlink", "mkdir" };
Policy pol;
int64_t ops = 0, faults = 0, read_faults = 0, write_faults = 0;
static bool inside = false;
constexpr int kMaxFd = 256;
static char fd_path[kMaxFd][64];
static bool fd_open[kMaxFd];
static int burst_errno[10];

int64_t& shared_faults() { return *reinterpret_cast<int64_t*>(sim::g->user + sizeof(sim::g->user) - 64); }
void reset() { pol = Policy(); ops = faults = read_faults = write_faults = 0; memset(burst_errno, 0, sizeof(burst_errno)); }
void start() { ops = faults = read_faults = write_faults = 0; memset(burst_errno, 0, sizeof(burst_errno)); pol.active = true; }

static bool tracked_path(const char* p) { return pol.active && !inside && p && p[0] && p[0] != '/' && p[0] != ':'; }
static bool tracked(int fd) { return pol.active && !inside && fd >= 0 && fd < kMaxFd && fd_open[fd]; }

static void die(Kind k, const char* path)
{
	sim::event("KILL at op %lld (%s %s)", static_cast<long long>(ops), kind_names[k], path);
	sim::count("fault:kill");
	sim::sig(static_cast<uint64_t>(ops) * 16 + k);
	_exit(sim::kKilledExit);
}
static void before(Kind k, const char* path)
{
	++ops;
	if(ops > pol.max_ops) { sim::fail("step-budget", "more than %lld file operations: no progress", static_cast<long long>(pol.max_ops)); }
	if(pol.sched) { pol.sched(); }
	if(pol.hook) { inside = true; pol.hook(k, path, false); inside = false; }
	if(pol.kill_at >= 0 && ops >= pol.kill_at && k != WRITE) { die(k, path); }
}
static void after(Kind k, const char* path)
{
	if(pol.hook) { inside = true; pol.hook(k, path, true); inside = false; }
}
static bool applies(const char* path) { return !pol.applies || pol.applies(path); }
static int inject(Kind k, const char* path, double p, const int* errs, uint32_t nerrs)
{
	if(!applies(path)) { return 0; }
	int e = 0;
	if(burst_errno[k] && sim::chance(sim::S_FAULT, pol.burst)) { e = burst_errno[k]; }
	else if(p > 0 && sim::chance(sim::S_FAULT, p)) { e = errs[sim::choose(sim::S_FAULT, nerrs)]; }
	burst_errno[k] = pol.burst > 0 ? e : 0;
	if(e)
	{
		++faults; ++shared_faults();
		(k == READ || k == SEEK ? read_faults : write_faults)++;
		char c[48];
		snprintf(c, sizeof(c), "fault:%s-%s", kind_names[k], strerrorname_np(e));
		sim::count(c);
		sim::event("FAULT op %lld %s %s -> %s", static_cast<long long>(ops), kind_names[k], path, strerrorname_np(e));
		sim::sig(static_cast<uint64_t>(ops) * 4096 + static_cast<uint64_t>(k) * 256 + static_cast<uint64_t>(e));
		if(pol.failed) { pol.failed(path); }
	}
	return e;
}
static bool eintr(Kind k, const char* path, double p)
{
	if(p > 0 && applies(path) && sim::chance(sim::S_FAULT, p))
	{
		char c[48];
		snprintf(c, sizeof(c), "fault:%s-EINTR", kind_names[k]);
		sim::count(c);
		sim::event("FAULT op %lld %s %s -> EINTR", static_cast<long long>(ops), kind_names[k], path);
		return true;
	}
	return false;
}
static long raw_write(int fd, const void* b, size_t n)
{
	size_t done = 0;
	while(done < n)
	{
		long r = syscall(SYS_write, fd, static_cast<const char*>(b) + done, n - done);
		if(r < 0) { if(errno == EINTR) { continue; } return done ? static_cast<long>(done) : -1; }
		done += static_cast<size_t>(r);
	}
	return static_cast<long>(done);
}

static int do_open(int dirfd, const char* path, int flags, mode_t mode)
{
	if(!tracked_path(path)) { return static_cast<int>(syscall(SYS_openat, dirfd, path, flags, mode)); }
	before(OPEN, path);
	static const int errs[] = { EIO, EMFILE, ENOSPC, EACCES, ENFILE };
	if(eintr(OPEN, path, pol.open_eintr)) { errno = EINTR; return -1; }
	if(int e = inject(OPEN, path, pol.open_err, errs, 5)) { errno = e; return -1; }
	int fd = static_cast<int>(syscall(SYS_openat, dirfd, path, flags, mode));
	int se = errno;
	sim::event("op %lld open %s flags=%x -> %s", static_cast<long long>(ops), path, flags & (O_ACCMODE | O_APPEND | O_TRUNC | O_CREAT), fd >= 0 ? "ok" : strerrorname_np(se));
	if(fd >= 0 && fd < kMaxFd)
	{
		snprintf(fd_path[fd], sizeof(fd_path[fd]), "%s", path);
		fd_open[fd] = true;
	}
	after(OPEN, path);
	errno = se;
	return fd;
}
static ssize_t do_write(int fd, const void* buf, size_t n, int64_t off)
{
	auto real = [&](const void* b, size_t len, int64_t o) -> long {
		return o < 0 ? raw_write(fd, b, len) : static_cast<long>(syscall(SYS_pwrite64, fd, b, len, o));
	};
	if(!tracked(fd)) { return real(buf, n, off); }
	const char* path = fd_path[fd];
	before(WRITE, path);
	if(pol.kill_at >= 0 && ops >= pol.kill_at)
	{
		size_t part = pol.kill_part >= 256 ? n : n * pol.kill_part / 256;
		if(pol.kill_part > 256) { part = std::min<size_t>(n, pol.kill_part - 256); }	// 257..: exactly 1.. bytes
		if(part) { real(buf, part, off); }
		sim::event("TORN write %s %zu of %zu bytes", path, part, n);
		if(part && part < n) { sim::count("fault:torn-write"); }
		die(WRITE, path);
	}
	if(eintr(WRITE, path, pol.write_eintr)) { errno = EINTR; return -1; }
	static const int errs[] = { ENOSPC, EIO, EDQUOT, EFBIG };
	if(int e = inject(WRITE, path, pol.write_err, errs, 4)) { errno = e; return -1; }
	size_t want = n;
	if(pol.budget >= 0 && static_cast<int64_t>(want) > pol.budget)
	{
		want = static_cast<size_t>(pol.budget);
		sim::count("fault:disk-full");
		++faults; ++shared_faults(); ++write_faults;
		if(want == 0)
		{
			sim::event("FAULT op %lld write %s %zu -> ENOSPC (disk full)", static_cast<long long>(ops), path, n);
			sim::sig(static_cast<uint64_t>(ops) * 4096 + 0xF0);
			if(pol.refill > 0 && sim::chance(sim::S_FAULT, pol.refill)) { pol.budget = -1; sim::event("disk space freed"); }
			if(pol.failed) { pol.failed(path); }
			errno = ENOSPC;
			return -1;
		}
	}
	if(want > 1 && pol.write_short > 0 && applies(path) && sim::chance(sim::S_FAULT, pol.write_short))
	{
		want = 1 + sim::choose(sim::S_FAULT, static_cast<uint32_t>(want - 1));
		sim::count("fault:short-write");
		++faults; ++shared_faults(); ++write_faults;
		sim::sig(static_cast<uint64_t>(ops) * 4096 + 0xF1);
	}
	int64_t sp = -1;
	if(pol.split && want > 1) { inside = true; sp = pol.split(path, static_cast<int64_t>(want)); inside = false; }
	long r = 0;
	if(sp >= 0 && sp < static_cast<int64_t>(want))
	{
		if(sp) { real(buf, static_cast<size_t>(sp), off); }
		inside = true;
		pol.hook(WRITE, path, false);
		inside = false;
		real(static_cast<const char*>(buf) + sp, want - static_cast<size_t>(sp), off < 0 ? off : off + sp);
		r = static_cast<long>(want);
	}
	else { r = real(buf, want, off); }
	int se = errno;
	if(pol.budget >= 0 && r > 0) { pol.budget -= r; }
	sim::event("op %lld write %s %zu -> %ld", static_cast<long long>(ops), path, n, r);
	after(WRITE, path);
	errno = se;
	return r;
}
static ssize_t do_read(int fd, void* buf, size_t n, int64_t off)
{
	auto real = [&](size_t len) -> long {
		return off < 0 ? static_cast<long>(syscall(SYS_read, fd, buf, len)) : static_cast<long>(syscall(SYS_pread64, fd, buf, len, off));
	};
	if(!tracked(fd)) { return real(n); }
	const char* path = fd_path[fd];
	before(READ, path);
	if(eintr(READ, path, pol.read_eintr)) { errno = EINTR; return -1; }
	static const int errs[] = { EIO, ESTALE, ENXIO };
	if(int e = inject(READ, path, pol.read_err, errs, 3)) { errno = e; return -1; }
	size_t want = n;
	if(want > 1 && pol.read_short > 0 && applies(path) && sim::chance(sim::S_FAULT, pol.read_short))
	{
		uint32_t m = static_cast<uint32_t>(std::min<size_t>(want - 1, 8192));
		want = 1 + sim::choose(sim::S_FAULT, m);
		sim::count("fault:short-read");
		++faults; ++shared_faults();
	}
	long r = real(want);
	int se = errno;
	sim::event("op %lld read %s %zu -> %ld", static_cast<long long>(ops), path, n, r);
	after(READ, path);
	errno = se;
	return r;
}
static off64_t do_seek(int fd, off64_t off, int whence)
{
	if(!tracked(fd)) { return static_cast<off64_t>(syscall(SYS_lseek, fd, off, whence)); }
	const char* path = fd_path[fd];
	before(SEEK, path);
	static const int errs[] = { EIO, ESTALE };
	if(int e = inject(SEEK, path, pol.seek_err, errs, 2)) { errno = e; return -1; }
	off64_t r = static_cast<off64_t>(syscall(SYS_lseek, fd, off, whence));
	sim::event("op %lld seek %s %lld/%d -> %lld", static_cast<long long>(ops), path, static_cast<long long>(off), whence, static_cast<long long>(r));
	after(SEEK, path);
	return r;
}

std::string slurp(const std::string& path, bool* ok)
{
	std::string r;
	int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_CLOEXEC, 0));
	if(ok) { *ok = fd >= 0; }
	if(fd < 0) { return r; }
	char b[65536];
	long n;
	while((n = syscall(SYS_read, fd, b, sizeof(b))) > 0) { r.append(b, static_cast<size_t>(n)); }
	syscall(SYS_close, fd);
	return r;
}
bool spit(const std::string& path, const std::string& data)
{
	int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644));
	if(fd < 0) { return false; }
	bool ok = raw_write(fd, data.data(), data.size()) == static_cast<long>(data.size());
	syscall(SYS_close, fd);
	return ok;
}
bool exists(const std::string& path) { return 0 == syscall(SYS_faccessat, AT_FDCWD, path.c_str(), F_OK); }
void remove_file(const std::string& path) { syscall(SYS_unlinkat, AT_FDCWD, path.c_str(), 0); }
static void walk(const std::string& dir, std::vector<std::string>& out)
{
	DIR* d = opendir(dir.empty() ? "." : dir.c_str());
	if(!d) { return; }
	std::vector<std::string> names;
	while(struct dirent* e = readdir(d)) { if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { names.push_back(e->d_name); } }
	closedir(d);
	std::sort(names.begin(), names.end());
	for(const std::string& n : names)
	{
		std::string p = dir.empty() ? n : dir + "/" + n;
		struct stat st;
		if(lstat(p.c_str(), &st) != 0) { continue; }
		if(S_ISDIR(st.st_mode)) { walk(p, out); } else { out.push_back(p); }
	}
}
std::vector<std::string> files()
{
	bool was = inside;
	inside = true;
	std::vector<std::string> r;
	walk("", r);
	inside = was;
	return r;
}
std::string listing()
{
	std::string r;
	for(const std::string& f : files())
	{
		struct stat st;
		if(lstat(f.c_str(), &st) == 0) { r += f + "(" + std::to_string(st.st_size) + ") "; }
	}
	return r;
}
Snapshot snapshot()
{
	Snapshot s;
	for(const std::string& f : files()) { s.files.push_back(std::make_pair(f, slurp(f))); }
	return s;
}
void restore(const Snapshot& s)
{
	for(const std::string& f : files()) { remove_file(f); }
	for(const auto& p : s.files) { spit(p.first, p.second); }
}
}

using namespace disk;

extern "C" {
int open(const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m);
}
int openat(int dfd, const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(dfd, path, flags, m);
}
int openat64(int dfd, const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(dfd, path, flags | O_LARGEFILE, m);
}
int creat(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return do_read(fd, b, n, -1); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
	if(!tracked(fd)) { return syscall(SYS_writev, fd, v, c); }
	ssize_t total = 0;
	for(int i = 0; i < c; ++i)
	{
		if(!v[i].iov_len) { continue; }
		ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
		if(r < 0) { return total ? total : r; }
		total += r;
		if(r < static_cast<ssize_t>(v[i].iov_len)) { break; }
	}
	return total;
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
	if(!tracked(fd)) { return syscall(SYS_readv, fd, v, c); }
	ssize_t total = 0;
	for(int i = 0; i < c; ++i)
	{
		if(!v[i].iov_len) { continue; }
		ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1);
		if(r < 0) { return total ? total : r; }
		total += r;
		if(r < static_cast<ssize_t>(v[i].iov_len)) { break; }
	}
	return total;
}
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_seek(fd, o, w); }
static int do_trunc(int fd, off64_t n)
{
	if(!tracked(fd)) { return static_cast<int>(syscall(SYS_ftruncate, fd, n)); }
	before(TRUNC, fd_path[fd]);
	static const int errs[] = { EIO, EINVAL };
	if(int e = inject(TRUNC, fd_path[fd], pol.trunc_err, errs, 2)) { errno = e; return -1; }
	int r = static_cast<int>(syscall(SYS_ftruncate, fd, n));
	sim::event("op %lld truncate %s %lld -> %d", static_cast<long long>(ops), fd_path[fd], static_cast<long long>(n), r);
	after(TRUNC, fd_path[fd]);
	return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
static int do_sync(int fd, long nr)
{
	if(!tracked(fd)) { return static_cast<int>(syscall(nr, fd)); }
	before(SYNC, fd_path[fd]);
	static const int errs[] = { EIO, ENOSPC };
	if(int e = inject(SYNC, fd_path[fd], pol.sync_err, errs, 2)) { errno = e; return -1; }
	sim::event("op %lld sync %s", static_cast<long long>(ops), fd_path[fd]);
	after(SYNC, fd_path[fd]);
	return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int close(int fd)
{
	if(!tracked(fd))
	{
		if(fd >= 0 && fd < kMaxFd) { fd_open[fd] = false; }
		return static_cast<int>(syscall(SYS_close, fd));
	}
	before(CLOSE, fd_path[fd]);
	fd_open[fd] = false;
	int r = static_cast<int>(syscall(SYS_close, fd));
	sim::event("op %lld close %s", static_cast<long long>(ops), fd_path[fd]);
	after(CLOSE, fd_path[fd]);
	return r;
}
static int do_rename(const char* a, const char* b)
{
	if(!tracked_path(a)) { return static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0)); }
	before(RENAME, a);
	static const int errs[] = { EIO, ENOSPC };
	if(int e = inject(RENAME, a, pol.rename_err, errs, 2)) { errno = e; return -1; }
	int r = static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
	sim::event("op %lld rename %s %s -> %d", static_cast<long long>(ops), a, b, r);
	after(RENAME, a);
	return r;
}
int rename(const char* a, const char* b) { return do_rename(a, b); }
int unlink(const char* a)
{
	if(!tracked_path(a)) { return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, a, 0)); }
	before(UNLINK, a);
	int r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, a, 0));
	sim::event("op %lld unlink %s -> %d", static_cast<long long>(ops), a, r);
	after(UNLINK, a);
	return r;
}
// stdio: libc's own descriptors are invisible here, so a tracked path goes through fopencookie
struct Cookie { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read(static_cast<Cookie*>(c)->fd, b, n, -1); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = do_write(static_cast<Cookie*>(c)->fd, b, n, -1); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { off64_t r = do_seek(static_cast<Cookie*>(c)->fd, *o, w); if(r < 0) { return -1; } *o = r; return 0; }
static int ck_close(void* c) { int r = close(static_cast<Cookie*>(c)->fd); delete static_cast<Cookie*>(c); return r; }
FILE* fopen(const char* path, const char* mode)
{
	static FILE* (*real)(const char*, const char*) = nullptr;
	if(!real) { real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen")); }
	if(!tracked_path(path)) { return real(path, mode); }
	bool plus = strchr(mode, '+') != nullptr;
	int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : mode[0] == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
	int fd = do_open(AT_FDCWD, path, fl, 0666);
	if(fd < 0) { return nullptr; }
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	return fopencookie(new Cookie{ fd }, mode, io);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
}
