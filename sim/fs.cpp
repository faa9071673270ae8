// File layer: pass-through to the private scratch directory with injected
// failures, short writes, full disk and crash points.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim { namespace fs {
FsConfig cfg;
u64 ops, failed;
static char scratch_dir[512];
const char *scratch() { return scratch_dir; }
static u8 tracked[4096];        // fds opened for writing under simulation
} 
using namespace fs;
void fs_begin() {
	ops = failed = 0;
	if (!getcwd(scratch_dir, sizeof scratch_dir)) scratch_dir[0] = 0;
	memset(tracked, 0, sizeof tracked);
}
static bool on() { return g_active && !g_in && fs::cfg.enabled; }
static void crash_here(const char *what) {
	note("process dies at file operation %llu (%s)", (unsigned long long)ops, what);
	Guard g;
	count(R->faults, R->nfaults_c, "process.crash_at_file_op", 1);
	auto f = fs::cfg.on_crash;
	if (f) { --g_in; f(); }
	next_phase();
}
// returns true if this operation is the crash point
static bool op_point() { u64 k = ops++; hash(0xF5000 + k); return fs::cfg.crash_at_op >= 0 && (i64)k == fs::cfg.crash_at_op; }
static const int errs_open[] = {EACCES, ENOSPC, EMFILE, ENOENT, EROFS};
static const int errs_write[] = {ENOSPC, EIO, EDQUOT};
}
using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default")))
template <typename F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

static bool writing_mode(const char *m) { return strpbrk(m, "wa+") != nullptr; }
static FILE *fopen_impl(const char *name, const char *mode, const char *sym) {
	static FILE *(*rf)(const char *, const char *) = real<FILE *(*)(const char *, const char *)>("fopen64");
	(void)sym;
	if (!on() || !writing_mode(mode)) return rf(name, mode);
	{ Guard g; schedpoint(); }
	if (op_point()) crash_here("open");
	if (fault("disk.open_fails", fs::cfg.p_open)) { failed++; errno = errs_open[fault_value("disk.open_errno", 5)]; return nullptr; }
	FILE *f = rf(name, mode);
	if (f && fileno(f) < 4096) tracked[fileno(f)] = 1;
	note("file open %s (%s)", name, mode);
	return f;
}
EXPORT FILE *fopen(const char *n, const char *m) { return fopen_impl(n, m, "fopen"); }
EXPORT FILE *fopen64(const char *n, const char *m) { return fopen_impl(n, m, "fopen64"); }
EXPORT int fclose(FILE *f) {
	static int (*rf)(FILE *) = real<int (*)(FILE *)>("fclose");
	int fd = fileno(f);
	bool tr = fd >= 0 && fd < 4096 && tracked[fd];
	if (tr) tracked[fd] = 0;
	if (!tr || !on()) return rf(f);
	if (op_point()) crash_here("close");
	int r = rf(f);
	if (fault("disk.close_fails", fs::cfg.p_close)) { failed++; errno = EIO; return EOF; }
	return r;
}
// how many bytes of a write of n bytes reach the disk; <0: error (errno set)
static ssize_t plan_write(int fd, size_t n) {
	(void)fd;
	if (op_point()) { return -2; }
	if (fault("disk.write_fails", fs::cfg.p_write)) { failed++; errno = errs_write[fault_value("disk.write_errno", 3)]; return -1; }
	size_t m = n;
	if (n > 1 && fault("disk.short_write", fs::cfg.p_short)) m = 1 + fault_value("disk.short_len", n - 1);
	if (fs::cfg.disk_bytes >= 0) {
		if (fs::cfg.disk_bytes == 0) { Guard g; failed++; count(R->faults, R->nfaults_c, "disk.full", 1); errno = ENOSPC; return -1; }
		if ((i64)m > fs::cfg.disk_bytes) m = fs::cfg.disk_bytes;
		fs::cfg.disk_bytes -= m;
	}
	return m;
}
namespace sim { ssize_t net_write(int fd, const void *p, size_t n); ssize_t net_read(int fd, void *p, size_t n);
ssize_t net_writev(int fd, const struct iovec *v, int c); ssize_t net_readv(int fd, const struct iovec *v, int c); }
static ssize_t sysret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
EXPORT ssize_t write(int fd, const void *p, size_t n) {
	if (net_owns(fd)) return net_write(fd, p, n);
	if (!on() || fd < 0 || fd >= 4096 || !tracked[fd]) return sysret(raw_syscall(SYS_write, fd, (long)p, n));
	{ Guard g; schedpoint(); }
	ssize_t m = plan_write(fd, n);
	if (m == -2) { size_t k = n * fs::cfg.crash_frac / 1000; if (k) raw_syscall(SYS_write, fd, (long)p, k); crash_here("write"); }
	if (m < 0) return -1;
	return sysret(raw_syscall(SYS_write, fd, (long)p, m));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
	if (net_owns(fd)) return net_writev(fd, v, c);
	if (!on() || fd < 0 || fd >= 4096 || !tracked[fd]) return sysret(raw_syscall(SYS_writev, fd, (long)v, c));
	{ Guard g; schedpoint(); }
	size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
	ssize_t m = plan_write(fd, n);
	bool crash = m == -2;
	if (crash) m = n * fs::cfg.crash_frac / 1000;
	if (m < 0) return -1;
	size_t left = m;
	for (int i = 0; i < c && left; ++i) { size_t k = v[i].iov_len < left ? v[i].iov_len : left; raw_syscall(SYS_write, fd, (long)v[i].iov_base, k); left -= k; }
	if (crash) crash_here("write");
	return m;
}
EXPORT ssize_t read(int fd, void *p, size_t n) { if (net_owns(fd)) return net_read(fd, p, n); return sysret(raw_syscall(SYS_read, fd, (long)p, n)); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { if (net_owns(fd)) return net_readv(fd, v, c); return sysret(raw_syscall(SYS_readv, fd, (long)v, c)); }
EXPORT int close(int fd) {
	if (net_owns(fd)) return net_close(fd);
	if (fd >= 0 && fd < 4096) tracked[fd] = 0;
	return sysret(raw_syscall(SYS_close, fd));
}
static int open_impl(int dfd, const char *name, int flags, int mode) {
	if (on() && (flags & O_ACCMODE) != O_RDONLY) {
		{ Guard g; schedpoint(); }
		if (op_point()) crash_here("open");
		if (fault("disk.open_fails", fs::cfg.p_open)) { failed++; errno = errs_open[fault_value("disk.open_errno", 5)]; return -1; }
		int fd = sysret(raw_syscall(SYS_openat, dfd, (long)name, flags, mode));
		if (fd >= 0 && fd < 4096) tracked[fd] = 1;
		return fd;
	}
	return sysret(raw_syscall(SYS_openat, dfd, (long)name, flags, mode));
}
EXPORT int open(const char *name, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return open_impl(AT_FDCWD, name, flags, m); }
EXPORT int open64(const char *name, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return open_impl(AT_FDCWD, name, flags, m); }
#define SIMPLE_OP(what, kind, prob, call) \
	if (on()) { \
		{ Guard g; schedpoint(); } \
		if (op_point()) crash_here(what); \
		if (fault(kind, prob)) { failed++; errno = EACCES; return -1; } \
	} \
	return sysret(call);
EXPORT int unlink(const char *p) noexcept { SIMPLE_OP("unlink", "disk.unlink_fails", fs::cfg.p_unlink, raw_syscall(SYS_unlink, (long)p)) }
EXPORT int unlinkat(int d, const char *p, int f) noexcept { SIMPLE_OP("unlink", "disk.unlink_fails", fs::cfg.p_unlink, raw_syscall(SYS_unlinkat, d, (long)p, f)) }
EXPORT int remove(const char *p) noexcept {
	if (on()) { { Guard g; schedpoint(); } if (op_point()) crash_here("remove"); if (fault("disk.unlink_fails", fs::cfg.p_unlink)) { failed++; errno = EACCES; return -1; } }
	int r = sysret(raw_syscall(SYS_unlink, (long)p));
	if (r && (errno == EISDIR || errno == EPERM)) r = sysret(raw_syscall(SYS_rmdir, (long)p));
	return r;
}
EXPORT int rename(const char *a, const char *b) noexcept { SIMPLE_OP("rename", "disk.rename_fails", fs::cfg.p_rename, raw_syscall(SYS_rename, (long)a, (long)b)) }
EXPORT int mkdir(const char *p, mode_t m) noexcept { SIMPLE_OP("mkdir", "disk.mkdir_fails", fs::cfg.p_open, raw_syscall(SYS_mkdir, (long)p, m)) }
