/* Loaded with LD_PRELOAD into the Python simulation: files below one directory go through
   here, and listed calls fail. Counters start again with every operation. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

static char prefix[PATH_MAX]; static size_t plen;
static unsigned char tracked[4096];
static int nopen, nwrite, nclose, nmk, nren, fired[16];
static long capacity = -1; static int refusals, nfirst;
/* kinds: 0 open error, 1 short write, 2 EINTR, 3 write error, 4 close error, 5 capacity, 6 mkdir error, 7 rename error,
   8 write error, counting the writes to the first file opened only; capacity with a count: space is freed after so many refusals */
struct fault { int kind; int n; int count; long arg; };
static struct fault F[64]; static int nf;

__attribute__((visibility("default"))) void pre_dir(const char* p) { snprintf(prefix, sizeof prefix, "%s", p ? p : ""); plen = strlen(prefix); }
__attribute__((visibility("default"))) void pre_op(void) { nf = 0; nopen = nwrite = nclose = nmk = nren = 0; capacity = -1; refusals = nfirst = 0; }
__attribute__((visibility("default"))) void pre_fault(int kind, int n, int count, long arg) {
	if (kind == 5) { capacity = arg; refusals = count; return; }
	if (nf < 64) { F[nf].kind = kind; F[nf].n = n; F[nf].count = count; F[nf].arg = arg; nf++; }
}
__attribute__((visibility("default"))) int pre_fired(int kind) { return fired[kind]; }
__attribute__((visibility("default"))) int pre_count(int k) { return k == 0 ? nopen : k == 1 ? nwrite : nclose; }
__attribute__((visibility("default"))) int pre_tracked(int fd) { return fd >= 0 && fd < 4096 && tracked[fd]; }
/* number of files of the directory that are still open */
__attribute__((visibility("default"))) int pre_open(void) { int i, c = 0; for (i = 0; i < 4096; i++) c += tracked[i] != 0; return c; }

static int ours(const char* p) {
	char buf[PATH_MAX];
	if (!plen || !p) return 0;
	if (p[0] != '/') { if (!getcwd(buf, sizeof buf / 2)) return 0; strcat(buf, "/"); strncat(buf, p, sizeof buf / 2 - 2); p = buf; }
	return strncmp(p, prefix, plen) == 0;
}
static struct fault* hit(int kind, int n) {
	int i;
	for (i = 0; i < nf; i++) if (F[i].kind == kind && n >= F[i].n && (F[i].count == 0 || n < F[i].n + F[i].count)) return &F[i];
	return NULL;
}
#define REAL(name, type, ...) static type (*real)(__VA_ARGS__); if (!real) real = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
#define OPENBODY(call) \
	if ((fl & O_ACCMODE) != O_RDONLY && ours(p)) { \
		struct fault* f = hit(0, ++nopen); int fd; \
		if (f) { fired[0]++; errno = (int)f->arg; return -1; } \
		fd = call; if (fd >= 0 && fd < 4096) tracked[fd] = nopen == 1 ? 2 : 1; return fd; } \
	return call;
int open(const char* p, int fl, ...) { int m; va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); REAL("open", int, const char*, int, ...); OPENBODY(real(p, fl, m)) }
int open64(const char* p, int fl, ...) { int m; va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); REAL("open64", int, const char*, int, ...); OPENBODY(real(p, fl, m)) }
int openat(int d, const char* p, int fl, ...) { int m; va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); REAL("openat", int, int, const char*, int, ...); OPENBODY(real(d, p, fl, m)) }
int openat64(int d, const char* p, int fl, ...) { int m; va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); REAL("openat64", int, int, const char*, int, ...); OPENBODY(real(d, p, fl, m)) }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void* b, size_t n) {
	REAL("write", ssize_t, int, const void*, size_t);
	if (!pre_tracked(fd)) return real(fd, b, n);
	nwrite++;
	struct fault* f = hit(2, nwrite);
	if (f) { fired[2]++; errno = EINTR; return -1; }
	f = hit(3, nwrite);
	if (f) { fired[3]++; errno = (int)f->arg; return -1; }
	if (tracked[fd] == 2) {
		f = hit(8, ++nfirst);
		if (f) { fired[8]++; errno = (int)f->arg; return -1; }
	}
	f = hit(1, nwrite);
	if (f && n > 1) { size_t k = (size_t)f->arg; if (k < 1) k = 1; if (k < n) { n = k; fired[1]++; } }
	if (capacity >= 0) {
		if (n > 0 && capacity == 0) { fired[5]++; if (refusals && !--refusals) capacity = -1; errno = ENOSPC; return -1; }
		if ((long)n > capacity) { n = (size_t)capacity; fired[5]++; }
	}
	ssize_t r = real(fd, b, n);
	if (r > 0 && capacity >= 0) capacity -= r;
	return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
	REAL("writev", ssize_t, int, const struct iovec*, int);
	if (!pre_tracked(fd)) return real(fd, v, c);
	return c > 0 ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
}
int close(int fd) {
	REAL("close", int, int);
	if (!pre_tracked(fd)) return real(fd);
	tracked[fd] = 0; nclose++;
	real(fd);
	struct fault* f = hit(4, nclose);
	if (f) { fired[4]++; errno = (int)f->arg; return -1; }
	return 0;
}
int mkdir(const char* p, mode_t m) {
	REAL("mkdir", int, const char*, mode_t);
	if (ours(p)) { struct fault* f = hit(6, ++nmk); if (f) { fired[6]++; errno = (int)f->arg; return -1; } }
	return real(p, m);
}
int rename(const char* a, const char* b) {
	REAL("rename", int, const char*, const char*);
	if (ours(b)) { struct fault* f = hit(7, ++nren); if (f) { fired[7]++; errno = (int)f->arg; return -1; } }
	return real(a, b);
}
