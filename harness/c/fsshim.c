/*
	Interposes all functions that change files below a directory, so that a process can be
	ended, or an error be returned, at any of these operations. It also tracks whether a
	watched file ever consists of data that has not reached the disk.
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static char watched[PATH_MAX];
static long count, fail_at = -1, cut;
static int mode, error, torn;
static ino_t dirty[256];
static int n_dirty;
static char last_op[256];

enum { NONE, EXIT, FAIL };

void shim_set(const char* p, const char* w, long at, int m, int e, long c) {
	snprintf(prefix, sizeof(prefix), "%s", p);
	snprintf(watched, sizeof(watched), "%s", w);
	count = 0;
	fail_at = at;
	mode = m;
	error = e;
	cut = c;
	torn = 0;
	n_dirty = 0;
	last_op[0] = 0;
}
long shim_count(void) { return count; }
int shim_torn(void) { return torn; }
const char* shim_op(void) { return last_op; }

static int below(const char* path) {
	size_t n = strlen(prefix);
	return n && !strncmp(path, prefix, n);
}

static int path_of(int fd, char* buf) {
	char link[64];
	snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
	ssize_t n = readlink(link, buf, PATH_MAX - 1);
	if (n < 0)
		return 0;
	buf[n] = 0;
	return below(buf);
}

static int relevant(int dirfd, const char* path) {
	char buf[2 * PATH_MAX], dir[PATH_MAX];
	if (!prefix[0] || !path)
		return 0;
	if (path[0] == '/')
		return below(path);
	if (dirfd == AT_FDCWD) {
		if (!getcwd(dir, sizeof(dir)))
			return 0;
	} else {
		char link[64];
		snprintf(link, sizeof(link), "/proc/self/fd/%d", dirfd);
		ssize_t n = readlink(link, dir, sizeof(dir) - 1);
		if (n < 0)
			return 0;
		dir[n] = 0;
	}
	snprintf(buf, sizeof(buf), "%s/%s", dir, path);
	return below(buf);
}

// Called before any operation; returns non-zero if it has to fail
static int step(const char* op) {
	long n = count++;
	if (n == fail_at) {
		snprintf(last_op, sizeof(last_op), "%s", op);
		if (mode == EXIT)
			_exit(99);
		if (mode == FAIL) {
			errno = error;
			return 1;
		}
	}
	return 0;
}

static int is_dirty(ino_t ino) {
	for (int i = 0; i < n_dirty; i++)
		if (dirty[i] == ino)
			return 1;
	return 0;
}

static void mark(int fd) {
	struct stat st;
	if (fstat(fd, &st) == 0 && !is_dirty(st.st_ino) && n_dirty < 256)
		dirty[n_dirty++] = st.st_ino;
}

static void clean(int fd) {
	struct stat st;
	if (fstat(fd, &st))
		return;
	for (int i = 0; i < n_dirty; i++)
		if (dirty[i] == st.st_ino)
			dirty[i--] = dirty[--n_dirty];
}

// Called after any operation: could a power loss leave something incomplete?
static void look(void) {
	struct stat st;
	if (watched[0] && stat(watched, &st) == 0 && is_dirty(st.st_ino))
		torn = 1;
}

#define REAL(name) static __typeof__(name)* real; if (!real) real = dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void* buf, size_t n) {
	REAL(write);
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(fd, path))
		return real(fd, buf, n);
	// Only some of the data may be written
	if (count == fail_at && cut >= 0 && n > 1) {
		real(fd, buf, cut ? n / 2 : 1);
		mark(fd);
		look();
	}
	if (step("write"))
		return -1;
	ssize_t r = real(fd, buf, n);
	mark(fd);
	look();
	return r;
}

ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t o) {
	REAL(pwrite64);
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(fd, path))
		return real(fd, buf, n, o);
	if (step("pwrite"))
		return -1;
	ssize_t r = real(fd, buf, n, o);
	mark(fd);
	look();
	return r;
}

ssize_t writev(int fd, const struct iovec* v, int n) {
	REAL(writev);
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(fd, path))
		return real(fd, v, n);
	if (step("writev"))
		return -1;
	ssize_t r = real(fd, v, n);
	mark(fd);
	look();
	return r;
}

ssize_t sendfile64(int out, int in, off64_t* o, size_t n) {
	static ssize_t (*real)(int, int, off64_t*, size_t);
	if (!real)
		real = dlsym(RTLD_NEXT, "sendfile64");
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(out, path))
		return real(out, in, o, n);
	if (step("sendfile"))
		return -1;
	ssize_t r = real(out, in, o, n);
	mark(out);
	look();
	return r;
}

ssize_t copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned int flags) {
	REAL(copy_file_range);
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(out, path))
		return real(in, io, out, oo, n, flags);
	if (step("copy_file_range"))
		return -1;
	ssize_t r = real(in, io, out, oo, n, flags);
	mark(out);
	look();
	return r;
}

int ftruncate64(int fd, off64_t n) {
	REAL(ftruncate64);
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(fd, path))
		return real(fd, n);
	if (step("ftruncate"))
		return -1;
	int r = real(fd, n);
	mark(fd);
	look();
	return r;
}

int ftruncate(int fd, off_t n) {
	return ftruncate64(fd, n);
}

#define FD_OP(name, after)					\
	int name(int fd) {					\
		REAL(name);					\
		char path[PATH_MAX];				\
		if (!prefix[0] || !path_of(fd, path))		\
			return real(fd);			\
		if (step(#name))				\
			return -1;				\
		int r = real(fd);				\
		if (!r) { after; }				\
		look();						\
		return r;					\
	}
FD_OP(fsync, clean(fd))
FD_OP(fdatasync, clean(fd))

int syncfs(int fd) {
	REAL(syncfs);
	int r = real(fd);
	if (!r)
		n_dirty = 0;
	return r;
}

void sync(void) {
	REAL(sync);
	real();
	n_dirty = 0;
}

#define OP(name, cond, params, args)				\
	int name params {					\
		REAL(name);					\
		if (!(cond))					\
			return real args;			\
		if (step(#name))				\
			return -1;				\
		int r = real args;				\
		look();						\
		return r;					\
	}
OP(rename, relevant(AT_FDCWD, a) || relevant(AT_FDCWD, b), (const char* a, const char* b), (a, b))
OP(renameat, relevant(x, a) || relevant(y, b), (int x, const char* a, int y, const char* b), (x, a, y, b))
OP(renameat2, relevant(x, a) || relevant(y, b), (int x, const char* a, int y, const char* b, unsigned int f), (x, a, y, b, f))
OP(link, relevant(AT_FDCWD, b), (const char* a, const char* b), (a, b))
OP(linkat, relevant(y, b), (int x, const char* a, int y, const char* b, int f), (x, a, y, b, f))
OP(symlink, relevant(AT_FDCWD, b), (const char* a, const char* b), (a, b))
OP(unlink, relevant(AT_FDCWD, a), (const char* a), (a))
OP(unlinkat, relevant(x, a), (int x, const char* a, int f), (x, a, f))
OP(chmod, relevant(AT_FDCWD, a), (const char* a, mode_t m), (a, m))
OP(fchmodat, relevant(x, a), (int x, const char* a, mode_t m, int f), (x, a, m, f))
OP(truncate64, relevant(AT_FDCWD, a), (const char* a, off64_t n), (a, n))

int fchmod(int fd, mode_t m) {
	REAL(fchmod);
	char path[PATH_MAX];
	if (!prefix[0] || !path_of(fd, path))
		return real(fd, m);
	if (step("fchmod"))
		return -1;
	return real(fd, m);
}

static int do_open(int dirfd, const char* path, int flags, mode_t m, const char* op) {
	static int (*real)(int, const char*, int, ...);
	if (!real)
		real = dlsym(RTLD_NEXT, "openat64");
	int writing = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
	if (!writing || !relevant(dirfd, path))
		return real(dirfd, path, flags, m);
	if (step(op))
		return -1;
	int fd = real(dirfd, path, flags, m);
	if (fd >= 0 && (flags & (O_CREAT | O_TRUNC))) {
		struct stat st;
		// It has just been created, or it has been emptied
		if (fstat(fd, &st) == 0 && st.st_size == 0)
			mark(fd);
	}
	look();
	return fd;
}

#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char* path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m, "open"); }
int open64(const char* path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m, "open"); }
int openat(int d, const char* path, int flags, ...) { MODE return do_open(d, path, flags, m, "open"); }
int openat64(int d, const char* path, int flags, ...) { MODE return do_open(d, path, flags, m, "open"); }
