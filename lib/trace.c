/* LD_PRELOAD library for C13: writes to TRACE_LOG every file under TRACE_ROOT that this process
 * (and its children) opened, executed or loaded. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static const char *root, *log_;

static void
note(const char *p)
{
	char buf[PATH_MAX + 8];
	if (!root || !log_ || strncmp(p, root, strlen(root)) != 0) {
		return;
	}
	int n = snprintf(buf, sizeof buf, "%s\n", p);
	int fd = syscall(SYS_openat, AT_FDCWD, log_, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
	if (fd >= 0) {
		ssize_t w = write(fd, buf, n);
		(void)w;
		syscall(SYS_close, fd);
	}
}

static void
note_fd(int fd)
{
	char l[64], p[PATH_MAX];
	if (fd < 0 || !root) {
		return;
	}
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t k = readlink(l, p, sizeof p - 1);
	if (k > 0) {
		p[k] = 0;
		note(p);
	}
}

static int
loaded(struct dl_phdr_info *i, size_t s, void *c)
{
	char p[PATH_MAX];
	if (i->dlpi_name && *i->dlpi_name && realpath(i->dlpi_name, p)) {
		note(p);
	}
	return 0;
}

__attribute__((constructor)) static void
init(void)
{
	char p[PATH_MAX];
	root = getenv("TRACE_ROOT");
	log_ = getenv("TRACE_LOG");
	ssize_t k = readlink("/proc/self/exe", p, sizeof p - 1);
	if (k > 0) {
		p[k] = 0;
		note(p);
	}
	dl_iterate_phdr(loaded, 0);
}

#define REAL(ret, name, ...)                                        \
	static ret (*real)(__VA_ARGS__);                            \
	if (!real) {                                                \
		real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name); \
	}
#define MODE(flags)                                     \
	mode_t mode = 0;                                \
	if (flags & (O_CREAT | __O_TMPFILE)) {          \
		va_list ap;                             \
		va_start(ap, flags);                    \
		mode = va_arg(ap, int);                 \
		va_end(ap);                             \
	}
#define RD(flags) (((flags) & O_ACCMODE) != O_WRONLY && !((flags) & O_TRUNC))
#define OPEN(fn)                                       \
	int fn(const char *p, int flags, ...)          \
	{                                              \
		REAL(int, #fn, const char *, int, ...) \
		MODE(flags)                            \
		int fd = real(p, flags, mode);         \
		if (RD(flags)) {                       \
			note_fd(fd);                   \
		}                                      \
		return fd;                             \
	}
OPEN(open)
OPEN(open64)
#define OPENAT(fn)                                          \
	int fn(int d, const char *p, int flags, ...)        \
	{                                                   \
		REAL(int, #fn, int, const char *, int, ...) \
		MODE(flags)                                 \
		int fd = real(d, p, flags, mode);           \
		if (RD(flags)) {                            \
			note_fd(fd);                        \
		}                                           \
		return fd;                                  \
	}
OPENAT(openat)
OPENAT(openat64)
#define OPEN2(fn)                                 \
	int fn(const char *p, int flags)          \
	{                                         \
		REAL(int, #fn, const char *, int) \
		int fd = real(p, flags);          \
		if (RD(flags)) {                  \
			note_fd(fd);              \
		}                                 \
		return fd;                        \
	}
OPEN2(__open_2)
OPEN2(__open64_2)
#define FOPEN(fn)                                             \
	FILE *fn(const char *p, const char *m)                \
	{                                                     \
		REAL(FILE *, #fn, const char *, const char *) \
		FILE *f = real(p, m);                         \
		if (f && m[0] != 'w') {                       \
			note_fd(fileno(f));                   \
		}                                             \
		return f;                                     \
	}
FOPEN(fopen)
FOPEN(fopen64)
