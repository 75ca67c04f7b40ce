/* LD_PRELOAD library for C09, active in muon only (its children do not inherit it):
 * - readdir returns the entries of a directory in an order chosen by SHIM_SEED
 * - wall clock functions are shifted by SHIM_TIME seconds
 * - every path opened for writing, created, renamed or deleted is written to SHIM_LOG
 * - with SHIM_EXEC, every process started is written there, too */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int logfd = -1;
static uint64_t seed;
static long shift;
static int execs;

static pid_t self;

__attribute__((constructor)) static void
init(void)
{
	const char *s = getenv("SHIM_LOG");
	if (s) {
		logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
	}
	seed = (s = getenv("SHIM_SEED")) ? strtoull(s, 0, 10) : 0;
	shift = (s = getenv("SHIM_TIME")) ? atol(s) : 0;
	self = getpid();
	execs = getenv("SHIM_EXEC") != 0;
	unsetenv("SHIM_EXEC");
	unsetenv("SHIM_LOG");
	unsetenv("SHIM_SEED");
	unsetenv("SHIM_TIME");
	unsetenv("LD_PRELOAD");
	unsetenv("GLIBC_TUNABLES");
}

static void
note(const char *op, int dirfd, const char *path)
{
	char buf[2 * PATH_MAX + 64], cwd[PATH_MAX];
	int n;
	if (logfd < 0 || !path) {
		return;
	}
	if (path[0] == '/') {
		n = snprintf(buf, sizeof buf, "%s %s\n", op, path);
	} else {
		if (dirfd == AT_FDCWD) {
			if (!getcwd(cwd, sizeof cwd)) {
				strcpy(cwd, "?");
			}
		} else {
			char l[64];
			snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
			ssize_t k = readlink(l, cwd, sizeof cwd - 1);
			cwd[k < 0 ? 0 : k] = 0;
		}
		n = snprintf(buf, sizeof buf, "%s %s/%s\n", op, cwd, path);
	}
	if (n > 0 && n < (int)sizeof buf) {
		ssize_t w = write(logfd, buf, n);
		(void)w;
	}
}

#define REAL(ret, name, ...)                                      \
	static ret (*real)(__VA_ARGS__);                          \
	if (!real) {                                              \
		real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name); \
	}

#define WRITES(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))

#define OPEN(fn)                                            \
	int fn(const char *p, int flags, ...)               \
	{                                                   \
		REAL(int, #fn, const char *, int, ...)      \
		mode_t mode = 0;                            \
		if (flags & (O_CREAT | __O_TMPFILE)) {      \
			va_list ap;                         \
			va_start(ap, flags);                \
			mode = va_arg(ap, int);             \
			va_end(ap);                         \
		}                                           \
		if (WRITES(flags)) {                        \
			note("open", AT_FDCWD, p);          \
		}                                           \
		return real(p, flags, mode);                \
	}
OPEN(open)
OPEN(open64)

#define OPENAT(fn)                                          \
	int fn(int d, const char *p, int flags, ...)        \
	{                                                   \
		REAL(int, #fn, int, const char *, int, ...) \
		mode_t mode = 0;                            \
		if (flags & (O_CREAT | __O_TMPFILE)) {      \
			va_list ap;                         \
			va_start(ap, flags);                \
			mode = va_arg(ap, int);             \
			va_end(ap);                         \
		}                                           \
		if (WRITES(flags)) {                        \
			note("open", d, p);                 \
		}                                           \
		return real(d, p, flags, mode);             \
	}
OPENAT(openat)
OPENAT(openat64)

int
creat(const char *p, mode_t m)
{
	REAL(int, "creat", const char *, mode_t)
	note("open", AT_FDCWD, p);
	return real(p, m);
}

#define FOPEN(fn)                                              \
	FILE *fn(const char *p, const char *m)                 \
	{                                                      \
		REAL(FILE *, #fn, const char *, const char *)  \
		if (strpbrk(m, "wa+")) {                       \
			note("open", AT_FDCWD, p);             \
		}                                              \
		return real(p, m);                             \
	}
FOPEN(fopen)
FOPEN(fopen64)

int
mkstemp(char *t)
{
	REAL(int, "mkstemp", char *)
	note("open", AT_FDCWD, t);
	return real(t);
}

char *
mkdtemp(char *t)
{
	REAL(char *, "mkdtemp", char *)
	note("mkdir", AT_FDCWD, t);
	return real(t);
}

#define ONE(fn)                            \
	int fn(const char *p)              \
	{                                  \
		REAL(int, #fn, const char *) \
		note(#fn, AT_FDCWD, p);    \
		return real(p);            \
	}
ONE(unlink)
ONE(rmdir)
ONE(remove)

#define TWO(fn, both)                                      \
	int fn(const char *a, const char *b)               \
	{                                                  \
		REAL(int, #fn, const char *, const char *) \
		if (both) {                                \
			note(#fn, AT_FDCWD, a);            \
		}                                          \
		note(#fn, AT_FDCWD, b);                    \
		return real(a, b);                         \
	}
TWO(rename, 1)
TWO(symlink, 0)
TWO(link, 0)

#define MODE(fn)                                   \
	int fn(const char *p, mode_t m)            \
	{                                          \
		REAL(int, #fn, const char *, mode_t) \
		note(#fn, AT_FDCWD, p);            \
		return real(p, m);                 \
	}
MODE(mkdir)
MODE(chmod)

int
truncate(const char *p, off_t l)
{
	REAL(int, "truncate", const char *, off_t)
	note("truncate", AT_FDCWD, p);
	return real(p, l);
}

int
unlinkat(int d, const char *p, int f)
{
	REAL(int, "unlinkat", int, const char *, int)
	note("unlink", d, p);
	return real(d, p, f);
}

int
utimensat(int d, const char *p, const struct timespec t[2], int f)
{
	REAL(int, "utimensat", int, const char *, const struct timespec *, int)
	note("utime", d, p);
	return real(d, p, t, f);
}

/* directory order */
struct list {
	DIR *d;
	struct dirent **e;
	unsigned n, i;
	struct list *next;
};
static struct list *lists;

static struct dirent *
next_ent(DIR *d, struct dirent *(*real)(DIR *))
{
	struct list *l;
	struct dirent *e;
	for (l = lists; l && l->d != d; l = l->next) {
	}
	if (!l) {
		l = calloc(1, sizeof *l);
		l->d = d;
		l->next = lists;
		lists = l;
		while ((e = real(d))) {
			l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
			l->e[l->n] = malloc(e->d_reclen);
			memcpy(l->e[l->n++], e, e->d_reclen);
		}
		uint64_t s = seed * 6364136223846793005ull + 1442695040888963407ull;
		for (unsigned i = l->n; i > 1; i--) {
			s = s * 6364136223846793005ull + 1442695040888963407ull;
			unsigned j = (s >> 33) % i;
			struct dirent *t = l->e[i - 1];
			l->e[i - 1] = l->e[j];
			l->e[j] = t;
		}
		note("readdir", AT_FDCWD, "/");
	}
	return l->i < l->n ? l->e[l->i++] : 0;
}

struct dirent *
readdir(DIR *d)
{
	REAL(struct dirent *, "readdir", DIR *)
	return seed ? next_ent(d, real) : real(d);
}

struct dirent64 *
readdir64(DIR *d)
{
	REAL(struct dirent *, "readdir64", DIR *)
	return (struct dirent64 *)(seed ? next_ent(d, real) : real(d));
}

int
closedir(DIR *d)
{
	REAL(int, "closedir", DIR *)
	struct list **p, *l;
	for (p = &lists; (l = *p); p = &l->next) {
		if (l->d == d) {
			*p = l->next;
			break;
		}
	}
	return real(d);
}

/* clocks */
time_t
time(time_t *t)
{
	REAL(time_t, "time", time_t *)
	time_t r = real(0) + shift;
	if (t) {
		*t = r;
	}
	return r;
}

int
gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	REAL(int, "gettimeofday", struct timeval *, void *)
	int r = real(tv, tz);
	tv->tv_sec += shift;
	return r;
}

int
clock_gettime(clockid_t c, struct timespec *t)
{
	REAL(int, "clock_gettime", clockid_t, struct timespec *)
	int r = real(c, t);
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
		t->tv_sec += shift;
	}
	return r;
}

#define SPAWN(ret, fn, proto, args)            \
	ret fn proto                           \
	{                                      \
		static ret(*real) proto;       \
		if (!real) {                   \
			real = (ret(*) proto)dlsym(RTLD_NEXT, #fn); \
		}                              \
		if (execs) {                   \
			note("process", AT_FDCWD, "/" #fn); \
		}                              \
		return real args;              \
	}
SPAWN(pid_t, fork, (void), ())
SPAWN(int, system, (const char *c), (c))
SPAWN(FILE *, popen, (const char *c, const char *m), (c, m))
SPAWN(int, execve, (const char *p, char *const a[], char *const e[]), (p, a, e))
SPAWN(int, execv, (const char *p, char *const a[]), (p, a))
SPAWN(int, execvp, (const char *p, char *const a[]), (p, a))
SPAWN(int, posix_spawn, (pid_t *i, const char *p, const void *f, const void *t, char *const a[], char *const e[]), (i, p, f, t, a, e))
SPAWN(int, posix_spawnp, (pid_t *i, const char *p, const void *f, const void *t, char *const a[], char *const e[]), (i, p, f, t, a, e))
