/* The program that checks run as test, tool or generator: it appends exact events to a log and then
 * does what its arguments say, in order:
 *   log=FILE id=NAME   where to log, and under which name ("S name t pid pgid" now, "E name t pid" at the end)
 *   sleep=MS           sleep
 *   beat=MS            sleep, logging "B name t pid pgid" every 15 ms
 *   out=HEX err=HEX    write these bytes
 *   ecat=FILE          write FILE to standard error
 *   drip=HEX           write these bytes one by one
 *   close=FD           close a descriptor
 *   term=ignore        ignore SIGTERM
 *   child=MS           leave a child behind that lives for MS, with the pipes still open
 *   daemon=MS          the same with the pipes closed
 *   dump=FILE          append argv, environment, cwd and standard input
 *   touch=FILE copy=FROM:TO cat=FILE   file effects
 *   sig=N exit=N       end that way (default: exit 0)
 *   --                 the rest is data
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static const char *logf_, *id = "?";

static void
event(const char *k)
{
	char buf[4096];
	struct timespec t;
	int fd, n;
	if (!logf_) {
		return;
	}
	clock_gettime(CLOCK_MONOTONIC, &t);
	n = snprintf(buf, sizeof(buf), "%s %s %lld %d %d\n", k, id, (long long)t.tv_sec * 1000000000ll + t.tv_nsec, (int)getpid(), (int)getpgid(0));
	if ((fd = open(logf_, O_WRONLY | O_APPEND | O_CREAT, 0666)) < 0 || write(fd, buf, n) != n) {
		_exit(120);
	}
	close(fd);
}

static void
ms(const char *v)
{
	long n = atol(v);
	struct timespec t = { n / 1000, n % 1000 * 1000000 };
	while (nanosleep(&t, &t) == -1 && errno == EINTR) {
	}
}

static void
hex(int fd, const char *v)
{
	size_t n = strlen(v) / 2, i, at = 0;
	char *b = malloc(n + 1);
	for (i = 0; i < n; ++i) {
		unsigned x;
		sscanf(v + 2 * i, "%2x", &x);
		b[i] = x;
	}
	while (at < n) {
		ssize_t w = write(fd, b + at, n - at);
		if (w <= 0) {
			_exit(121);
		}
		at += w;
	}
	free(b);
}

static void
quoted(FILE *f, const char *k, const char *s, size_t n)
{
	fprintf(f, "%s ", k);
	for (size_t i = 0; i < n; ++i) {
		fprintf(f, "%02x", (unsigned char)s[i]);
	}
	fprintf(f, "\n");
}

static void
dump(const char *file, char **argv, int with_stdin)
{
	char *all = NULL;
	size_t len = 0;
	int fd = open(file, O_WRONLY | O_APPEND | O_CREAT, 0666);
	FILE *f = open_memstream(&all, &len);
	char cwd[8192];
	if (!f || fd < 0) {
		_exit(122);
	}
	fprintf(f, "RUN %s\n", id);
	for (; *argv; ++argv) {
		quoted(f, "A", *argv, strlen(*argv));
	}
	for (char **e = environ; *e; ++e) {
		quoted(f, "V", *e, strlen(*e));
	}
	if (getcwd(cwd, sizeof(cwd))) {
		quoted(f, "D", cwd, strlen(cwd));
	}
	if (with_stdin) {
		char *b = malloc(1 << 22);
		size_t n = fread(b, 1, 1 << 22, stdin);
		quoted(f, "I", b, n);
		free(b);
	}
	fprintf(f, "END\n");
	fclose(f);
	// in one piece, as others may write to the same file
	if (write(fd, all, len) != (ssize_t)len) {
		_exit(124);
	}
	close(fd);
	free(all);
}

static void
copy(const char *from, const char *to)
{
	char buf[65536];
	size_t n;
	FILE *i = fopen(from, "rb"), *o = to ? fopen(to, "wb") : stdout;
	if (!i || !o) {
		fprintf(stderr, "probe: %s: %s\n", i ? to : from, strerror(errno));
		_exit(123);
	}
	while ((n = fread(buf, 1, sizeof(buf), i))) {
		fwrite(buf, 1, n, o);
	}
	fclose(i);
	if (to) {
		fclose(o);
	} else {
		fflush(o);
	}
}

int
main(int argc, char **argv)
{
	int i, started = 0, rc = 0, sig = 0;
	for (i = 1; i < argc && strcmp(argv[i], "--"); ++i) {
		char *k = argv[i], *v = strchr(k, '=');
		if (!v) {
			continue;
		}
		size_t n = v++ - k;
#define IS(s) (n == sizeof(s) - 1 && !memcmp(k, s, n))
		if (IS("log")) {
			logf_ = v;
			continue;
		} else if (IS("id")) {
			id = v;
			continue;
		}
		if (!started) {
			event("S");
			started = 1;
		}
		if (IS("sleep")) {
			ms(v);
		} else if (IS("beat")) {
			long left = atol(v);
			for (; left > 0; left -= 15) {
				ms("15");
				event("B");
			}
		} else if (IS("out")) {
			hex(1, v);
		} else if (IS("err")) {
			hex(2, v);
		} else if (IS("term")) {
			signal(SIGTERM, SIG_IGN);
		} else if (IS("child") || IS("daemon")) {
			if (!fork()) {
				if (IS("daemon")) {
					close(0);
					close(1);
					close(2);
				}
				event("C");
				ms(v);
				event("X");
				_exit(0);
			}
		} else if (IS("dump")) {
			dump(v, argv + i + 1, 0);
		} else if (IS("dumpin")) {
			dump(v, argv + i + 1, 1);
		} else if (IS("touch")) {
			int fd = open(v, O_WRONLY | O_CREAT | O_TRUNC, 0666);
			close(fd);
		} else if (IS("copy")) {
			char *c = strchr(v, ':');
			*c = 0;
			copy(v, c + 1);
		} else if (IS("cat")) {
			copy(v, NULL);
		} else if (IS("ecat")) {
			FILE *f = fopen(v, "rb");
			char b[65536];
			size_t k;
			while (f && (k = fread(b, 1, sizeof(b), f))) {
				fwrite(b, 1, k, stderr);
			}
			if (f) {
				fclose(f);
			}
		} else if (IS("drip")) {
			char h[3] = { 0 };
			for (; v[0]; v += 2) {
				memcpy(h, v, 2);
				hex(1, h);
			}
		} else if (IS("close")) {
			close(atoi(v));
		} else if (IS("sig")) {
			sig = atoi(v);
		} else if (IS("exit")) {
			rc = atoi(v);
		}
	}
	if (!started) {
		event("S");
	}
	event("E");
	if (sig) {
		signal(sig, SIG_DFL);
		kill(getpid(), sig);
		pause();
	}
	_exit(rc);
}
