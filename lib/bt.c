/* The command of the generated build graphs (C19, C20).
 *   bt -l LOG -i ID -p PARAM [-c] [-r] [-d DEPFILE -t TARGET] [-R RSPFILE] [-D dotslash] -o OUT... -- IN...
 * It logs when it starts and ends, checks that what it reads is complete, follows the "inc" lines of
 * its inputs when it writes a dependency file, and writes a digest of everything it read. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static const char *logf_, *id;
static uint64_t H = 1469598103934665603ull;
static char *deps[4096]; static int ndeps;

static void say(const char *what, const char *arg)
{
	char b[8192]; int n = snprintf(b, sizeof b, "%s\t%s\t%s\n", what, id, arg ? arg : "");
	int fd = open(logf_, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (fd < 0 || write(fd, b, n) != n) exit(9);
	close(fd);
}
static void add(const char *p, size_t n) { for (size_t i = 0; i < n; i++) { H ^= (unsigned char)p[i]; H *= 1099511628211ull; } }
static char *slurp(const char *path, size_t *len)
{
	int fd = open(path, O_RDONLY); size_t cap = 1 << 16, n = 0; char *b;
	if (fd < 0) return 0;
	b = malloc(cap + 1);
	for (;;) {
		ssize_t r = read(fd, b + n, cap - n);
		if (r < 0) return 0;
		if (!r) break;
		n += r;
		if (n == cap) b = realloc(b, (cap *= 2) + 1);
	}
	close(fd); b[n] = 0; *len = n; return b;
}
static void msleep(long ms) { struct timespec t = {ms / 1000, (ms % 1000) * 1000000}; nanosleep(&t, 0); }
static int follow, dotslash;
static void readin(const char *path, int isdep)
{
	size_t n; char *b = slurp(path, &n);
	if (!b) { say("M", path); fprintf(stderr, "bt: %s: missing\n", path); exit(4); }
	if (n < 4 || strcmp(b + n - 4, "END\n")) { say("B", path); fprintf(stderr, "bt: %s: incomplete\n", path); exit(5); }
	add("<", 1); add(b, n); add(">", 1);
	if (!follow) return;
	for (char *p = b; p && *p; ) {
		char *e = strchr(p, '\n');
		if (e) *e++ = 0;
		if (!strncmp(p, "inc ", 4)) {
			int seen = 0;
			for (int i = 0; i < ndeps; i++) if (!strcmp(deps[i], p + 4)) seen = 1;
			if (!seen) { deps[ndeps++] = strdup(p + 4); readin(p + 4, 1); }
		}
		p = e;
	}
}
static void depname(FILE *f, const char *p)
{
	for (; *p; p++) {
		if (*p == ' ' || *p == '#') fputc('\\', f);
		if (*p == '$') fputc('$', f);
		fputc(*p, f);
	}
}
int main(int argc, char **argv)
{
	const char *param = "", *dep = 0, *target = 0, *rsp = 0; char *outs[64]; int nout = 0, coarse = 0, restat = 0, i;
	for (i = 1; i < argc; i++) {
		char *a = argv[i];
		if (!strcmp(a, "-l")) logf_ = argv[++i];
		else if (!strcmp(a, "-i")) id = argv[++i];
		else if (!strcmp(a, "-p")) param = argv[++i];
		else if (!strcmp(a, "-c")) coarse = 1;
		else if (!strcmp(a, "-r")) restat = 1;
		else if (!strcmp(a, "-D")) dotslash = 1;
		else if (!strcmp(a, "-d")) { dep = argv[++i]; follow = 1; }
		else if (!strcmp(a, "-t")) target = argv[++i];
		else if (!strcmp(a, "-R")) rsp = argv[++i];
		else if (!strcmp(a, "-o")) { for (i++; i < argc && strcmp(argv[i], "--"); i++) outs[nout++] = argv[i]; i++; break; }
	}
	say("S", 0);
	/* what happens to this run is told by a file that is no part of the command line */
	char cp[256], mode[64] = ""; long ms = 0, ms2 = 0; size_t cn; char *c;
	snprintf(cp, sizeof cp, "ctl/%s", id);
	if ((c = slurp(cp, &cn))) sscanf(c, "%ld %ld %60s", &ms, &ms2, mode);
	if (ms) msleep(ms);
	add(param, strlen(param));
	if (rsp) {
		size_t n; char *b = slurp(rsp, &n);
		if (!b) { say("M", rsp); return 4; }
		add("@", 1); add(b, n);
	}
	int first = i;
	for (; i < argc; i++) readin(argv[i], 0);
	if (!strcmp(mode, "failearly")) { say("F", 0); return 3; }
	if (coarse) { H ^= H >> 32; H = (H ^ H >> 16) % 3; }
	for (int o = 0; o < nout; o++) {
		char want[128]; int n = snprintf(want, sizeof want, "%016llx %d\nEND\n", (unsigned long long)H, o); size_t on;
		char *old = restat ? slurp(outs[o], &on) : 0;
		if (old && on == (size_t)n && !memcmp(old, want, n) && !*mode) continue;
		int fd = open(outs[o], O_WRONLY | O_CREAT | O_TRUNC, 0666);
		if (fd < 0) { say("O", outs[o]); perror(outs[o]); return 6; }
		if (write(fd, want, 5) != 5) return 6;
		if (ms2) msleep(ms2);
		if (!strcmp(mode, "fail")) { say("F", 0); return 3; }
		if (!strcmp(mode, "kill")) { say("F", 0); raise(SIGKILL); }
		if (write(fd, want + 5, n - 5) != n - 5) return 6;
		close(fd);
	}
	if (!strcmp(mode, "faillate")) { say("F", 0); return 1; }
	if (dep) {
		FILE *f = fopen(dep, "w");
		if (!f) { say("O", dep); return 6; }
		depname(f, target); fputs(":", f);
		for (int k = first; k < argc && argc % 3; k++) { fputs(k % 3 ? " " : " \\\n  ", f); depname(f, argv[k]); }
		for (int k = 0; k < ndeps; k++) { fputs(k % 3 ? " " : " \\\n ", f); if (dotslash) fputs("./", f); depname(f, deps[k]); }
		fputs("\n", f);
		if (argc % 2) for (int k = 0; k < ndeps; k++) { fputs("\n", f); if (dotslash) fputs("./", f); depname(f, deps[k]); fputs(":\n", f); }
		fclose(f);
	}
	say("E", 0);
	printf("ran %s\n", id);
	return 0;
}
