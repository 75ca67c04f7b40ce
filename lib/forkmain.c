/*
 * Runs many muon command lines without paying for process start-up each time:
 * muon's main() is renamed to muon_main() at link time and called in a forked
 * child, so every job still starts from a fresh, untouched process image.
 *
 * Job list on stdin, one record per job, fields NUL-separated:
 *   timeout_ms  cwd  stdin-path  output-path  nargs  arg...
 * Result lines on stdout:  index exit-status-or-minus-signal usec timed-out
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

int muon_main(int argc, char *argv[], char *envp[]);
extern char **environ;

static char *
field(void)
{
	char *line = NULL;
	size_t cap = 0;
	ssize_t r = getdelim(&line, &cap, '\0', stdin);
	if (r < 0) {
		free(line);
		return NULL;
	}
	return line;
}

static uint64_t
now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000ull + ts.tv_nsec / 1000;
}

static void on_chld(int s) { (void)s; }

int
main(void)
{
	signal(SIGCHLD, on_chld);
	sigset_t set, old;
	sigemptyset(&set);
	sigaddset(&set, SIGCHLD);
	sigprocmask(SIG_BLOCK, &set, &old);

	char *f;
	for (long idx = 0; (f = field()); ++idx) {
		long timeout_ms = atol(f);
		char *cwd = field(), *in = field(), *out = field(), *n = field();
		int nargs = atoi(n);
		char **argv = calloc(nargs + 2, sizeof(char *));
		argv[0] = "muon";
		for (int i = 0; i < nargs; ++i) {
			argv[i + 1] = field();
		}

		uint64_t t0 = now();
		pid_t pid = fork();
		if (pid == 0) {
			sigprocmask(SIG_SETMASK, &old, NULL);
			signal(SIGCHLD, SIG_DFL);
			setsid();
			int o = open(out, O_CREAT | O_TRUNC | O_WRONLY, 0644), i = open(in, O_RDONLY);
			if (o < 0 || i < 0 || chdir(cwd) != 0) {
				_exit(99);
			}
			dup2(i, 0); dup2(o, 1); dup2(o, 2);
			close(i); close(o);
			/* the job list was buffered in stdin's FILE: drop it */
			stdin = fdopen(0, "r");
			struct rlimit rl = { 256u << 20, 256u << 20 };
			setrlimit(RLIMIT_FSIZE, &rl);
			exit(muon_main(nargs + 1, argv, environ));
		}
		int st = 0, to = 0;
		while (1) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) {
				break;
			}
			uint64_t el = (now() - t0) / 1000;
			if (el >= (uint64_t)timeout_ms) {
				to = 1;
				kill(-pid, SIGKILL);
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				break;
			}
			uint64_t left = timeout_ms - el;
			if (left > 200) left = 200;
			struct timespec ts = { left / 1000, (left % 1000) * 1000000 };
			sigtimedwait(&set, NULL, &ts);
		}
		printf("%ld %d %lu %d\n", idx, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st),
			(unsigned long)(now() - t0), to);
		fflush(stdout);
		for (int i = 0; i < nargs; ++i) free(argv[i + 1]);
		free(argv); free(f); free(cwd); free(in); free(out); free(n);
	}
	return 0;
}
