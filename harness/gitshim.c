/* Stand-in for git: hands over to the real one, but can log, delay, cut short,
 * kill or fail chosen invocations.
 *
 * VH_GIT    the real git
 * VH_DIR    directory for the counter and the log
 * VH_RULES  rule;rule;...   rule = class:nth:action[:arg[:arg]]
 *   class: any, log (any git log), stdin (git log --stdin), list (other git log),
 *          config, rev-parse, ls-files
 *   nth:   1-based among invocations of that class, or * for all,
 *          or h<mod>.<rem> by a hash of (VH_SEED, class, n)
 *   action: fail:RC        exit at once with RC, having written an error
 *           trunc:N:RC     pass on N bytes of stdout, then exit with RC
 *           sig:N:SIG      pass on N bytes of stdout, then die by signal SIG
 *           after:RC       run to the end, then exit with RC
 *           aftersig:SIG   run to the end, then die by signal
 *           delay:MS       wait first
 *           rdelay:MS      wait first, up to MS by hash
 *           late:MS        hold back the last byte of output and the exit
 *           meet:K         hold back the last byte of output until K have got there
 *           slow:CHUNK:MS  write output in chunks with pauses
 *           noise:N        write N bytes to stderr first
 *           noread:RC      close stdin, and exit with RC a moment later
 *           partread:N:RC  read N bytes of stdin, exit with RC
 *           hold:PATH      wait until PATH exists (bounded), then go on
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static void msleep(long ms) {
	struct timespec t = {ms / 1000, (ms % 1000) * 1000000L};
	while (nanosleep(&t, &t) && errno == EINTR) {}
}
static int count(const char *dir, const char *class) {
	char p[4096];
	snprintf(p, sizeof p, "%s/n.%s", dir, class);
	int fd = open(p, O_RDWR | O_CREAT, 0666);
	if (fd < 0) return -1;
	flock(fd, LOCK_EX);
	char b[32] = {0};
	int n = 0;
	if (read(fd, b, 31) > 0) n = atoi(b);
	n++;
	lseek(fd, 0, SEEK_SET);
	dprintf(fd, "%d\n", n);
	close(fd);
	return n;
}
static void logline(const char *dir, const char *s) {
	char p[4096];
	snprintf(p, sizeof p, "%s/log", dir);
	int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (fd < 0) return;
	if (write(fd, s, strlen(s))) {}
	close(fd);
}
static unsigned long hashof(const char *seed, const char *class, int n) {
	unsigned long h = 1469598103934665603UL;
	char b[256];
	snprintf(b, sizeof b, "%s/%s/%d", seed, class, n);
	for (char *p = b; *p; p++) { h ^= (unsigned char)*p; h *= 1099511628211UL; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9UL; h ^= h >> 32;
	return h;
}
static void die(int sig) {
	signal(sig, SIG_DFL);
	sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, NULL);
	raise(sig);
	_exit(99);
}
static void xwrite(const char *b, ssize_t n) {
	while (n > 0) {
		ssize_t k = write(1, b, n);
		if (k <= 0) { if (errno == EINTR) continue; _exit(141); }
		b += k; n -= k;
	}
}

int main(int argc, char **argv) {
	const char *git = getenv("VH_GIT"), *dir = getenv("VH_DIR"), *rules = getenv("VH_RULES"),
		*seed = getenv("VH_SEED");
	if (!git) git = "/usr/bin/git";
	if (!seed) seed = "0";
	// The subcommand comes after any global options
	int at = 1;
	while (at < argc && argv[at][0] == '-')
		at += !strcmp(argv[at], "-c") || !strcmp(argv[at], "-C") || !strcmp(argv[at], "--git-dir") ||
			!strcmp(argv[at], "--work-tree") || !strcmp(argv[at], "--namespace") ? 2 : 1;
	const char *class = at < argc ? argv[at] : "none";
	char cls[64];
	snprintf(cls, sizeof cls, "%.40s", class);
	for (char *p = cls; *p; p++) if (*p == '/' || *p == '.') *p = '_';
	int islog = !strcmp(cls, "log"), isstdin = 0;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--stdin")) isstdin = 1;
	const char *sub = islog ? (isstdin ? "stdin" : "list") : "";
	int n_any = 0, n_cls = 0, n_sub = 0;
	if (dir) {
		n_any = count(dir, "any");
		n_cls = count(dir, cls);
		if (*sub) n_sub = count(dir, sub);
		char line[1024];
		struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
		int k = snprintf(line, sizeof line, "S %d %s %d %d %ld.%09ld", n_any, *sub ? sub : cls, *sub ? n_sub : n_cls,
			(int)getpid(), (long)ts.tv_sec, ts.tv_nsec);
		for (int i = 1; i < argc && k < 900; i++) k += snprintf(line + k, sizeof line - k, " %.60s", argv[i]);
		snprintf(line + (k > 1000 ? 1000 : k), 2, "\n");
		logline(dir, line);
	}
	char *r = rules ? strdup(rules) : NULL;
	long trunc = -1, rc = -1, sig = 0, slowchunk = 0, slowms = 0, latems = 0, meet = 0;
	int hit = 0, wrap = 0, after = 0;
	for (char *save = NULL, *t = r ? strtok_r(r, ";", &save) : NULL; t; t = strtok_r(NULL, ";", &save)) {
		char *f[6] = {0};
		int nf = 0;
		for (char *s2 = NULL, *x = strtok_r(t, ":", &s2); x && nf < 6; x = strtok_r(NULL, ":", &s2)) f[nf++] = x;
		if (nf < 3) continue;
		int n;
		if (!strcmp(f[0], "any")) n = n_any;
		else if (!strcmp(f[0], cls)) n = n_cls;
		else if (*sub && !strcmp(f[0], sub)) n = n_sub;
		else continue;
		if (f[1][0] == 'h') {
			int mod = 1, rem = 0;
			sscanf(f[1] + 1, "%d.%d", &mod, &rem);
			if ((int)(hashof(seed, cls, n) % (unsigned long)mod) != rem) continue;
		} else if (f[1][0] != '*' && atoi(f[1]) != n) continue;
		char *a = f[2];
		long x = f[3] ? atol(f[3]) : 0, y = f[4] ? atol(f[4]) : 0;
		if (!strcmp(a, "delay")) { msleep(x); continue; }
		if (!strcmp(a, "rdelay")) { msleep((long)((hashof(seed, cls, n + 7777) >> 8) % (unsigned long)(x + 1))); continue; }
		if (!strcmp(a, "hold")) {
			for (int i = 0; i < 3000 && access(f[3], F_OK); i++) msleep(10);
			continue;
		}
		if (!strcmp(a, "late")) { latems = x; wrap = 1; continue; }
		if (!strcmp(a, "meet") && dir) { latems = 1; meet = x; wrap = 1; continue; }
		if (!strcmp(a, "slow")) { slowchunk = x; slowms = y; wrap = 1; continue; }
		if (!strcmp(a, "noise")) {
			char b[4096];
			memset(b, 'w', sizeof b);
			for (int i = 79; i < (int)sizeof b; i += 80) b[i] = '\n';
			while (x > 0) { ssize_t k = write(2, b, x > 4096 ? 4096 : x); if (k <= 0) break; x -= k; }
			continue;
		}
		hit = 1;
		if (!strcmp(a, "fail") || !strcmp(a, "noread")) {
			if (dir) logline(dir, "F\n");
			if (!strcmp(a, "noread")) { close(0); msleep(30); }
			dprintf(2, "fatal: stand-in says no\n");
			_exit((int)x);
		}
		if (!strcmp(a, "partread")) {
			char b[1]; long k = 0;
			while (k < x && read(0, b, 1) == 1) k++;
			if (dir) logline(dir, "F\n");
			dprintf(2, "fatal: stand-in stopped reading\n");
			_exit((int)y);
		}
		if (!strcmp(a, "trunc")) { trunc = x; rc = y; wrap = 1; }
		if (!strcmp(a, "sig")) { trunc = x; sig = y; wrap = 1; }
		if (!strcmp(a, "after")) { rc = x; wrap = 1; after = 1; }
		if (!strcmp(a, "aftersig")) { sig = x; wrap = 1; after = 1; }
	}
	argv[0] = (char *)"git";
	if (dir && isstdin && getenv("VH_ASKED")) {
		// What is asked for on standard input, and how
		char f[4096], b[65536];
		ssize_t k;
		snprintf(f, sizeof f, "%s/asked.%d", dir, n_any);
		int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600);
		while ((k = read(0, b, sizeof b)) > 0 && fd >= 0) if (write(fd, b, k) != k) break;
		if (fd >= 0) {
			lseek(fd, 0, SEEK_SET);
			dup2(fd, 0);
			close(fd);
		}
	}
	if (!wrap && !dir) { execv(git, argv); _exit(127); }
	int p[2];
	if (wrap && pipe(p)) _exit(127);
	pid_t kid = fork();
	if (kid == 0) {
		if (wrap) { dup2(p[1], 1); close(p[0]); close(p[1]); }
		execv(git, argv);
		_exit(127);
	}
	long total = 0;
	if (after) trunc = -1; // running to the end takes precedence over cutting short
	if (wrap) {
		close(p[1]);
		close(0);
		char b[65536], held[2]; int nheld = 0;
		for (;;) {
			size_t want = slowchunk > 0 && slowchunk < (long)sizeof b ? (size_t)slowchunk : sizeof b;
			if (trunc >= 0 && (long)want > trunc - total) want = trunc - total;
			if (want == 0) break;
			ssize_t k = read(p[0], b, want);
			if (k <= 0) break;
			total += k;
			if (latems) {
				if (nheld) xwrite(held, 1);
				held[0] = b[k - 1]; nheld = 1;
				k--;
			}
			xwrite(b, k);
			if (slowms) msleep(slowms);
		}
		if (meet) {
			count(dir, "meet");
			char f[4096], m[32];
			snprintf(f, sizeof f, "%s/n.meet", dir);
			for (int i = 0; i < 2000; i++) {
				int fd = open(f, O_RDONLY);
				memset(m, 0, sizeof m);
				if (fd < 0 || read(fd, m, 31) < 0 || atoi(m) >= meet) { close(fd); break; }
				close(fd);
				msleep(2);
			}
		}
		if (latems) { msleep(latems); if (nheld) xwrite(held, 1); }
		if (hit && !after) {
			kill(kid, SIGKILL);
			waitpid(kid, NULL, 0);
			if (dir) { char l[64]; snprintf(l, sizeof l, "F %ld\n", total); logline(dir, l); }
			if (sig) die((int)sig);
			dprintf(2, "fatal: stand-in gave up\n");
			_exit((int)rc);
		}
	}
	int st = 0;
	while (waitpid(kid, &st, 0) < 0 && errno == EINTR) {}
	if (dir) {
		char l[96];
		struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
		snprintf(l, sizeof l, "E %d %ld.%09ld %ld\n", n_any, (long)ts.tv_sec, ts.tv_nsec, total);
		logline(dir, l);
	}
	if (hit && after) {
		if (dir) logline(dir, "F\n");
		if (sig) die((int)sig);
		dprintf(2, "fatal: stand-in failed after all\n");
		_exit((int)rc);
	}
	if (WIFSIGNALED(st)) die(WTERMSIG(st));
	_exit(WEXITSTATUS(st));
}
