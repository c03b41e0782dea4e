/* Runs a program under ptrace and watches what it and its children do to files.
 *
 * fscage LOG DIR K ACTION -- PROGRAM ARGS...
 *
 * Every system call that could change a file system is logged with the path it
 * acts on and its result. Calls of PROGRAM itself (not of programs it starts)
 * that act on something in or under DIR are numbered 1, 2, ... as "cache
 * operations"; the K-th (0: none) suffers ACTION:
 *   none         nothing
 *   kill         the whole program is killed in its place
 *   after        the program is killed right after it
 *   torn         if it is a write, half of it is written and the program killed
 *   err:N        it fails with errno N
 *   sticky:N     it and all later ones that could change something fail
 *   stickyall:N  it and all later ones fail
 *   short        if it is a write, half of it is written and the next fails with ENOSPC (sticky)
 *   spawn        wait for the file LOG.go to exist before doing it
 * Log lines: "M tgid syscall result path" (could change), "C n syscall result path" (cache operation),
 * "X n action".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

enum { FD = 1, PATH0 = 2, AT1 = 4, PATH1 = 8, AT3 = 16, MUT = 32, OPEN = 64, WR = 128, AT0P1 = 4 };
static const struct { int nr; const char *name; int how; } calls[] = {
	{SYS_openat, "openat", AT1 | OPEN}, {SYS_open, "open", PATH0 | OPEN}, {SYS_creat, "creat", PATH0 | MUT},
#ifdef SYS_openat2
	{SYS_openat2, "openat2", AT1 | OPEN},
#endif
	{SYS_read, "read", FD}, {SYS_pread64, "pread64", FD}, {SYS_getdents64, "getdents64", FD},
	{SYS_write, "write", FD | MUT | WR}, {SYS_pwrite64, "pwrite64", FD | MUT | WR}, {SYS_writev, "writev", FD | MUT},
	{SYS_pwritev, "pwritev", FD | MUT}, {SYS_sendfile, "sendfile", FD | MUT}, {SYS_ftruncate, "ftruncate", FD | MUT},
	{SYS_truncate, "truncate", PATH0 | MUT}, {SYS_fallocate, "fallocate", FD | MUT}, {SYS_fsync, "fsync", FD},
	{SYS_fdatasync, "fdatasync", FD}, {SYS_copy_file_range, "copy_file_range", MUT},
	{SYS_splice, "splice", MUT},
	{SYS_rename, "rename", PATH0 | PATH1 | MUT}, {SYS_renameat, "renameat", AT1 | AT3 | MUT},
	{SYS_renameat2, "renameat2", AT1 | AT3 | MUT}, {SYS_unlink, "unlink", PATH0 | MUT},
	{SYS_unlinkat, "unlinkat", AT1 | MUT}, {SYS_rmdir, "rmdir", PATH0 | MUT}, {SYS_mkdir, "mkdir", PATH0 | MUT},
	{SYS_mkdirat, "mkdirat", AT1 | MUT}, {SYS_link, "link", PATH0 | PATH1 | MUT}, {SYS_linkat, "linkat", AT1 | AT3 | MUT},
	{SYS_symlink, "symlink", PATH1 | MUT}, {SYS_symlinkat, "symlinkat", MUT}, {SYS_mknod, "mknod", PATH0 | MUT},
	{SYS_mknodat, "mknodat", AT1 | MUT}, {SYS_chmod, "chmod", PATH0 | MUT}, {SYS_fchmod, "fchmod", FD | MUT},
	{SYS_fchmodat, "fchmodat", AT1 | MUT}, {SYS_chown, "chown", PATH0 | MUT}, {SYS_lchown, "lchown", PATH0 | MUT},
	{SYS_fchown, "fchown", FD | MUT}, {SYS_fchownat, "fchownat", AT1 | MUT}, {SYS_utimensat, "utimensat", AT1 | MUT},
	{SYS_utime, "utime", PATH0 | MUT}, {SYS_utimes, "utimes", PATH0 | MUT}, {SYS_setxattr, "setxattr", PATH0 | MUT},
	{SYS_fsetxattr, "fsetxattr", FD | MUT}, {SYS_flock, "flock", FD},
};
#define NCALLS ((int)(sizeof calls / sizeof *calls))
#define MAXT 65536

static FILE *logf_;
static char dir[4096];
static size_t dirlen;
static pid_t root;
static long K, ops;
static const char *action;
static int sticky, stickyall, killing;
static struct { pid_t tid, tgid; int call, op, after, started; char path[4200], path2[4200]; } th[4096];
static int nth;

static int slot(pid_t t) {
	int freei = -1;
	for (int i = 0; i < nth; i++) { if (th[i].tid == t) return i; if (!th[i].tid) freei = i; }
	int i = freei >= 0 ? freei : nth < 4096 ? nth++ : 0;
	memset(&th[i], 0, sizeof th[i]);
	th[i].tid = t;
	th[i].call = -1;
	char p[64], l[256];
	snprintf(p, sizeof p, "/proc/%d/status", t);
	FILE *f = fopen(p, "r");
	th[i].tgid = t;
	if (f) {
		while (fgets(l, sizeof l, f)) if (sscanf(l, "Tgid: %d", &th[i].tgid) == 1) break;
		fclose(f);
	}
	return i;
}
static void readstr(pid_t t, unsigned long a, char *out, size_t n) {
	size_t at = 0;
	while (at + 1 < n) {
		size_t want = 4096 - ((a + at) & 4095);
		if (want > n - 1 - at) want = n - 1 - at;
		struct iovec l = {out + at, want}, r = {(void *)(a + at), want};
		ssize_t k = process_vm_readv(t, &l, 1, &r, 1, 0);
		if (k <= 0) break;
		char *z = memchr(out + at, 0, k);
		if (z) return;
		at += k;
	}
	out[at] = 0;
}
static void fdpath(pid_t t, int fd, char *out, size_t n) {
	char p[64];
	if (fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", t);
	else snprintf(p, sizeof p, "/proc/%d/fd/%d", t, fd);
	ssize_t k = readlink(p, out, n - 1);
	out[k < 0 ? 0 : k] = 0;
}
static void atpath(pid_t t, int fd, unsigned long a, char *out, size_t n) {
	char s[4096], raw[4200];
	readstr(t, a, s, sizeof s);
	if (s[0] == '/') snprintf(raw, sizeof raw, "%s", s);
	else {
		char b[4096];
		fdpath(t, fd, b, sizeof b);
		if (s[0]) snprintf(raw, sizeof raw, "%.2000s/%.2000s", b, s);
		else snprintf(raw, sizeof raw, "%.4000s", b);
	}
	/* normalise . and .. textually */
	char *parts[512]; int np = 0;
	for (char *sv = NULL, *x = strtok_r(raw, "/", &sv); x; x = strtok_r(NULL, "/", &sv)) {
		if (!strcmp(x, ".")) continue;
		if (!strcmp(x, "..")) { if (np) np--; continue; }
		if (np < 512) parts[np++] = x;
	}
	size_t o = 0; out[0] = '/'; out[1] = 0;
	for (int i = 0; i < np; i++) o += snprintf(out + o, o < n ? n - o : 0, "/%s", parts[i]);
}
static int under(const char *p) {
	return !strncmp(p, dir, dirlen) && (p[dirlen] == 0 || p[dirlen] == '/');
}
static void esc(const char *s) {
	for (; *s; s++) if (*s > 32 && *s != '%' && *s != 127) fputc(*s, logf_); else fprintf(logf_, "%%%02x", (unsigned char)*s);
}
int main(int argc, char **argv) {
	if (argc < 7) return 125;
	logf_ = fopen(argv[1], "w");
	snprintf(dir, sizeof dir, "%s", argv[2]);
	dirlen = strlen(dir);
	K = atol(argv[3]);
	action = argv[4];
	root = fork();
	if (root == 0) {
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		struct sock_filter f[NCALLS * 2 + 8];
		int n = 0;
		f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
		for (int i = 0; i < NCALLS; i++) {
			f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i].nr, 0, 1);
			f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
		}
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
		struct sock_fprog prog = {n, f};
		raise(SIGSTOP);
		if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) _exit(126);
		execv(argv[6], argv + 6);
		_exit(127);
	}
	int st, rootst = 0;
	if (waitpid(root, &st, __WALL) != root || !WIFSTOPPED(st)) return 124;
	if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE |
		PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) return 124;
	ptrace(PTRACE_CONT, root, 0, 0);
	slot(root);
	for (;;) {
		pid_t t = waitpid(-1, &st, __WALL);
		if (t < 0) { if (errno == EINTR) continue; break; }
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (t == root) rootst = st;
			int i = slot(t);
			th[i].tid = 0;
			continue;
		}
		if (!WIFSTOPPED(st)) continue;
		int i = slot(t), sig = WSTOPSIG(st), ev = st >> 16, req = PTRACE_CONT, pass = 0;
		if (sig == SIGTRAP && ev == PTRACE_EVENT_SECCOMP) {
			struct user_regs_struct r;
			if (ptrace(PTRACE_GETREGS, t, 0, &r)) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
			int c = -1;
			for (int j = 0; j < NCALLS; j++) if (calls[j].nr == (int)r.orig_rax) c = j;
			if (c >= 0) {
				int how = calls[c].how, mut = how & MUT;
				th[i].path[0] = th[i].path2[0] = 0;
				if (how & FD) fdpath(t, (int)r.rdi, th[i].path, sizeof th[i].path);
				if (how & PATH0) atpath(t, AT_FDCWD, r.rdi, th[i].path, sizeof th[i].path);
				if (how & AT1) atpath(t, (int)r.rdi, r.rsi, th[i].path, sizeof th[i].path);
				if (how & PATH1) atpath(t, AT_FDCWD, r.rsi, th[i].path2, sizeof th[i].path2);
				if (how & AT3) atpath(t, (int)r.rdx, r.r10, th[i].path2, sizeof th[i].path2);
				if (calls[c].nr == SYS_copy_file_range || calls[c].nr == SYS_splice) fdpath(t, (int)r.rdx, th[i].path, sizeof th[i].path);
				if (calls[c].nr == SYS_symlinkat) atpath(t, (int)r.rsi, r.rdx, th[i].path, sizeof th[i].path);
				if (calls[c].nr == SYS_utimensat && r.rsi == 0) fdpath(t, (int)r.rdi, th[i].path, sizeof th[i].path);
				if (how & OPEN) {
					long fl = calls[c].nr == SYS_openat ? (long)r.rdx : (long)r.rsi;
#ifdef SYS_openat2
					if (calls[c].nr == SYS_openat2) { unsigned long v = 0; struct iovec l = {&v, 8}, rr = {(void *)r.rdx, 8};
						process_vm_readv(t, &l, 1, &rr, 1, 0); fl = (long)v; }
#endif
					if (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) mut = 1;
				}
				int op = 0;
				if (th[i].tgid == root && (under(th[i].path) || under(th[i].path2))) {
					op = ++ops;
					int hit = op == K;
					if (hit) { fprintf(logf_, "X %d %s\n", op, action); fflush(logf_); }
					if (hit && !strncmp(action, "sticky:", 7)) sticky = atoi(action + 7);
					if (hit && !strncmp(action, "stickyall:", 10)) stickyall = atoi(action + 10);
					int e = 0;
					if (hit && !strncmp(action, "err:", 4)) e = atoi(action + 4);
					if (sticky && mut) e = sticky;
					if (stickyall) e = stickyall;
					if (hit && !strcmp(action, "spawn")) {
						char g[4200]; snprintf(g, sizeof g, "%s.go", argv[1]);
						for (int q = 0; q < 2000 && access(g, F_OK); q++) usleep(10000);
					}
					if (hit && (!strcmp(action, "torn") || !strcmp(action, "short")) && (how & WR) && r.rdx > 1) {
						r.rdx /= 2;
						ptrace(PTRACE_SETREGS, t, 0, &r);
						if (action[0] == 't') th[i].after = 1; else sticky = ENOSPC;
					} else if (hit && (!strcmp(action, "kill") || !strcmp(action, "torn"))) {
						killing = 1;
						fprintf(logf_, "C %d %s killed %.4100s\n", op, calls[c].name, th[i].path);
						kill(root, SIGKILL);
						continue;
					}
					if (hit && !strcmp(action, "after")) th[i].after = 1;
					if (e) {
						r.orig_rax = -1;
						r.rax = -e;
						ptrace(PTRACE_SETREGS, t, 0, &r);
					}
				}
				if (op || mut) {
					th[i].call = c; th[i].op = op;
					if (mut) th[i].op |= 1 << 30;
					req = PTRACE_SYSCALL;
				}
			}
		} else if (sig == (SIGTRAP | 0x80)) {
			if (th[i].call >= 0) {
				struct user_regs_struct r;
				if (!ptrace(PTRACE_GETREGS, t, 0, &r)) {
					int op = th[i].op & ~(1 << 30);
					const char *nm = calls[th[i].call].name;
					if (th[i].op & 1 << 30) {
						fprintf(logf_, "M %d %s %ld ", th[i].tgid == root ? 0 : th[i].tgid, nm, (long)r.rax);
						esc(th[i].path); fputc(' ', logf_); esc(th[i].path2); fputc('\n', logf_);
					}
					if (op) {
						fprintf(logf_, "C %d %s %ld ", op, nm, (long)r.rax);
						esc(th[i].path); fputc(' ', logf_); esc(th[i].path2); fputc('\n', logf_);
					}
				}
				th[i].call = -1;
				if (th[i].after) { killing = 1; kill(root, SIGKILL); continue; }
			}
		} else if (sig == SIGTRAP && ev) {
			;
		} else if (sig == SIGSTOP && !th[i].started && t != root) {
			th[i].started = 1; /* a new thread or child */
		} else if (sig != SIGTRAP) pass = sig;
		ptrace(req, t, 0, pass);
	}
	fprintf(logf_, "N %ld\n", ops);
	fclose(logf_);
	if (WIFSIGNALED(rootst)) return 128 + WTERMSIG(rootst);
	return WEXITSTATUS(rootst);
}
