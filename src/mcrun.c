/*
 * mcrun - controlled execution of real programs at the system-call level.
 *
 * A long-lived server: reads one request at a time on stdin, runs the
 * processes described there under ptrace+seccomp, and answers on stdout.
 *
 * At most one traced process runs at any moment; every process is parked at
 * the entry of each "visible" system call, so a request's schedule decides
 * which process performs its next visible call, and its fault list decides
 * what the environment answers.  Everything not named in the request takes a
 * fixed default, so a request is replayable.
 *
 * Request: a sequence of items  "<key> <len>\n<bytes>\n", ending in "go 0".
 *   root       directory whose files are shared state (visible operations)
 *   cwd        working directory
 *   timeout    milliseconds for the whole request
 *   maxsteps   bound on the number of steps
 *   trace      0: plain run (no tracing), 1: traced, steps not reported,
 *              2: traced and every step is reported
 *   sched      "step:proc step:proc ..." : at that step switch to that process
 *   pipe       "<n>": creates n pipes, usable as stdin/stdout of processes
 *   proc       starts a process description; then
 *     exe, arg*, env*
 *     stdin    "null" | "closed" | "data" (followed by item data) | "file:<path>" | "pipe:<i>"
 *     stdout   "cap" | "null" | "closed" | "full" | "pipe:<i>"
 *     stderr   same
 *     data     bytes for stdin=data
 *     fault    "<opidx> <kind> <n>"  kind: crash | torn | err | short | errall | errsame
 *   (process numbers: in the order given, then in order of creation)
 * Answer: lines, ending in a line "DONE".
 *   T <step> <proc> <enabled mask hex> <opidx> <syscall> <class> <len> <path1>\t<path2>
 *   X <proc> <exit|sig> <n> <nops>
 *   O <proc> <fd> <len>\n<bytes>\n
 *   E <ok|deadlock|timeout|steps|error text>
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>

#define MAXP 24
#define MAXARG 64
#define MAXARGV 4096
#define MAXFAULT 16

static void die(const char *m) { fprintf(stderr, "mcrun: %s: %s\n", m, strerror(errno)); exit(70); }

/* ------------------------------------------------------------ syscalls */
/* class letters: R reads shared state, W changes it, B may block, N neutral */
struct sc { int nr; const char *name; char cls; };
static const struct sc scs[] = {
	{ SYS_read, "read", 'R' }, { SYS_write, "write", 'W' },
	{ SYS_open, "open", 'O' }, { SYS_openat, "openat", 'O' }, { 437, "openat2", 'O' },
	{ SYS_creat, "creat", 'W' },
	{ SYS_pread64, "pread", 'R' }, { SYS_pwrite64, "pwrite", 'W' },
	{ SYS_readv, "readv", 'R' }, { SYS_writev, "writev", 'W' },
	{ SYS_preadv, "preadv", 'R' }, { SYS_pwritev, "pwritev", 'W' },
	{ SYS_stat, "stat", 'R' }, { SYS_lstat, "lstat", 'R' }, { SYS_fstat, "fstat", 'R' },
	{ SYS_newfstatat, "fstatat", 'R' }, { SYS_statx, "statx", 'R' },
	{ SYS_access, "access", 'R' }, { SYS_faccessat, "faccessat", 'R' }, { 439, "faccessat2", 'R' },
	{ SYS_lseek, "lseek", 'R' },
	{ SYS_link, "link", 'W' }, { SYS_linkat, "linkat", 'W' },
	{ SYS_symlink, "symlink", 'W' }, { SYS_symlinkat, "symlinkat", 'W' },
	{ SYS_unlink, "unlink", 'W' }, { SYS_unlinkat, "unlinkat", 'W' },
	{ SYS_rmdir, "rmdir", 'W' },
	{ SYS_rename, "rename", 'W' }, { SYS_renameat, "renameat", 'W' }, { SYS_renameat2, "renameat2", 'W' },
	{ SYS_mkdir, "mkdir", 'W' }, { SYS_mkdirat, "mkdirat", 'W' },
	{ SYS_ftruncate, "ftruncate", 'W' }, { SYS_truncate, "truncate", 'W' },
	{ SYS_fallocate, "fallocate", 'W' },
	{ SYS_chmod, "chmod", 'W' }, { SYS_fchmod, "fchmod", 'W' }, { SYS_fchmodat, "fchmodat", 'W' },
	{ SYS_sendfile, "sendfile", 'W' }, { SYS_copy_file_range, "copy_file_range", 'W' },
	{ SYS_fsync, "fsync", 'N' }, { SYS_fdatasync, "fdatasync", 'N' },
	{ SYS_flock, "flock", 'L' }, { SYS_fcntl, "fcntl", 'N' },
	{ SYS_close, "close", 'C' },
	{ SYS_poll, "poll", 'B' }, { SYS_ppoll, "ppoll", 'B' },
	{ SYS_select, "select", 'B' }, { SYS_pselect6, "pselect6", 'B' },
	{ SYS_wait4, "wait4", 'B' },
	{ SYS_mmap, "mmap", 'M' },
	{ SYS_exit_group, "exit", 'E' },
	{ SYS_nanosleep, "nanosleep", 'S' }, { SYS_clock_nanosleep, "clock_nanosleep", 'S' },
	{ SYS_sched_yield, "sched_yield", 'S' },
};
#define NSC ((int)(sizeof scs / sizeof scs[0]))

static const struct sc *find_sc(long nr)
{
	for (int i = 0; i < NSC; i++)
		if (scs[i].nr == nr)
			return &scs[i];
	return NULL;
}

static struct sock_filter flt[2 + 2 * 64 + 4];
static struct sock_fprog fprog;

static void build_filter(void)
{
	int n = 0;
	flt[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (int i = 0; i < NSC; i++) {
		flt[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, scs[i].nr, 0, 1);
		flt[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
	}
	flt[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	fprog.len = n;
	fprog.filter = flt;
}

/* ------------------------------------------------------------- request */
struct fault { int op; char kind[8]; long n; long nr; };
struct preq {
	char *exe; char *argv[MAXARGV]; int argc; char *envp[MAXARG]; int envc;
	char *sin, *sout, *serr; char *data; size_t datalen;
	struct fault f[MAXFAULT]; int nf;
};
static struct preq preq[8];
static int npreq;
static char *r_root, *r_cwd;
static int r_timeout, r_maxsteps, r_trace, r_pipes;
static char *r_sched;
static int pipes[16][2];

enum pst { DEAD, PARKED, FRESH, VFWAIT };
struct P {
	pid_t pid; enum pst st; int started;
	const struct sc *sc; struct user_regs_struct regs;
	int op;				/* index of pending visible op */
	int lockwait; int pidfd;
	int parent; int vfparent; int exitst;
	char p1[PATH_MAX], p2[PATH_MAX]; long len; char cls; int ispipe;
};
static struct P procs[MAXP];
static int np;
static volatile sig_atomic_t timed_out;
static char errtxt[256];

static void onalrm(int s) { (void)s; timed_out = 1; }

/* output buffer */
static char *ob; static size_t obl, obc;
static void ob_put(const void *p, size_t l)
{
	if (obl + l > obc) { obc = (obl + l) * 2 + 65536; ob = realloc(ob, obc); if (!ob) die("oom"); }
	memcpy(ob + obl, p, l); obl += l;
}
static void ob_printf(const char *fmt, ...)
{
	char b[2 * PATH_MAX + 512]; va_list ap; __builtin_va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap); __builtin_va_end(ap);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	ob_put(b, n);
}

static int readmem(pid_t pid, unsigned long a, void *dst, size_t l)
{
	struct iovec lo = { dst, l }, re = { (void *)a, l };
	return process_vm_readv(pid, &lo, 1, &re, 1, 0);
}
static void readstr(pid_t pid, unsigned long a, char *dst, size_t max)
{
	size_t got = 0;
	while (got + 1 < max) {
		size_t ch = 4096 - ((a + got) & 4095);
		if (ch > max - 1 - got) ch = max - 1 - got;
		int i = readmem(pid, a + got, dst + got, ch);
		if (i <= 0) break;
		char *z = memchr(dst + got, 0, i);
		if (z) return;
		got += i;
	}
	dst[got] = 0;
}
static void normpath(char *d)
{	/* collapse // and leading ./ relative to cwd */
	char t[PATH_MAX]; size_t n = 0;
	if (*d && *d != '/' && r_cwd)
		n = snprintf(t, sizeof t, "%s/", r_cwd);
	for (char *s = d; *s && n + 2 < sizeof t; s++) {
		if (*s == '/' && n && t[n - 1] == '/') continue;
		if (s[0] == '.' && s[1] == '/' && n && t[n - 1] == '/') { s++; continue; }
		t[n++] = *s;
	}
	t[n] = 0;
	strcpy(d, t);
}
static void fdpath(struct P *p, int fd, char *dst)
{
	char b[64]; ssize_t i;
	snprintf(b, sizeof b, "/proc/%d/fd/%d", p->pid, fd);
	i = readlink(b, dst, PATH_MAX - 1);
	if (i < 0) i = 0;
	dst[i] = 0;
}
static int under_root(const char *s)
{
	size_t l = strlen(r_root);
	return !strncmp(s, r_root, l) && (s[l] == '/' || s[l] == 0 || (l && r_root[l - 1] == '/'));
}

/* Decode pending syscall; returns 1 when it is a visible operation */
static int decode(struct P *p)
{
	struct user_regs_struct *r = &p->regs;
	int fd = (int)r->rdi;
	p->sc = find_sc(r->orig_rax);
	if (!p->sc) return 0;
	p->p1[0] = p->p2[0] = 0; p->len = 0; p->cls = p->sc->cls; p->ispipe = 0;
	switch (r->orig_rax) {
	case SYS_read: case SYS_write: case SYS_pread64: case SYS_pwrite64:
		p->len = r->rdx; fdpath(p, fd, p->p1); break;
	case SYS_readv: case SYS_writev: case SYS_preadv: case SYS_pwritev: {
		struct iovec v[64]; int n = r->rdx > 64 ? 64 : r->rdx;
		fdpath(p, fd, p->p1);
		if (readmem(p->pid, r->rsi, v, n * sizeof *v) > 0)
			for (int i = 0; i < n; i++) p->len += v[i].iov_len;
		break; }
	case SYS_open: case SYS_creat:
		readstr(p->pid, r->rdi, p->p1, PATH_MAX); normpath(p->p1);
		p->len = r->orig_rax == SYS_open ? (long)r->rsi : O_CREAT | O_TRUNC; break;
	case SYS_openat: case 437: {
		readstr(p->pid, r->rsi, p->p1, PATH_MAX);
		if (p->p1[0] != '/' && fd != AT_FDCWD) {
			char t[PATH_MAX]; strcpy(t, p->p1); fdpath(p, fd, p->p1);
			strncat(p->p1, "/", PATH_MAX - strlen(p->p1) - 1);
			strncat(p->p1, t, PATH_MAX - strlen(p->p1) - 1);
		} else normpath(p->p1);
		p->len = r->rdx;
		if (r->orig_rax == 437) { uint64_t f = 0; readmem(p->pid, r->rdx, &f, 8); p->len = (long)f; }
		break; }
	case SYS_stat: case SYS_lstat: case SYS_access: case SYS_unlink: case SYS_rmdir:
	case SYS_mkdir: case SYS_chmod: case SYS_truncate:
		readstr(p->pid, r->rdi, p->p1, PATH_MAX); normpath(p->p1); break;
	case SYS_newfstatat: case SYS_statx: case SYS_unlinkat: case SYS_mkdirat:
	case SYS_faccessat: case 439: case SYS_fchmodat:
		readstr(p->pid, r->rsi, p->p1, PATH_MAX);
		if (!p->p1[0]) fdpath(p, fd, p->p1); else normpath(p->p1); break;
	case SYS_link: case SYS_rename: case SYS_symlink:
		readstr(p->pid, r->rdi, p->p1, PATH_MAX); normpath(p->p1);
		readstr(p->pid, r->rsi, p->p2, PATH_MAX); normpath(p->p2); break;
	case SYS_linkat: case SYS_renameat: case SYS_renameat2:
		readstr(p->pid, r->rsi, p->p1, PATH_MAX);
		if (!p->p1[0]) fdpath(p, fd, p->p1); else normpath(p->p1);
		readstr(p->pid, r->r10, p->p2, PATH_MAX); normpath(p->p2); break;
	case SYS_symlinkat:
		readstr(p->pid, r->rdi, p->p1, PATH_MAX); normpath(p->p1);
		readstr(p->pid, r->rdx, p->p2, PATH_MAX); normpath(p->p2); break;
	case SYS_fstat: case SYS_lseek: case SYS_ftruncate: case SYS_fallocate: case SYS_fchmod:
	case SYS_fsync: case SYS_fdatasync: case SYS_flock: case SYS_close:
		fdpath(p, fd, p->p1); p->len = r->rsi; break;
	case SYS_sendfile:
		fdpath(p, fd, p->p1); fdpath(p, (int)r->rsi, p->p2); p->len = r->r10; break;
	case SYS_copy_file_range:
		fdpath(p, (int)r->rdx, p->p1); fdpath(p, fd, p->p2); p->len = r->r8; break;
	case SYS_fcntl:
		if (r->rsi != F_SETLK && r->rsi != F_SETLKW && r->rsi != 37 && r->rsi != 38) return 0;
		p->cls = 'L';
		fdpath(p, fd, p->p1); break;
	case SYS_mmap:
		if ((int)r->r8 < 0 || (r->r10 & MAP_ANONYMOUS)) return 0;
		fdpath(p, (int)r->r8, p->p1); p->len = r->rsi; p->cls = 'R';
		if (!under_root(p->p1)) return 0;
		return 1;
	case SYS_poll: case SYS_ppoll: case SYS_select: case SYS_pselect6:
		return 1;
	case SYS_wait4:
		return 1;
	case SYS_exit_group:
		p->len = (int)r->rdi;
		return 1;
	case SYS_nanosleep: case SYS_clock_nanosleep: case SYS_sched_yield:
		return 1;
	}
	if (p->cls == 'O')
		p->cls = (p->len & (O_CREAT | O_TRUNC)) ? 'W' : 'R';
	if (!strncmp(p->p1, "pipe:", 5)) {
		p->ispipe = 1;
		if (p->sc->nr == SYS_fstat || p->sc->nr == SYS_newfstatat) return 0;
		return 1;
	}
	if (p->p1[0] == '/' && under_root(p->p1)) return 1;
	if (p->p2[0] && under_root(p->p2)) return 1;
	/* streams with injected faults must count, too: captured stdin/out */
	if (!strncmp(p->p1, "/memfd:in", 9)) return 1;
	if (!strncmp(p->p1, "/memfd:cap", 10) || !strcmp(p->p1, "/dev/full")) {
		if (p->sc->nr == SYS_write || p->sc->nr == SYS_writev) return 1;
		return 0;
	}
	return 0;
}

static int newproc(pid_t pid, int parent)
{
	if (np >= MAXP) { snprintf(errtxt, sizeof errtxt, "too many processes"); return -1; }
	struct P *p = &procs[np];
	memset(p, 0, offsetof(struct P, p1));
	p->pid = pid; p->st = FRESH; p->parent = parent; p->vfparent = -1; p->exitst = -1;
	p->pidfd = syscall(SYS_pidfd_open, pid, 0);
	return np++;
}

/* Let process i run until it parks at its next visible op or dies. */
static void advance(int i, int sig)
{
	struct P *p = &procs[i];
	int st;
	for (;;) {
		if (ptrace(PTRACE_CONT, p->pid, 0, sig) < 0 && errno != ESRCH) { snprintf(errtxt, sizeof errtxt, "cont: %s", strerror(errno)); return; }
		sig = 0;
	again:
		if (waitpid(p->pid, &st, __WALL) < 0) {
			if (errno == EINTR) { if (timed_out) return; goto again; }
			snprintf(errtxt, sizeof errtxt, "waitpid: %s", strerror(errno)); return;
		}
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			p->st = DEAD; p->exitst = st;
			if (p->pidfd >= 0) close(p->pidfd);
			p->pidfd = -1;
			if (p->vfparent >= 0) goto vfdone;
			return;
		}
		int ev = (unsigned)st >> 16, s = WSTOPSIG(st);
		if (ev == PTRACE_EVENT_SECCOMP) {
			if (ptrace(PTRACE_GETREGS, p->pid, 0, &p->regs) < 0) { snprintf(errtxt, sizeof errtxt, "getregs"); return; }
			if (!decode(p)) continue;
			p->st = PARKED;
			return;
		}
		if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
			unsigned long npid; int st2;
			ptrace(PTRACE_GETEVENTMSG, p->pid, 0, &npid);
			while (waitpid((pid_t)npid, &st2, __WALL) < 0 && errno == EINTR && !timed_out) ;
			int j = newproc((pid_t)npid, i);
			if (j < 0) return;
			if (ev == PTRACE_EVENT_VFORK) {
				procs[j].vfparent = i;
				p->st = VFWAIT;
				ptrace(PTRACE_CONT, p->pid, 0, 0);
				return;
			}
			continue;
		}
		if (ev == PTRACE_EVENT_EXEC) {
			if (p->vfparent >= 0) goto vfdone_cont;
			continue;
		}
		if (ev) continue;
		if (s == SIGTRAP || s == (SIGTRAP | 0x80)) continue;
		if (s == SIGSTOP && !p->started) { p->started = 1; continue; }
		sig = s;
		continue;
	vfdone_cont:
	vfdone: {
		struct P *q = &procs[p->vfparent];
		int st2;
		p->vfparent = -1;
		while (waitpid(q->pid, &st2, __WALL) < 0 && errno == EINTR && !timed_out) ;
		q->st = FRESH;
		if (p->st == DEAD) return;
		}
	}
}

static int dupfd(struct P *p, int fd) { return syscall(SYS_pidfd_getfd, p->pidfd, fd, 0); }

/* Would the pending op complete without blocking? */
static int ready(int i)
{
	struct P *p = &procs[i];
	if (p->st == FRESH) return 1;
	if (p->st != PARKED) return 0;
	struct user_regs_struct *r = &p->regs;
	switch (r->orig_rax) {
	case SYS_read: case SYS_readv: case SYS_write: case SYS_writev: {
		if (!p->ispipe) return 1;
		int wr = r->orig_rax == SYS_write || r->orig_rax == SYS_writev;
		int fd = dupfd(p, (int)r->rdi);
		if (fd < 0) return 1;
		struct pollfd pf = { fd, wr ? POLLOUT : POLLIN, 0 };
		int n = poll(&pf, 1, 0);
		int ok = n > 0;
		if (wr && ok && !(pf.revents & POLLERR)) {
			/* room for all of it? a pipe write may block half way */
			int q = 0, sz = fcntl(fd, F_GETPIPE_SZ);
			(void)q;
			if (p->len > sz) ok = 1; /* cannot fit at once: let it go and handle blocking */
			else {
				int used = 0;
				/* FIONREAD on write end works for pipes */
				extern int ioctl(int, unsigned long, ...);
				if (ioctl(fd, 0x541B, &used) == 0 && sz - used < p->len && used > 0) ok = 0;
			}
		}
		close(fd);
		return ok; }
	case SYS_poll: case SYS_ppoll: {
		struct pollfd v[64]; int n = r->rsi > 64 ? 64 : (int)r->rsi, k = 0;
		int tmo = r->orig_rax == SYS_poll ? (int)r->rdx : (r->rdx ? 0 : -1);
		if (tmo >= 0) return 1;
		if (readmem(p->pid, r->rdi, v, n * sizeof *v) < 0) return 1;
		for (int j = 0; j < n; j++) {
			if (v[j].fd < 0) continue;
			int fd = dupfd(p, v[j].fd);
			if (fd < 0) { k++; continue; }
			struct pollfd pf = { fd, v[j].events, 0 };
			if (poll(&pf, 1, 0) > 0) k++;
			close(fd);
		}
		return k > 0; }
	case SYS_wait4: {
		int any = 0, dead = 0; pid_t w = (pid_t)r->rdi;
		if (r->rdx & WNOHANG) return 1;
		for (int j = 0; j < np; j++) {
			if (procs[j].parent != i) continue;
			if (w > 0 && procs[j].pid != w) continue;
			any++;
			if (procs[j].st == DEAD) dead++;
		}
		return dead > 0 || !any; }
	case SYS_flock: case SYS_fcntl:
		return !p->lockwait;
	}
	return 1;
}

static void unlock_event(void) { for (int i = 0; i < np; i++) procs[i].lockwait = 0; }

static void kill_proc(int i)
{
	struct P *p = &procs[i]; int st;
	if (p->st == DEAD) return;
	kill(p->pid, SIGKILL);
	for (;;) {
		if (waitpid(p->pid, &st, __WALL) < 0) { if (errno == EINTR) continue; st = SIGKILL; break; }
		if (WIFEXITED(st) || WIFSIGNALED(st)) break;
		ptrace(PTRACE_CONT, p->pid, 0, SIGKILL);
	}
	p->st = DEAD; p->exitst = st;
	if (p->pidfd >= 0) close(p->pidfd);
	p->pidfd = -1;
	unlock_event();
}

static int setregs(struct P *p) { return ptrace(PTRACE_SETREGS, p->pid, 0, &p->regs); }

static int to_exit(struct P *p)
{	/* run the pending syscall to its exit stop */
	int st;
	ptrace(PTRACE_SYSCALL, p->pid, 0, 0);
	while (waitpid(p->pid, &st, __WALL) < 0) { if (errno == EINTR && !timed_out) continue; return -1; }
	if (WIFEXITED(st) || WIFSIGNALED(st)) { p->st = DEAD; p->exitst = st; return -1; }
	return 0;
}

static void shorten(struct P *p, long n)
{
	struct user_regs_struct *r = &p->regs;
	if (r->orig_rax == SYS_writev || r->orig_rax == SYS_readv || r->orig_rax == SYS_pwritev || r->orig_rax == SYS_preadv) {
		struct iovec v[64]; int c = r->rdx > 64 ? 64 : r->rdx; long left = n; int k = 0;
		readmem(p->pid, r->rsi, v, c * sizeof *v);
		for (k = 0; k < c && left > 0; k++) {
			if ((long)v[k].iov_len > left) v[k].iov_len = left;
			left -= v[k].iov_len;
		}
		struct iovec lo = { v, k * sizeof *v }, re = { (void *)r->rsi, k * sizeof *v };
		/* the array is on the caller's stack; keep a private copy below it */
		unsigned long where = (r->rsp - 4096) & ~15UL;
		re.iov_base = (void *)where;
		process_vm_writev(p->pid, &lo, 1, &re, 1, 0);
		r->rsi = where; r->rdx = k;
	/* never more than was asked for, which is how much room there is */
	} else if (r->orig_rax == SYS_sendfile) { if ((unsigned long)n < r->r10) r->r10 = n; }
	else if (r->orig_rax == SYS_copy_file_range) { if ((unsigned long)n < r->r8) r->r8 = n; }
	else if ((unsigned long)n < r->rdx) r->rdx = n;
	setregs(p);
}

static const char *preq_fault(int i, struct P *p, long *n)
{
	if (i >= npreq) return NULL;
	struct preq *q = &preq[i];
	for (int k = 0; k < q->nf; k++) {
		if (!strcmp(q->f[k].kind, "errsame")) {
			/* this call, and every later call of the same kind */
			if (q->f[k].op == p->op) q->f[k].nr = p->sc->nr;
			else if (q->f[k].op > p->op || q->f[k].nr != p->sc->nr || !strncmp(p->p1, "/memfd:", 7)) continue;
			*n = q->f[k].n; return "err";
		}
		if (q->f[k].op == p->op) { *n = q->f[k].n; return q->f[k].kind; }
		if (!strcmp(q->f[k].kind, "errall") && p->op >= q->f[k].op && (p->cls == 'W') &&
		    (p->sc->nr == SYS_write || p->sc->nr == SYS_writev || p->sc->nr == SYS_pwrite64 || p->sc->nr == SYS_mkdir ||
		     p->sc->nr == SYS_sendfile || p->sc->nr == SYS_copy_file_range ||
		     p->sc->nr == SYS_link || p->sc->nr == SYS_openat || p->sc->nr == SYS_open) &&
		    strncmp(p->p1, "/memfd:", 7)) { *n = q->f[k].n; return "err"; }
	}
	return NULL;
}

/* Perform the pending op of process i, then run it to its next visible op */
static void step(int i)
{
	struct P *p = &procs[i];
	long n = 0; const char *k;
	if (p->st == FRESH) { advance(i, 0); return; }
	char cls = p->cls; long nr = p->sc->nr;
	k = preq_fault(i, p, &n);
	if (k && !strcmp(k, "crash")) { kill_proc(i); return; }
	if (k && !strcmp(k, "torn")) {
		if (n > 0) { shorten(p, n); to_exit(p); }
		kill_proc(i); return;
	}
	if (k && !strcmp(k, "err")) {
		p->regs.orig_rax = -1; p->regs.rax = -n; setregs(p);
	} else if (k && !strcmp(k, "short")) {
		shorten(p, n);
	} else if (cls == 'S') {
		p->regs.orig_rax = -1; p->regs.rax = 0; setregs(p);
	} else if (cls == 'L' && nr == SYS_flock && !(p->regs.rsi & LOCK_NB) && !(p->regs.rsi & LOCK_UN)) {
		/* a blocking lock: try it for the process on its own open file */
		int fd = dupfd(p, (int)p->regs.rdi);
		if (fd >= 0) {
			int e = flock(fd, (int)p->regs.rsi | LOCK_NB);
			close(fd);
			if (e < 0 && errno == EWOULDBLOCK) { p->lockwait = 1; return; }
		}
	} else if (cls == 'L' && nr == SYS_fcntl && (p->regs.rsi == F_SETLKW || p->regs.rsi == 38)) {
		/* POSIX/OFD lock: turn into the non-blocking form, retry later if it would block */
		struct user_regs_struct sv = p->regs;
		p->regs.rsi = p->regs.rsi == F_SETLKW ? F_SETLK : 37; setregs(p);
		if (to_exit(p) < 0) return;
		struct user_regs_struct r2; ptrace(PTRACE_GETREGS, p->pid, 0, &r2);
		if ((long)r2.rax == -EAGAIN || (long)r2.rax == -EACCES) {
			sv.rip -= 2; sv.rax = sv.orig_rax; p->regs = sv;
			ptrace(PTRACE_SETREGS, p->pid, 0, &sv);
			int st; ptrace(PTRACE_CONT, p->pid, 0, 0);
			while (waitpid(p->pid, &st, __WALL) < 0 && errno == EINTR && !timed_out) ;
			ptrace(PTRACE_GETREGS, p->pid, 0, &p->regs);
			p->lockwait = 1;
			return;
		}
	}
	if (cls == 'C' || cls == 'E' || cls == 'L') unlock_event();
	p->op++;
	advance(i, 0);
	if (p->st == DEAD) unlock_event();
}

/* -------------------------------------------------------------- launch */
static int capfd[8][3];
static int mkmem(const char *name) { int f = memfd_create(name, 0); if (f < 0) die("memfd"); return f; }

static int out_fd(const char *spec, int i, int which)
{
	if (!spec || !strcmp(spec, "cap")) { capfd[i][which] = mkmem("cap"); return capfd[i][which]; }
	if (!strcmp(spec, "null")) return open("/dev/null", O_WRONLY);
	if (!strcmp(spec, "full")) return open("/dev/full", O_WRONLY);
	if (!strcmp(spec, "closed")) return -2;
	if (!strncmp(spec, "pipe:", 5)) return dup(pipes[atoi(spec + 5)][1]);
	if (!strncmp(spec, "file:", 5)) return open(spec + 5, O_WRONLY | O_CREAT | O_APPEND, 0644);
	return -2;
}

static pid_t launch(int i)
{
	struct preq *q = &preq[i];
	int fi = -2, fo, fe;
	if (!q->sin || !strcmp(q->sin, "null")) fi = open("/dev/null", O_RDONLY);
	else if (!strcmp(q->sin, "data")) {
		fi = mkmem("in");
		size_t o = 0;
		while (o < q->datalen) { ssize_t w = write(fi, q->data + o, q->datalen - o); if (w <= 0) die("memfd write"); o += w; }
		lseek(fi, 0, SEEK_SET);
	} else if (!strncmp(q->sin, "file:", 5)) fi = open(q->sin + 5, O_RDONLY);
	else if (!strncmp(q->sin, "pipe:", 5)) fi = dup(pipes[atoi(q->sin + 5)][0]);
	fo = out_fd(q->sout, i, 1);
	if (q->serr && !strcmp(q->serr, "stdout")) fe = fo >= 0 ? dup(fo) : -2;
	else fe = out_fd(q->serr, i, 2);
	q->argv[q->argc] = NULL; q->envp[q->envc] = NULL;
	pid_t pid = fork();
	if (pid < 0) die("fork");
	if (pid == 0) {
		/* avoid clobbering: move to high numbers first */
		int a = fi >= 0 ? fcntl(fi, F_DUPFD, 100) : -1, b = fo >= 0 ? fcntl(fo, F_DUPFD, 100) : -1, c = fe >= 0 ? fcntl(fe, F_DUPFD, 100) : -1;
		close(0); close(1); close(2);
		if (a >= 0) dup2(a, 0);
		if (b >= 0) dup2(b, 1);
		if (c >= 0) dup2(c, 2);
		syscall(SYS_close_range, 3, ~0U, 0);
		if (r_cwd && chdir(r_cwd)) _exit(126);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
		struct itimerval z = { { 0, 0 }, { 0, 0 } };
		setitimer(ITIMER_REAL, &z, NULL);
		signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_DFL);
		setpgid(0, 0);
		if (r_trace) {
			ptrace(PTRACE_TRACEME, 0, 0, 0);
			raise(SIGSTOP);
			if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fprog)) _exit(125);
		}
		execve(q->exe, q->argv, q->envp);
		_exit(127);
	}
	if (fi >= 0) close(fi);
	if (fo >= 0 && fo != capfd[i][1]) close(fo);
	if (fe >= 0 && fe != capfd[i][2]) close(fe);
	return pid;
}

static void settimer(int ms)
{
	struct itimerval t = { { 0, 200000 }, { ms / 1000, (ms % 1000) * 1000 } };
	if (!ms) t.it_interval.tv_usec = 0;
	setitimer(ITIMER_REAL, &t, NULL);
}

static void run(void)
{
	const char *end = "ok";
	int cur = -1, stepno = 0;
	char *sp = r_sched;
	long nstep = -1; int nproc = -1;

	np = 0; timed_out = 0; errtxt[0] = 0; obl = 0;
	for (int i = 0; i < 8; i++) capfd[i][1] = capfd[i][2] = -1;
	for (int i = 0; i < r_pipes; i++) if (pipe2(pipes[i], O_CLOEXEC)) die("pipe");
	settimer(r_timeout);
	for (int i = 0; i < npreq; i++) {
		pid_t pid = launch(i);
		int st, j = newproc(pid, -1);
		if (r_trace) {
			while (waitpid(pid, &st, __WALL) < 0 && errno == EINTR) ;
			if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK |
			    PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_TRACEVFORKDONE | PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD) < 0)
				snprintf(errtxt, sizeof errtxt, "setoptions: %s", strerror(errno));
			procs[j].started = 1;
		}
	}
	for (int i = 0; i < r_pipes; i++) { close(pipes[i][0]); close(pipes[i][1]); }

	if (!r_trace) {
		for (int i = 0; i < np; i++) {
			int st;
			while (waitpid(procs[i].pid, &st, 0) < 0) {
				if (errno != EINTR) { st = 0; break; }
				if (timed_out) {
					for (int j = 0; j < np; j++) { kill(-procs[j].pid, SIGKILL); kill(procs[j].pid, SIGKILL); }
					end = "timeout";
				}
			}
			procs[i].exitst = st;
		}
		for (int i = 0; i < np; i++) { kill(-procs[i].pid, SIGKILL); if (procs[i].pidfd >= 0) close(procs[i].pidfd); }
	} else {
		/* bring every initial process to its first visible op */
		for (int i = 0; i < npreq && !errtxt[0] && !timed_out; i++) advance(i, 0);
		for (;;) {
			unsigned mask = 0; int alive = 0;
			if (timed_out) { end = "timeout"; break; }
			if (errtxt[0]) { end = errtxt; break; }
			for (int i = 0; i < np; i++) {
				if (procs[i].st != DEAD) { alive++; if (ready(i)) mask |= 1u << i; }
			}
			if (!alive) break;
			if (!mask) { end = "deadlock"; break; }
			if (stepno >= r_maxsteps) { end = "steps"; break; }
			while (sp && nstep < stepno) {
				while (*sp == ' ') sp++;
				if (!*sp) { sp = NULL; break; }
				nstep = strtol(sp, &sp, 10); sp++; nproc = strtol(sp, &sp, 10);
			}
			if (nstep == stepno) {
				if (nproc < 0 || nproc >= np || !(mask & (1u << nproc))) {
					snprintf(errtxt, sizeof errtxt, "schedule: proc %d not enabled at step %d", nproc, stepno);
					end = errtxt; break;
				}
				cur = nproc;
			} else if (cur < 0 || !(mask & (1u << cur))) {
				cur = __builtin_ctz(mask);
			}
			struct P *p = &procs[cur];
			if (r_trace >= 2) {
				if (p->st == FRESH)
					ob_printf("T %d %d %x %d start N 0 \t\n", stepno, cur, mask, p->op);
				else
					ob_printf("T %d %d %x %d %s %c %ld %s\t%s\n", stepno, cur, mask, p->op, p->sc->name, p->cls, p->len, p->p1, p->p2);
			}
			stepno++;
			step(cur);
		}
		for (int i = 0; i < np; i++) {
			if (procs[i].st != DEAD) { kill_proc(i); procs[i].exitst = 0x10000; }
		}
	}
	settimer(0);
	for (int i = 0; i < np; i++) {
		int st = procs[i].exitst;
		if (st == 0x10000) ob_printf("X %d left 0 %d\n", i, procs[i].op);
		else if (WIFEXITED(st)) ob_printf("X %d exit %d %d\n", i, WEXITSTATUS(st), procs[i].op);
		else ob_printf("X %d sig %d %d\n", i, WTERMSIG(st), procs[i].op);
	}
	for (int i = 0; i < npreq; i++)
		for (int k = 1; k <= 2; k++)
			if (capfd[i][k] >= 0) {
				struct stat sb; fstat(capfd[i][k], &sb);
				ob_printf("O %d %d %ld\n", i, k, (long)sb.st_size);
				size_t l = sb.st_size, o = 0; char *b = malloc(l + 1);
				while (o < l) { ssize_t r = pread(capfd[i][k], b + o, l - o, o); if (r <= 0) break; o += r; }
				b[l] = '\n';
				ob_put(b, l + 1); free(b);
				close(capfd[i][k]);
			}
	ob_printf("E %s\nDONE\n", end);
}

static void reset(void)
{
	for (int i = 0; i < npreq; i++) {
		struct preq *q = &preq[i];
		free(q->exe); free(q->sin); free(q->sout); free(q->serr); free(q->data);
		for (int k = 0; k < q->argc; k++) free(q->argv[k]);
		for (int k = 0; k < q->envc; k++) free(q->envp[k]);
	}
	memset(preq, 0, sizeof preq);
	npreq = 0;
	free(r_root); free(r_cwd); free(r_sched);
	r_root = strdup("/nonexistent"); r_cwd = NULL; r_sched = NULL;
	r_timeout = 10000; r_maxsteps = 1 << 30; r_trace = 0; r_pipes = 0;
}

int main(void)
{
	static char line[4096];
	struct rlimit rl = { 0, 0 };
	struct sigaction sa = { .sa_handler = onalrm };
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = 512UL << 20; rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &rl);
	signal(SIGPIPE, SIG_IGN);
	sigaction(SIGALRM, &sa, NULL);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	build_filter();
	reset();
	while (fgets(line, sizeof line, stdin)) {
		char key[32]; size_t len; char *v;
		if (sscanf(line, "%31s %zu", key, &len) != 2) { errno = EPROTO; die(line); }
		v = malloc(len + 1);
		if (fread(v, 1, len, stdin) != len) die("short request");
		v[len] = 0;
		(void)fgetc(stdin);
		struct preq *q = npreq ? &preq[npreq - 1] : NULL;
		if (!strcmp(key, "go")) {
			free(v);
			run();
			size_t o = 0;
			while (o < obl) { ssize_t w = write(1, ob + o, obl - o); if (w < 0 && errno == EINTR) continue; if (w <= 0) exit(71); o += w; }
			reset();
			/* reap anything re-parented to us */
			while (waitpid(-1, NULL, WNOHANG | __WALL) > 0) ;
		}
		else if (!strcmp(key, "root")) { free(r_root); r_root = v; }
		else if (!strcmp(key, "cwd")) { free(r_cwd); r_cwd = v; }
		else if (!strcmp(key, "sched")) { free(r_sched); r_sched = v; }
		else if (!strcmp(key, "timeout")) { r_timeout = atoi(v); free(v); }
		else if (!strcmp(key, "bigfiles")) { rl.rlim_cur = atoi(v) ? RLIM_INFINITY : 512UL << 20; setrlimit(RLIMIT_FSIZE, &rl); free(v); }
		else if (!strcmp(key, "maxsteps")) { r_maxsteps = atoi(v); free(v); }
		else if (!strcmp(key, "trace")) { r_trace = atoi(v); free(v); }
		else if (!strcmp(key, "pipe")) { r_pipes = atoi(v); free(v); }
		else if (!strcmp(key, "proc")) { npreq++; free(v); if (npreq > 8) die("too many procs"); }
		else if (!q) die("item before proc");
		else if (!strcmp(key, "exe")) q->exe = v;
		else if (!strcmp(key, "arg")) { if (q->argc >= MAXARGV - 1) die("args"); q->argv[q->argc++] = v; }
		else if (!strcmp(key, "env")) { if (q->envc >= MAXARG - 1) die("env"); q->envp[q->envc++] = v; }
		else if (!strcmp(key, "stdin")) q->sin = v;
		else if (!strcmp(key, "stdout")) q->sout = v;
		else if (!strcmp(key, "stderr")) q->serr = v;
		else if (!strcmp(key, "data")) { q->data = v; q->datalen = len; }
		else if (!strcmp(key, "fault")) {
			struct fault *f = &q->f[q->nf++];
			if (q->nf > MAXFAULT) die("faults");
			if (sscanf(v, "%d %7s %ld", &f->op, f->kind, &f->n) != 3) die("fault");
			free(v);
		} else die(key);
	}
	return 0;
}
