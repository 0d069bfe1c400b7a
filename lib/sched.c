/* Runs a program many times, once for each way of scheduling its threads and processes (stateless model checking
   of the real program), and tells which outcomes there are.

     sched PREEMPTIONS MAXRUNS PROGRAM ARGS...

   All threads and child processes are traced; only one of them runs at a time, from one visible system call to
   the next (reads, writes, closes, duplications, futexes, forks, waits, ...).  Before each visible call of several
   possible threads there is a choice; every sequence of choices with at most PREEMPTIONS switches away from a thread that
   could have gone on is run (depth first, each from the start, so runs are independent).  A call that would block
   (empty pipe, full pipe, locked futex, child still running) is not possible until it would not.

   The program runs in the subfolder w of the current folder (emptied before each run) with standard input from
   "in" (or /dev/null), standard output and error into files.  Written to standard output: one record for each
   distinct outcome (status, output, errors, files left in w) with the first schedule that leads to it. */
#define _GNU_SOURCE
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <stddef.h>
#include <linux/limits.h>
#include <ftw.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <signal.h>
#include <sched.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <time.h>

#define MAXT 128
#define MAXC 20000
enum { NONE, NEW, READY, BLOCKED, DEAD };
static struct task {
    pid_t tid, tgid, ppid;
    int state, in;          /* in: inside a system call (as seen by the stops) */
    int intramp;
    struct user_regs_struct r;
} T[MAXT];
static int nt, traced;
static struct { pid_t pid, ppid; int code, reaped; } ex[MAXT];
static int nex;

static struct choice { short n, who[16], tried, prev, pre; } C[MAXC];
static int nprefix, nc, bound;
static long runs, points, maxruns, diverged; static int maxen, maxdepth, cutoff;
static char **prog;
static const char *fault; static char faultbuf[200];

/* is the call one that others can notice, or that depends on others? */
static char here[PATH_MAX];
static int threads(pid_t tgid) { int i, n = 0; for (i = 0; i < nt; i++) if (T[i].state != DEAD && T[i].tgid == tgid) n++; return n; }
static int target(struct task *t, int fd)       /* 0 no file, 1 pipe, terminal, file in here; 2 other file */
{
    char p[64], l[PATH_MAX]; int n;
    snprintf(p, sizeof p, "/proc/%d/fd/%d", t->tgid, fd);
    n = readlink(p, l, sizeof l - 1);
    if (n < 0) return 0;
    l[n] = 0;
    return l[0] != '/' || !strncmp(l, here, strlen(here)) ? 1 : 2;
}
static int visible(struct task *t)
{
    int alone = threads(t->tgid) == 1;
    switch (t->r.orig_rax) {
    case SYS_read: case SYS_write: case SYS_readv: case SYS_writev: case SYS_pread64: case SYS_pwrite64: case SYS_lseek: case SYS_ftruncate:
        return alone ? target(t, t->r.rdi) == 1 : 1;
    case SYS_close: return alone ? target(t, t->r.rdi) == 1 : target(t, t->r.rdi) > 0;
    case SYS_pipe: case SYS_pipe2: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fcntl: case SYS_open: case SYS_openat: return !alone;
    case SYS_futex: case SYS_clone: case SYS_clone3:
    case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_exit: case SYS_exit_group: case SYS_wait4: case SYS_waitid: case SYS_kill: case SYS_tgkill:
    case SYS_tkill: case SYS_chdir: case SYS_unlink: case SYS_rename: case SYS_mkdir: case SYS_rmdir: case SYS_poll: case SYS_nanosleep:
    case SYS_clock_nanosleep: case SYS_sendfile: case SYS_copy_file_range: case SYS_splice: case SYS_close_range:
        return 1;
    }
    return 0;
}

/* the kernel reports only the calls visible() knows; descriptors above 63 are only ever closed, by children that do not have them */
static int filter(void)
{
    static const int calls[] = {SYS_read, SYS_write, SYS_readv, SYS_writev, SYS_pread64, SYS_pwrite64, SYS_lseek, SYS_ftruncate, SYS_close, SYS_pipe, SYS_pipe2,
        SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl, SYS_open, SYS_openat, SYS_futex, SYS_clone, SYS_clone3, SYS_fork, SYS_vfork, SYS_execve, SYS_exit, SYS_exit_group,
        SYS_wait4, SYS_waitid, SYS_kill, SYS_tgkill, SYS_tkill, SYS_chdir, SYS_unlink, SYS_rename, SYS_mkdir, SYS_rmdir, SYS_poll, SYS_nanosleep, SYS_clock_nanosleep,
        SYS_sendfile, SYS_copy_file_range, SYS_splice, SYS_close_range};
    struct sock_filter f[256]; int n = 0; unsigned i;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_close, 0, 4);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[0]));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, 63, 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    for (i = 0; i < sizeof calls / sizeof *calls; i++) {
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i], 0, 1);
        f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    }
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog pr = {n, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return 1;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr);
}

static int pollfd_of(struct task *t, int fd, int events)
{
    int p = syscall(SYS_pidfd_open, t->tgid, 0), f, r = 1;
    struct stat st;
    if (p < 0) return 1;
    f = syscall(SYS_pidfd_getfd, p, fd, 0);
    close(p);
    if (f < 0) return 1;                /* the call will fail */
    if (!fstat(f, &st) && (S_ISFIFO(st.st_mode) || S_ISSOCK(st.st_mode) || S_ISCHR(st.st_mode))) {
        struct pollfd q = {f, events, 0};
        r = poll(&q, 1, 0) > 0;
    }
    close(f);
    return r;
}

static int enabled(struct task *t)
{
    struct user_regs_struct *r = &t->r;
    if (t->state == NEW) return 1;
    if (t->state != READY) return 0;
    switch (r->orig_rax) {
    case SYS_read: case SYS_readv: return pollfd_of(t, r->rdi, POLLIN);
    case SYS_write: case SYS_writev: return pollfd_of(t, r->rdi, POLLOUT);
    case SYS_futex: {
        int op = r->rsi & 127, v;
        struct iovec a = {&v, 4}, b = {(void*)r->rdi, 4};
        if (op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET) return 1;
        if (process_vm_readv(t->tid, &a, 1, &b, 1, 0) != 4) return 1;
        return v != (int)r->rdx;
    }
    case SYS_wait4: {
        int i, any = 0;
        for (i = 0; i < nex; i++) if (ex[i].ppid == t->tgid && !ex[i].reaped && ((int)r->rdi == -1 || (int)r->rdi == ex[i].pid)) return 1;
        for (i = 0; i < nt; i++) if (T[i].state != DEAD && T[i].ppid == t->tgid && T[i].tid == T[i].tgid && ((int)r->rdi == -1 || (int)r->rdi == T[i].tid)) any = 1;
        return !any || (r->rdx & WNOHANG);
    }
    }
    return 1;
}

static struct task *add(pid_t tid, pid_t tgid, pid_t ppid)
{
    struct task *t;
    if (nt == MAXT) { fault = "too many threads"; return &T[0]; }
    t = &T[nt++]; memset(t, 0, sizeof *t); t->tid = tid; t->tgid = tgid; t->ppid = ppid; t->state = NEW;
    return t;
}
static pid_t rootpid; static int rootstatus, rootdone;
static void dead(struct task *t, int status)
{
    t->state = DEAD;
    if (t->tid == t->tgid) {
        if (nex < MAXT) { ex[nex].pid = t->tid; ex[nex].ppid = t->ppid; ex[nex].code = status; ex[nex++].reaped = 0; }
        if (t->tid == rootpid) { rootdone = 1; rootstatus = status; }
    }
}
static int asleep(pid_t tid)
{
    char p[64], b[512], *q; int f, n;
    snprintf(p, sizeof p, "/proc/%d/stat", tid);
    f = open(p, O_RDONLY); n = f < 0 ? 0 : read(f, b, sizeof b - 1); if (f >= 0) close(f);
    b[n > 0 ? n : 0] = 0; q = strrchr(b, ')');
    return q && q[2] == 'S';
}
/* waits for a stop of the given thread; 1 stopped (status set), 0 it is blocked in the kernel, -1 it died */
static int await(struct task *t, int *status, int mayblock)
{
    struct timespec t0, t1;
    int spins = 0, sleepy = 0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
        pid_t w = waitpid(t->tid, status, __WALL | (mayblock ? WNOHANG : 0));
        if (w == t->tid) { if (WIFEXITED(*status) || WIFSIGNALED(*status)) { dead(t, *status); return -1; } return 1; }
        if (w < 0 && errno == ECHILD) { dead(t, 0); return -1; }
        if (w < 0 && errno == EINTR) continue;
        if (++spins > 40) {
            /* a task also looks asleep while it is about to see that it need not sleep */
            if (asleep(t->tid)) { if (++sleepy > 20) return 0; usleep(100); } else sleepy = 0;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec > 10) { fault = "a thread runs for ever"; return 0; }
            if (spins > 200) usleep(50); else sched_yield();
        }
    }
}
/* lets a thread go on until its next visible system call (state READY), its death, or a block in the kernel */
static void go(struct task *t, int started)
{
    int status, k, sig = 0;
    for (;;) {
        k = await(t, &status, 1);
        if (k < 0) return;
        if (k == 0) { if (!fault) t->state = BLOCKED; return; }
        sig = 0;
        if (status >> 8 == (SIGTRAP | (PTRACE_EVENT_SECCOMP << 8))) {
            if (traced) {
                ptrace(PTRACE_GETREGS, t->tid, 0, &t->r);
                if (t->r.orig_rax == SYS_exit_group) {
                    /* all threads of the process end */
                    pid_t g = t->tgid; int i, pass, s;
                    ptrace(PTRACE_CONT, t->tid, 0, 0);
                    for (pass = 0; pass < 2; pass++) for (i = 0; i < nt; i++) if (T[i].tgid == g && T[i].state != DEAD && (T[i].tid == g) == pass)
                        while (T[i].state != DEAD) { int a = await(&T[i], &s, 0); if (a == 1) ptrace(PTRACE_CONT, T[i].tid, 0, 0); if (a == 0) break; }
                    return;
                }
                if (visible(t)) { t->state = READY; return; }
            }
        } else if (WSTOPSIG(status) == (SIGTRAP | 0x80)) {      /* the end of a wait */
            struct user_regs_struct r; int i;
            ptrace(PTRACE_GETREGS, t->tid, 0, &r);
            for (i = 0; i < nex; i++) if ((long)r.rax == ex[i].pid) ex[i].reaped = 1;
        } else if (status >> 8 == (SIGTRAP | (PTRACE_EVENT_CLONE << 8)) || status >> 8 == (SIGTRAP | (PTRACE_EVENT_FORK << 8)) || status >> 8 == (SIGTRAP | (PTRACE_EVENT_VFORK << 8))) {
            unsigned long c; int s; int thread = status >> 16 == PTRACE_EVENT_CLONE && 1;
            struct task *n;
            ptrace(PTRACE_GETEVENTMSG, t->tid, 0, &c);
            while (waitpid(c, &s, __WALL) < 0 && errno == EINTR);
            if (thread) {               /* a thread, or fork() by way of clone */
                char p[64], b[4096], *q; int f, l; pid_t g = c;
                snprintf(p, sizeof p, "/proc/%ld/status", c);
                f = open(p, O_RDONLY); l = read(f, b, sizeof b - 1); close(f); b[l > 0 ? l : 0] = 0;
                if ((q = strstr(b, "Tgid:"))) g = atoi(q + 5);
                n = add(c, g, g == (pid_t)c ? t->tgid : 0);
            } else n = add(c, c, t->tgid);
            if (!traced) {              /* from now on every system call counts */
                traced = 1;
            }
            (void)n;
        } else if (status >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) {
        } else if (WSTOPSIG(status) != SIGSTOP && WSTOPSIG(status) != SIGTRAP) sig = WSTOPSIG(status);
        /* a lone thread need not be watched */
        ptrace(PTRACE_CONT, t->tid, 0, sig);
    }
}
static int rm1(const char *p, const struct stat *st, int f, struct FTW *w) { if (w->level) remove(p); return 0; }
static void empty(void) { nftw("w", rm1, 16, FTW_DEPTH | FTW_PHYS); mkdir("w", 0777); }

static void killall(void)
{
    int i, s;
    for (i = 0; i < nt; i++) if (T[i].state != DEAD) kill(T[i].tgid, SIGKILL);
    while (waitpid(-1, &s, __WALL) > 0 || errno == EINTR);
}

static void one(void)
{
    int status, prev = 0, pre = 0, i;
    pid_t pid;
    nt = nex = traced = 0; nc = 0; fault = NULL; rootdone = 0;
    empty();
    pid = fork();
    if (pid == 0) {
        int o, e, n;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        personality(ADDR_NO_RANDOMIZE);
        n = open("in", O_RDONLY); if (n < 0) n = open("/dev/null", O_RDONLY);
        o = open("out", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666); e = open("err", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
        dup2(n, 0); dup2(o, 1); dup2(e, 2);
        if (n > 2) close(n); if (o > 2) close(o); if (e > 2) close(e);
        if (chdir("w")) _exit(98);
        ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); if (filter()) _exit(97); execv(prog[0], prog); _exit(98);
    }
    rootpid = pid;
    if (waitpid(pid, &status, 0) != pid || !WIFSTOPPED(status)) { fault = "no start"; return; }
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP)) { fault = "no tracing"; return; }
    add(pid, pid, 0);
    ptrace(PTRACE_CONT, pid, 0, 0);
    go(&T[0], 1);
    while (!fault) {
        short who[16]; int n = 0, c, alive = 0;
        /* threads that were blocked in the kernel and have been woken */
        for (i = 0; i < nt; i++) if (T[i].state == BLOCKED) {
            if (!asleep(T[i].tid)) go(&T[i], 0);
        }
        for (i = 0; i < nt && !fault; i++) { if (T[i].state != DEAD) alive++; if (n < 16 && enabled(&T[i])) who[n++] = i; }
        if (fault || !alive) break;
        traced = alive > 1;
        if (!n) {
            /* asleep for a time? */
            int again = 0, blocked = 0, j;
            for (i = 0; i < nt; i++) if (T[i].state == BLOCKED) blocked = 1;
            for (j = 0; j < 500 && blocked && !again; j++) {
                for (i = 0; i < nt; i++) if (T[i].state == BLOCKED && !asleep(T[i].tid)) again = 1;
                if (!again) usleep(10000);
            }
            if (again) continue;
        }
        if (!n) {
            int l = snprintf(faultbuf, sizeof faultbuf, "deadlock:");
            for (i = 0; i < nt; i++) if (T[i].state != DEAD) l += snprintf(faultbuf + l, sizeof faultbuf - l > 40 ? 40 : 0, " %d in call %lld", i, T[i].r.orig_rax);
            fault = faultbuf; break;
        }
        c = who[0];
        for (i = 0; i < n; i++) if (who[i] == prev) c = prev;
        /* the default comes first */
        for (i = 0; i < n; i++) if (who[i] == c) { memmove(who + 1, who, i * sizeof *who); who[0] = c; break; }
        if (n > 1) {
            struct choice *k;
            if (nc == MAXC) { fault = "too many choices"; break; }
            k = &C[nc];
            if (nc < nprefix && (k->n != n || memcmp(k->who, who, n * sizeof *who))) { diverged++; nprefix = nc; }
            if (nc >= nprefix) { k->n = n; k->tried = 0; memcpy(k->who, who, sizeof who); }
            c = k->who[k->tried]; k->prev = prev; k->pre = pre;
            for (i = 0; i < n; i++) if (who[i] == prev && c != prev) { pre++; break; }
            nc++; points++;
            if (n > maxen) maxen = n;
        }
        prev = c;
        { struct task *t = &T[c]; int fresh = t->state == NEW;
          if (fresh) t->state = READY;
          ptrace(!fresh && t->r.orig_rax == SYS_wait4 ? PTRACE_SYSCALL : PTRACE_CONT, t->tid, 0, 0); go(t, !fresh); }
    }
    if (nc > maxdepth) maxdepth = nc;
    killall();
    runs++;
}

/* outcomes */
static struct { char *d; size_t n; long count; char *sched; } O[64];
static int no;
static char *slurp(const char *p, size_t *n)
{
    FILE *f = fopen(p, "rb"); char *b = malloc(1 << 20); *n = 0;
    if (f) { *n = fread(b, 1, 1 << 20, f); fclose(f); }
    return b;
}
static char *acc; static size_t accn;
static void put(const char *d, size_t n) { acc = realloc(acc, accn + n + 1); memcpy(acc + accn, d, n); accn += n; }
static void field(const char *d, size_t n) { char b[32]; put(b, sprintf(b, "%zu\n", n)); put(d, n); }
static int tree1(const char *p, const struct stat *st, int f, struct FTW *w)
{
    size_t n; char *b;
    if (!w->level) return 0;
    field(p + 2, strlen(p + 2));
    if (f == FTW_F) { b = slurp(p, &n); field(b, n); free(b); } else field("/", 1);
    return 0;
}
static void outcome(void)
{
    size_t n; char *b, s[64]; int i;
    accn = 0;
    if (fault) snprintf(s, sizeof s, "%.60s", fault); else snprintf(s, sizeof s, "%d", WIFEXITED(rootstatus) ? WEXITSTATUS(rootstatus) : -WTERMSIG(rootstatus));
    field(s, strlen(s));
    b = slurp("out", &n); field(b, n); free(b);
    b = slurp("err", &n); field(b, n); free(b);
    nftw("w", tree1, 16, FTW_PHYS);
    for (i = 0; i < no; i++) if (O[i].n == accn && !memcmp(O[i].d, acc, accn)) { O[i].count++; return; }
    if (no == 64) return;
    O[no].d = malloc(accn); memcpy(O[no].d, acc, accn); O[no].n = accn; O[no].count = 1;
    O[no].sched = malloc(nc * 4 + 8); O[no].sched[0] = 0;
    { char *q = O[no].sched; for (i = 0; i < nc; i++) q += sprintf(q, "%d ", C[i].who[C[i].tried] & 127); }
    no++;
}

int main(int argc, char **argv)
{
    int i, faults = 0;
    const char *replay = getenv("SCHED_REPLAY");
    if (argc < 4) return 98;
    bound = atoi(argv[1]); maxruns = atol(argv[2]); prog = argv + 3;
    umask(0);
    if (!getcwd(here, sizeof here)) return 98;
    for (;;) {
        one(); outcome();
        if (fault && ++faults == 3) { cutoff = 1; break; }      /* enough to tell, and each takes seconds */
        if (runs >= maxruns) { cutoff = 1; break; }
        /* the next schedule: the deepest choice with an alternative left within the bound */
        for (i = nc - 1; i >= 0; i--) {
            struct choice *k = &C[i]; int ok = 0;
            while (++k->tried < k->n) {
                int j, cost = 0;
                for (j = 0; j < k->n; j++) if (k->who[j] == k->prev && k->who[k->tried] != k->prev) cost = 1;
                if (k->pre + cost <= bound) { ok = 1; break; }
            }
            if (ok) break;
        }
        if (i < 0) break;
        nprefix = i + 1;
        if (replay) break;
    }
    printf("%ld %ld %d %d %d %ld %d\n", runs, points, maxen, maxdepth, cutoff, diverged, no);
    for (i = 0; i < no; i++) {
        printf("%ld %zu %zu\n%s", O[i].count, strlen(O[i].sched), O[i].n, O[i].sched);
        fwrite(O[i].d, 1, O[i].n, stdout);
    }
    return 0;
}
