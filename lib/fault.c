/* Runs a program and counts its system calls on files below the current folder; single ones can be made to
   fail, to transfer less than asked for, or to be the moment at which the program is killed.

     fault LOG SPEC PROGRAM ARGS...

   SPEC is "-" or a list of N:ACTION separated by commas, N the number of the call (1...) or "*" for every
   read and write; ACTION is k (kill the program instead of the call), eN (the call fails with errno N),
   s (reads or writes at most one byte), h (at most half of what was asked).  LOG gets one line for each call. */
#define _GNU_SOURCE
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/limits.h>
#include <signal.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>

static char cwd[PATH_MAX];
static struct { int n; char act; int arg; } spec[64];
static int nspec;

struct kind { long nr; const char *name; int path, fd; } kinds[] = {
    {SYS_open, "open", 0, -1}, {SYS_openat, "open", 1, -1}, {SYS_creat, "open", 0, -1}, {SYS_read, "read", -1, 0},
    {SYS_pread64, "read", -1, 0}, {SYS_write, "write", -1, 0}, {SYS_pwrite64, "write", -1, 0}, {SYS_fsync, "fsync", -1, 0},
    {SYS_fdatasync, "fsync", -1, 0}, {SYS_ftruncate, "truncate", -1, 0}, {SYS_truncate, "truncate", 0, -1},
    {SYS_rename, "rename", 0, -1}, {SYS_renameat, "rename", 1, -1}, {SYS_renameat2, "rename", 1, -1}, {SYS_unlink, "unlink", 0, -1},
    {SYS_unlinkat, "unlink", 1, -1}, {SYS_rmdir, "rmdir", 0, -1}, {SYS_mkdir, "mkdir", 0, -1}, {SYS_mkdirat, "mkdir", 1, -1},
    {SYS_chmod, "chmod", 0, -1}, {SYS_fchmod, "chmod", -1, 0}, {SYS_fchmodat, "chmod", 1, -1}, {SYS_link, "link", 0, -1},
    {SYS_linkat, "link", 1, -1}, {SYS_symlink, "symlink", 1, -1}, {SYS_symlinkat, "symlink", 2, -1}, {SYS_close, "close", -1, 0},
    {SYS_copy_file_range, "write", -1, 2}, {SYS_sendfile, "write", -1, 0}, {SYS_writev, "write", -1, 0}, {SYS_readv, "read", -1, 0},
    {SYS_getdents64, "getdents", -1, 0}, {0}};

static unsigned long arg(struct user_regs_struct *r, int i)
{
    switch (i) { case 0: return r->rdi; case 1: return r->rsi; case 2: return r->rdx; default: return r->r10; }
}

static int mine(pid_t pid, struct user_regs_struct *r, struct kind *k, char *name)
{
    ssize_t n;
    size_t l = strlen(cwd);

    name[0] = 0;
    if (k->path >= 0) {
        struct iovec a = {name, PATH_MAX - 1}, b = {(void*)arg(r, k->path), PATH_MAX - 1};
        size_t room = 4096 - (arg(r, k->path) & 4095);
        if (room < PATH_MAX - 1) b.iov_len = room;
        n = process_vm_readv(pid, &a, 1, &b, 1, 0);
        if (n <= 0) return 0;
        if (!memchr(name, 0, n) && n < PATH_MAX - 1) {
            a.iov_base = name + n; a.iov_len = PATH_MAX - 1 - n; b.iov_base = (char*)b.iov_base + n; b.iov_len = a.iov_len > 4096 ? 4096 : a.iov_len;
            process_vm_readv(pid, &a, 1, &b, 1, 0);
        }
        name[PATH_MAX - 1] = 0;
        if (name[0] != '/') return strstr(name, "t.bat") == NULL;
    } else {
        char p[64];
        snprintf(p, sizeof p, "/proc/%d/fd/%d", pid, (int)arg(r, k->fd));
        n = readlink(p, name, PATH_MAX - 1);
        if (n <= 0) return 0;
        name[n] = 0;
    }
    if (strncmp(name, cwd, l) || (name[l] != '/' && name[l])) return 0;
    memmove(name, name + l, strlen(name + l) + 1);
    return strcmp(name, "/t.bat") != 0;
}

int main(int argc, char **argv)
{
    FILE *log;
    char *p, name[PATH_MAX];
    int status, count = 0;
    pid_t pid, w;
    /* one program with threads: the state of each */
    static struct { pid_t t; char in, fail; int err; } th[256];

    if (argc < 4 || !getcwd(cwd, sizeof cwd)) return 98;
    for (p = argv[2]; *p && strcmp(argv[2], "-");) {
        spec[nspec].n = *p == '*' ? (p++, -1) : strtol(p, &p, 10);
        if (*p++ != ':') return 98;
        spec[nspec].act = *p++;
        spec[nspec].arg = strtol(p, &p, 10);
        nspec++;
        if (*p == ',') p++;
    }
    log = fopen(argv[1], "w");
    if (!log) return 98;
    pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        execv(argv[3], argv + 3);
        _exit(98);
    }
    if (waitpid(pid, &status, 0) != pid || !WIFSTOPPED(status)) return 98;
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE)) return 97;
    ptrace(PTRACE_SYSCALL, pid, 0, 0);
    for (;;) {
        int i, sig = 0;
        w = waitpid(-1, &status, __WALL);
        if (w < 0) break;
        if (WIFEXITED(status) || WIFSIGNALED(status)) {
            if (w != pid) continue;
            fclose(log);
            return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
        }
        for (i = 0; i < 255 && th[i].t && th[i].t != w; i++);
        th[i].t = w;
        if (WSTOPSIG(status) == (SIGTRAP | 0x80)) {
            struct user_regs_struct r;
            struct kind *k;
            ptrace(PTRACE_GETREGS, w, 0, &r);
            th[i].in = !th[i].in;
            if (th[i].in) {
                th[i].fail = 0;
                for (k = kinds; k->name && k->nr != (long)r.orig_rax; k++);
                if (k->name && mine(w, &r, k, name)) {
                    int j, rw = !strcmp(k->name, "read") || !strcmp(k->name, "write");
                    count++;
                    fprintf(log, "%s %s %s\n", k->name, *name ? name : "/", !strcmp(k->name, "open") && (arg(&r, k->path + 1) & 3) ? "w" : "");
                    for (j = 0; j < nspec; j++)
                        if (spec[j].n == count || (spec[j].n == -1 && rw)) {
                            if (spec[j].act == 'k') { fprintf(log, "KILLED\n"); fclose(log); kill(pid, SIGKILL); return 99; }
                            if (spec[j].act == 'e') { th[i].fail = 1; th[i].err = spec[j].arg; r.orig_rax = -1; }
                            if (spec[j].act == 's' && rw && r.rdx > 1) r.rdx = 1;
                            if (spec[j].act == 'h' && rw && r.rdx > 1) r.rdx /= 2;
                            ptrace(PTRACE_SETREGS, w, 0, &r);
                        }
                }
            } else if (th[i].fail) {
                r.rax = -th[i].err; th[i].fail = 0;
                ptrace(PTRACE_SETREGS, w, 0, &r);
            }
        } else if (WSTOPSIG(status) != SIGTRAP && WSTOPSIG(status) != SIGSTOP) sig = WSTOPSIG(status);
        ptrace(PTRACE_SYSCALL, w, 0, sig);
    }
    return 98;
}
