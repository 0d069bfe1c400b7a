/* mrun JOBS OUTPREFIX NWORKERS SCRATCH UID : runs every case of the file JOBS, each in a fresh
 * scratch directory, as an unprivileged user, and writes OUTPREFIX.<k> result files.
 * See mc.py for the format of the two files. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <dirent.h>
#include <time.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>

typedef unsigned char u8; typedef uint32_t u32;
static u8 *base; static size_t total;
static const u8 *p;
static u32 g32(void) { u32 v; memcpy(&v, p, 4); p += 4; return v; }
static char *gstr(u32 *len) { u32 n = g32(); char *s = malloc(n + 1); memcpy(s, p, n); s[n] = 0; p += n; if (len) *len = n; return s; }

typedef struct { char *d; size_t n, cap; } buf;
static void badd(buf *b, const void *d, size_t n) {
  if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 256; b->d = realloc(b->d, b->cap); }
  memcpy(b->d + b->n, d, n); b->n += n; }
static void b32(buf *b, u32 v) { badd(b, &v, 4); }
static void bstr(buf *b, const void *d, u32 n) { b32(b, n); badd(b, d, n); }

static void rmtree(int dirfd, const char *name) {
  int fd = openat(dirfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (fd >= 0) {
    fchmod(fd, 0777);
    DIR *d = fdopendir(fd); struct dirent *e;
    while ((e = readdir(d))) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      if (e->d_type != DT_DIR && unlinkat(fd, e->d_name, 0) == 0) continue;
      rmtree(fd, e->d_name);
    }
    closedir(d);
  }
  if (unlinkat(dirfd, name, AT_REMOVEDIR)) unlinkat(dirfd, name, 0);
}

static int cmpname(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void snap(buf *b, u32 *count, int dirfd, const char *prefix) {
  int fd = openat(dirfd, ".", O_RDONLY | O_DIRECTORY);
  if (fd < 0) return;
  DIR *d = fdopendir(fd); struct dirent *e; char *names[4096]; int n = 0, i;
  while ((e = readdir(d)) && n < 4096)
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names[n++] = strdup(e->d_name);
  qsort(names, n, sizeof *names, cmpname);
  for (i = 0; i < n; i++) {
    struct stat st; char path[4096];
    if (fstatat(fd, names[i], &st, AT_SYMLINK_NOFOLLOW)) continue;
    snprintf(path, sizeof path, "%s%s", prefix, names[i]);
    ++*count;
    b32(b, S_ISDIR(st.st_mode) ? 1 : S_ISLNK(st.st_mode) ? 2 : S_ISREG(st.st_mode) ? 0 : 9);
    b32(b, st.st_mode & 07777);
    bstr(b, path, strlen(path));
    /* what the case made unreadable is still to be seen */
    if (S_ISREG(st.st_mode) && !(st.st_mode & 0400)) fchmodat(fd, names[i], 0600, 0);
    if (S_ISDIR(st.st_mode) && (st.st_mode & 0700) != 0700) fchmodat(fd, names[i], 0700, 0);
    if (S_ISREG(st.st_mode)) {
      int f = openat(fd, names[i], O_RDONLY); buf c = {0}; char t[65536]; ssize_t k;
      while (f >= 0 && (k = read(f, t, sizeof t)) > 0 && c.n < (1 << 24)) badd(&c, t, k);
      if (f >= 0) close(f);
      bstr(b, c.d, c.n); free(c.d);
    } else if (S_ISLNK(st.st_mode)) {
      char t[4096]; ssize_t k = readlinkat(fd, names[i], t, sizeof t);
      bstr(b, t, k < 0 ? 0 : k);
    } else {
      bstr(b, "", 0);
      if (S_ISDIR(st.st_mode)) {
        int s = openat(fd, names[i], O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
        if (s >= 0) { strcat(path, "/"); snap(b, count, s, path); close(s); }
      }
    }
    free(names[i]);
  }
  closedir(d);
}

static void putfile(const char *name, const char *c, u32 n) {
  int f = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644); u32 o = 0;
  if (f < 0) { fprintf(stderr, "mrun: cannot make %s: %s\n", name, strerror(errno)); exit(9); }
  while (o < n) { ssize_t k = write(f, c + o, n - o); if (k <= 0) exit(9); o += k; }
  close(f);
}

static long nowus(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }

/* cases that ran into their time limit: when there are many, the rest gets less time (the caller runs late cases again) */
static volatile u32 *late;
static void runcase(u32 id, const u8 *at, FILE *out, const char *scratch, int scratchfd, int worker) {
  p = at; u32 i;
  char dir[600], sub[64]; int dfd;
  snprintf(sub, sizeof sub, "w%02d", worker);
  snprintf(dir, sizeof dir, "%s/%s", scratch, sub);
  rmtree(scratchfd, sub);
  if (mkdirat(scratchfd, sub, 0755)) { perror("mrun: mkdir"); exit(9); }
  if (chdir(dir)) exit(9);
  dfd = open(".", O_RDONLY | O_DIRECTORY);
  u32 nf = g32();
  struct { char *n; u32 mode; } modes[512]; int nm = 0;
  for (i = 0; i < nf; i++) {
    u32 type = g32(), mode = g32(), n; char *name = gstr(NULL), *c = gstr(&n);
    if (type == 1) mkdir(name, 0755);
    else if (type == 2) { if (symlink(c, name)) {} }
    else if (type == 3) mkfifo(name, 0644);
    else putfile(name, c, n);
    if (mode && nm < 512) { modes[nm].n = strdup(name); modes[nm++].mode = mode; }
    free(name); free(c);
  }
  while (nm > 0) { nm--; chmod(modes[nm].n, modes[nm].mode); free(modes[nm].n); }
  u32 ac = g32(); char *av[ac + 1]; for (i = 0; i < ac; i++) av[i] = gstr(NULL); av[ac] = NULL;
  u32 ec = g32(); char *ev[ec + 1]; for (i = 0; i < ec; i++) ev[i] = gstr(NULL); ev[ec] = NULL;
  u32 inlen; char *in = gstr(&inlen);
  u32 inkind = g32(), tmo = g32(), flags = g32(), cap = g32();

  int po[2], pe[2], fi; if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) exit(9);
  int pi[2] = {-1, -1};
  if (inkind == 1) { if (pipe2(pi, O_CLOEXEC)) exit(9); fi = pi[0]; }
  else if (inlen == 0) fi = open("/dev/null", O_RDONLY | O_CLOEXEC);
  else { fi = memfd_create("in", MFD_CLOEXEC); if (write(fi, in, inlen) != (ssize_t)inlen) exit(9); lseek(fi, 0, SEEK_SET); }
  long t0 = nowus();
  pid_t pid = vfork();
  if (pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(fi, 0); dup2(po[1], 1); dup2((flags & 2) ? po[1] : pe[1], 2);
    if (flags & 4) { struct rlimit as = {1u << 30, 1u << 30}; setrlimit(RLIMIT_AS, &as); }
    { int q; for (q = 1; q < 32; q++) if (q != SIGKILL && q != SIGSTOP) signal(q, SIG_DFL); sigset_t no; sigemptyset(&no); sigprocmask(SIG_SETMASK, &no, NULL); }
    execve(av[0], av, ev);
    _exit(127);
  }
  close(po[1]); close(pe[1]); close(fi);
  setpgid(pid, pid);
  u32 inoff = 0;
  if (inkind == 1) { fcntl(pi[1], F_SETFL, O_NONBLOCK); if (!inlen) { close(pi[1]); pi[1] = -1; } }
  buf o = {0}, e = {0}; int timedout = 0, st = 0, dead = 0, over = 0; int fo = po[0], fe = pe[0];
  while (fo >= 0 || fe >= 0 || !dead) {
    struct pollfd f[3]; int n = 0, k; int io = -1, ie = -1, ii = -1;
    if (fo >= 0) { f[n].fd = fo; f[n].events = POLLIN; io = n++; }
    if (fe >= 0) { f[n].fd = fe; f[n].events = POLLIN; ie = n++; }
    if (pi[1] >= 0) { f[n].fd = pi[1]; f[n].events = POLLOUT; ii = n++; }
    if (*late >= 400 && tmo > 60) tmo = 60; else if (*late >= 64 && tmo > 400) tmo = 400; else if (*late >= 8 && tmo > 2000) tmo = 2000;
    long left = tmo - (nowus() - t0) / 1000;
    if (left <= 0 && !timedout) { timedout = 1; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
    if (n == 0) {   /* both streams closed: wait for the child */
      pid_t w = waitpid(pid, &st, timedout ? 0 : WNOHANG);
      if (w == pid) dead = 1; else usleep(200);
      continue;
    }
    k = poll(f, n, timedout ? 50 : left > 20 ? 20 : (int)left);
    if (k > 0) {
      char t[65536]; ssize_t r;
      if (io >= 0 && f[io].revents) { r = read(fo, t, sizeof t); if (r <= 0) { close(fo); fo = -1; } else if (o.n + e.n < cap) badd(&o, t, r); else over = 1; }
      if (ie >= 0 && f[ie].revents) { r = read(fe, t, sizeof t); if (r <= 0) { close(fe); fe = -1; } else if (o.n + e.n < cap) badd(&e, t, r); else over = 1; }
      if (ii >= 0 && f[ii].revents) { r = write(pi[1], in + inoff, inlen - inoff); if (r > 0) inoff += r; if ((r < 0 && errno != EAGAIN) || inoff >= inlen) { close(pi[1]); pi[1] = -1; } }
      if (over && !timedout) { timedout = 2; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
    } else {
      if (!dead && waitpid(pid, &st, WNOHANG) == pid) { dead = 1; kill(-pid, SIGKILL); }
      else if (dead) { if (fo >= 0) close(fo); if (fe >= 0) close(fe); fo = fe = -1; }
    }
  }
  if (fo >= 0) close(fo);
  if (fe >= 0) close(fe);
  if (pi[1] >= 0) close(pi[1]);
  kill(-pid, SIGKILL);
  if (timedout == 1) __sync_fetch_and_add(late, 1);
  int status = timedout == 1 ? -1000 : timedout == 2 ? -1001 : WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  buf r = {0}; b32(&r, id); b32(&r, (u32)status); bstr(&r, o.d, o.n); bstr(&r, e.d, e.n);
  b32(&r, nowus() - t0);
  buf s = {0}; u32 cnt = 0; if (flags & 1) { if (fchdir(dfd)) {} snap(&s, &cnt, dfd, ""); }
  b32(&r, cnt); badd(&r, s.d, s.n);
  fwrite(r.d, 1, r.n, out);
  free(r.d); free(s.d); free(o.d); free(e.d); free(in);
  for (i = 0; i < ac; i++) free(av[i]);
  for (i = 0; i < ec; i++) free(ev[i]);
  close(dfd);
}

int main(int argc, char **argv) {
  if (argc < 6) return 9;
  int f = open(argv[1], O_RDONLY); struct stat st; fstat(f, &st); total = st.st_size;
  base = mmap(NULL, total, PROT_READ, MAP_PRIVATE, f, 0);
  u32 n; memcpy(&n, base, 4);
  const uint64_t *off = (const uint64_t *)(base + 8);
  int nw = atoi(argv[3]), uid = atoi(argv[5]), k;
  volatile u32 *next = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  late = next + 16;
  signal(SIGPIPE, SIG_IGN);
  for (k = 0; k < nw; k++) {
    if (fork() == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      char name[600]; snprintf(name, sizeof name, "%s.%d", argv[2], k);
      FILE *out = fopen(name, "wb"); setvbuf(out, NULL, _IOFBF, 1 << 20);
      if (uid && getuid() == 0) { setgroups(0, NULL); if (setgid(uid) || setuid(uid)) { fprintf(stderr, "mrun: cannot become uid %d\n", uid); } prctl(PR_SET_PDEATHSIG, SIGKILL); }
      /* a CPU limit as a safety net, no core files, bounded file sizes */
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 1 << 27; setrlimit(RLIMIT_FSIZE, &rl);
      umask(022);
      int sfd = open(argv[4], O_RDONLY | O_DIRECTORY);
      for (;;) { u32 i = __sync_fetch_and_add(next, 1); if (i >= n) break; runcase(i, base + off[i], out, argv[4], sfd, k); }
      char sub[64]; snprintf(sub, sizeof sub, "w%02d", k); if (chdir("/")) {} rmtree(sfd, sub);
      fclose(out); _exit(0);
    }
  }
  int rc = 0, s; while (wait(&s) > 0) if (s) rc = 9;
  return rc;
}
