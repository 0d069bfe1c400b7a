/* LD_PRELOAD for P36: the wall clock tells what the file $CLOCK says, in seconds since 1970. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
static int now(time_t *t)
{
    char b[64], *n = getenv("CLOCK"); int f, l;
    if (!n || (f = open(n, O_RDONLY)) < 0) return 0;
    l = read(f, b, sizeof b - 1); close(f);
    if (l <= 0) return 0;
    b[l] = 0; *t = atoll(b); return 1;
}
time_t time(time_t *p) { time_t t; struct timespec s; if (!now(&t)) { syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t = s.tv_sec; } if (p) *p = t; return t; }
int gettimeofday(struct timeval *v, void *z) { if (v) { v->tv_sec = time(0); v->tv_usec = 0; } return 0; }
int clock_gettime(clockid_t c, struct timespec *s)
{
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return syscall(SYS_clock_gettime, c, s);
    s->tv_sec = time(0); s->tv_nsec = 0; return 0;
}
int timespec_get(struct timespec *s, int base) { s->tv_sec = time(0); s->tv_nsec = 0; return base; }
