/* The program that P35 starts: startee ID MODE STATUS [parameter ...]
   MODE: q at once, w after a while, g when the file go.ID is there, r reads a line, e writes to stderr, k dies of
   signal STATUS, d only waits for the file done.ID.  Files are those of the folder in the variable R. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
static char n[4096];
static char *name(const char *k, const char *i) { snprintf(n, sizeof n, "%s/%s.%s", getenv("R"), k, i); return n; }
static int await(const char *k, const char *i) { int t; for (t = 0; access(name(k, i), F_OK); t++) { if (t == 5000) return 0; usleep(2000); } return 1; }
int main(int c, char **v)
{
    char d[4096], l[256]; int i; FILE *f; const char *r = getenv("R"), *e = getenv("v");
    if (c < 4 || !r) { printf("p %d\n", c); return 1; }
    if (*v[2] == 'd') { await("done", v[1]); return 0; }
    if (*v[2] == 'w') usleep(20000);
    if (*v[2] == 'g' && !await("go", v[1])) printf("nobody came: ");
    getcwd(d, sizeof d);
    printf("p");
    for (i = 4; i < c; i++) printf(" [%s]", v[i]);
    printf(" in %s v=%s", !strncmp(d, r, strlen(r)) ? d + strlen(r) : d, e ? e : "");
    if (*v[2] == 'r') printf(" read %s", fgets(l, sizeof l, stdin) ? strtok(l, "\n") : "nothing");
    printf("\n"); fflush(stdout);
    if (*v[2] == 'e') fprintf(stderr, "err\n");
    if ((f = fopen(name("done", v[1]), "w"))) fclose(f);
    if (*v[2] == 'k') { struct rlimit no = {0, 0}; setrlimit(RLIMIT_CORE, &no); kill(getpid(), atoi(v[3])); }
    return atoi(v[3]);
}
