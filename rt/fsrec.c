/* Preloaded into the driver: records every file the process creates or opens for writing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>

static void rec(const char *what, const char *path) {
    char *fd = getenv("FSREC_FD"), buf[4096];
    if (!fd) return;
    int n = snprintf(buf, sizeof buf, "%s %s %s\n", program_invocation_short_name, what, path);
    if (n > 0 && n < (int) sizeof buf && write(atoi(fd), buf, n) < 0) {}
}

int mkstemps(char *t, int n) {
    int (*f)(char *, int) = dlsym(RTLD_NEXT, "mkstemps");
    int r = f(t, n);
    if (r >= 0) rec("temp", t);
    return r;
}
int mkstemp(char *t) {
    int (*f)(char *) = dlsym(RTLD_NEXT, "mkstemp");
    int r = f(t);
    if (r >= 0) rec("temp", t);
    return r;
}
FILE *tmpfile(void) { rec("temp", "tmpfile"); FILE *(*f)(void) = dlsym(RTLD_NEXT, "tmpfile"); return f(); }
FILE *fopen(const char *p, const char *m) {
    FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen");
    FILE *r = f(p, m);
    if (r && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) rec("write", p);
    return r;
}
FILE *fopen64(const char *p, const char *m) {
    FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen64");
    FILE *r = f(p, m);
    if (r && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) rec("write", p);
    return r;
}
