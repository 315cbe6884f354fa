/* Event recorder linked into every monitored program. Records are 32 bytes:
   int site; int kind; 24 bytes of payload. */
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>

typedef struct { int site; int kind; unsigned char data[24]; } Rec;
#define MAXREC 4096
#define LIMIT 400000
static Rec buf[MAXREC];
static int n;
static long total;

static void flush(void) {
    char *p = (char *) buf;
    long left = (long) n * sizeof(Rec);
    while (left > 0) {
        long w = write(1, p, left);
        if (w <= 0) break;
        p += w; left -= w;
    }
    n = 0;
}

static Rec *add(int site, int kind) {
    if (n == MAXREC) flush();
    if (++total > LIMIT) { flush(); _exit(97); }
    Rec *r = &buf[n++];
    memset(r, 0, sizeof *r);
    r->site = site; r->kind = kind;
    return r;
}

static void on_signal(int sig) {
    flush();
    signal(sig, SIG_DFL);
    raise(sig);
}

static char altstack[65536];

__attribute__((constructor)) static void init(void) {
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, 0);
    for (int i = 0; i < 5; i++) {
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(sigs[i], &sa, 0);
    }
}
__attribute__((destructor)) static void fini(void) { flush(); }

void ev_i(int site, long v) { memcpy(add(site, 1)->data, &v, 8); }
void ev_u(int site, unsigned long v) { memcpy(add(site, 2)->data, &v, 8); }
void ev_f(int site, float v) {
    Rec *r = add(site, 3);
    if (v != v) memcpy(r->data, "NaN", 3); else memcpy(r->data, &v, 4);
}
void ev_d(int site, double v) {
    Rec *r = add(site, 4);
    if (v != v) memcpy(r->data, "NaN", 3); else memcpy(r->data, &v, 8);
}
void ev_ld(int site, long double v) {
    Rec *r = add(site, 5);
    if (v != v) memcpy(r->data, "NaN", 3); else memcpy(r->data, &v, 10);
}
void ev_m(int site, void *p, unsigned long len) {
    unsigned char *c = p;
    unsigned long h = 1469598103934665603UL;
    for (unsigned long i = 0; i < len; i++) { h ^= c[i]; h *= 1099511628211UL; }
    Rec *r = add(site, 6);
    memcpy(r->data, &len, 8);
    memcpy(r->data + 8, &h, 8);
    memcpy(r->data + 16, p, len < 8 ? len : 8);
}
void ev_s(int site, char *s) { ev_m(site, s, strlen(s) + 1); }
void ev_b(int site) { add(site, 7); }
int tick(int site, int v) { long l = v; memcpy(add(site, 8)->data, &l, 8); return v; }
/* a violation of the machine-state contract (rt/state.S) */
void mon_state(int code, long got, long want) {
    Rec *r = add(code, 9);
    memcpy(r->data, &got, 8); memcpy(r->data + 8, &want, 8);
}
