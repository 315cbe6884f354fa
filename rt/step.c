/* Single-steps the program in itself and records the addresses of the instructions between u_begin and u_end that do something other
   than jump unconditionally; they're written to the file steps at the end. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>

extern unsigned char u_begin[], u_end[];
enum { MAX = 4 << 20 };
static unsigned buf[MAX];
static long n;

static void trap(int sig, siginfo_t *si, void *ctx) {
    unsigned char *ip = (unsigned char *) ((ucontext_t *) ctx)->uc_mcontext.gregs[REG_RIP];
    if (ip >= u_begin && ip < u_end && *ip != 0xe9 && *ip != 0xeb && *ip != 0x90 && n < MAX)
        buf[n++] = (unsigned) (unsigned long) ip;
}

__attribute__((constructor(65000))) static void start(void) {
    static struct sigaction sa;
    sa.sa_sigaction = trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, 0);
    __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
}

__attribute__((destructor(65000))) static void stop(void) {
    __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
    int fd = open("steps", O_WRONLY | O_CREAT | O_TRUNC, 0666);
    char *p = (char *) buf, *e = (char *) (buf + n);
    while (p < e) {
        long k = write(fd, p, e - p);
        if (k <= 0) _exit(99);
        p += k;
    }
    close(fd);
}
