/* Counters of the machine-state monitor, reported at exit on stderr. */
#include <stdio.h>
extern unsigned long mon_enters, mon_leaves, mon_calls, mon_returns;
__attribute__((destructor)) static void fini(void) {
    if (mon_enters) fprintf(stderr, "MON enters=%lu leaves=%lu calls=%lu returns=%lu\n", mon_enters, mon_leaves, mon_calls, mon_returns);
}
