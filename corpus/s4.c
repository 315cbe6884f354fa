/* varargs, bit-fields, function pointers, floats */
#include <stdarg.h>
struct bits { unsigned a : 3; int b : 5; unsigned c : 17; char d; unsigned e : 30; };
union both { int i; float f; struct { short lo, hi; } h; };
struct big { long a[5]; };
int sum(int n, ...) {
    va_list ap; int t = 0; va_start(ap, n);
    while (n--) { t += va_arg(ap, int); t += (int) va_arg(ap, double); }
    va_end(ap); return t;
}
struct big mkbig(long x) { struct big b = { { x, x + 1 } }; b.a[4] = x; return b; }
static int cmp(const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
int run(int (*f)(const void *, const void *), int *x) { return f(x, x + 1) ? (*f)(x + 1, x) : 0; }
double mix(double a, float b, long double c, int i, unsigned long u) { return a * b + c - i / (double) u + (u > 5 ? 1.0f : c); }
unsigned bf(struct bits *p) { p->a++; p->b = -3; p->c |= 0x1ff; p->e = p->c * 1000ul; return p->a + p->b + p->c + (unsigned) p->e; }
long conv(void) {
    union both u; char c = 'x'; short s = (short) 70000; unsigned ui = -1; float f = 16777217; long l = (long) f; int *ip = &u.i; void *v = ip;
    u.f = 1.5f; *(int *) v = 3; l += (unsigned char) ui + (long) (signed char) c - s; l = ui > l ? l : -l; if (f) l++; if (!f) l--;
    return l + sizeof(int[4]) + sizeof u.h + u.h.lo;
}
int main(void) { struct bits b; struct big g = mkbig(7); int v[2] = { 2, 1 }; b.a = 7; b.c = 0; return sum(2, 1, 2.5, 3, 4.5) + run(cmp, v) + (int) g.a[1] + (int) mix(1, 2, 3, 4, 5) + bf(&b) + (int) conv(); }
