/* statements */
int printf(const char *fmt, ...);
static int counter = 0;
static int tick(int n) { return counter += n; }
static long fact(int n) { return n <= 1 ? 1 : n * fact(n - 1); }
int classify(int x) {
    switch (x) {
        case 0: return 1;
        case 1: case 2: x += 4;
        case 'a': { int y = x; x = y * 2; break; }
        default: x--;
    }
    return x;
}
int loops(int n) {
    int i, j, s = 0;
    for (i = 0; i < n; i++) { if (i % 3 == 0) continue; if (i > 50) break; s += i; }
    while (n-- > 0) { s ^= n << 2; if (s < 0) goto out; }
    do { s >>= 1; j = s; } while (s > 10 && j);
    for (;;) { if (tick(1) > 5 || s) break; }
out:
    return s ? s : -n, s + !n + ~n;
}
struct pt { int x, y; double w; };
struct pt mk(int a, int b) { struct pt p; p.x = a; p.y = b; p.w = a / 2.0; return p; }
double use(struct pt p, struct pt *q, float f) { *q = p; q->w *= f; return q->w + p.x; }
int main(int argc, char **argv) {
    struct pt a = mk(1, 2), b; int arr[10], *p = arr, i; unsigned char c = 200; signed char sc = -3; unsigned short us = 65535;
    long double ld = 1.25L; float f = 3; char buf[] = "hello";
    for (i = 0; i < 10; i++) arr[i] = i * i;
    p += 3; p[-1]++; *p++ = 7; --*p; c += 100; us <<= 3; sc /= 2; ld = ld * c - us; f = -f; i = argc ? c : us;
    i %= 7; i |= 1; i &= 0xff; i ^= ~0; i = i << 3 >> 1; i = !i && p || buf[2] == 'l';
    printf("%d %f %Lf %s %ld\n", i, use(a, &b, f), ld, buf, (long)(p - arr));
    return classify(argc) + loops(3) + (int) fact(5);
}
