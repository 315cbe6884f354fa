void ev_i(int site, long v);
void ev_u(int site, unsigned long v);
void ev_f(int site, float v);
void ev_d(int site, double v);
void ev_ld(int site, long double v);
void ev_s(int site, char *s);
void ev_m(int site, void *p, unsigned long n);
void ev_b(int site);
int  tick(int site, int v);
