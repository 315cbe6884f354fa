"""Pairs of programs that differ in one constraint or syntax violation, placed in arbitrary contexts (C18)."""

ENV = """struct S { int m; int bf : 3; struct S *next; } gs, *gsp;
struct S2 { int m; double d; } gs2;
union U { int m; double d; } gu;
struct I;
struct I *gip;
enum E { EA, EB = 7 };
typedef int TI;
int gi, gj, *gp, ga[4], *gpa[3];
unsigned gun;
long gl;
char gch, *gc;
double gd, *gdp;
float gfl;
long double gld;
void *gvp;
const int gci = 3;
const struct S gcs;
const int *gcp;
int * const gpc = 0;
int gf(int a, int b);
int gf0(void);
int gf1(int *p);
void gv(void);
void gv1(struct S s);
struct S gfs(void);
int (*gfp)(int, int);
int gva(int a, ...);
#define ID(x) x
#define ADD(a, b) ((a) + (b))
"""

# expressions: (rule, bad, good); the good ones are scalar
EXPRS = [r.split("|||") for r in """
undeclared|||undeclared_x|||gi
undeclared|||gi + undeclared_x|||gi + gj
undeclared|||gs.m + undeclared_x.m|||gs.m + gs2.m
args-many|||gf(1, 2, 3)|||gf(1, 2)
args-many|||gfp(1, 2, 3)|||gfp(1, 2)
args-many|||gf0(1)|||gf0()
args-few|||gf(1)|||gf(1, 2)
args-few|||gf()|||gf(1, 2)
args-few|||gfp(1)|||gfp(1, 2)
args-few|||gva()|||gva(1)
args-few|||gf1()|||gf1(gp)
arg-type|||gf(gs, 2)|||gf(gs.m, 2)
arg-type|||gf(1, gs)|||gf(1, gs.m)
arg-type|||gf1(gd)|||gf1(gp)
arg-type|||gf1(gs)|||gf1(&gs.m)
arg-type|||gf(1, gv())|||gf(1, gf0())
call-nonfunction|||gi(1)|||gf(1, 2)
call-nonfunction|||gp(1)|||gf1(gp)
call-nonfunction|||gs(1)|||gf0()
call-nonfunction|||gs.m()|||gf0()
void-value|||gv() + 1|||gf0() + 1
void-value|||gi = gv()|||gi = gf0()
void-value|||-gv()|||-gf0()
void-value|||!gv()|||!gf0()
void-value|||gv() && gi|||gf0() && gi
void-value|||gi || gv()|||gi || gf0()
void-value|||gv() ? 1 : 2|||gf0() ? 1 : 2
void-value|||(int) gv()|||(int) gf0()
void-value|||gv() == gi|||gf0() == gi
void-value|||ga[gv()]|||ga[gf0()]
deref|||*gi|||*gp
deref|||*gd|||*gdp
deref|||*gs|||*gsp->next->next->next == 0 ? 1 : 2|||x
deref|||gi[gj]|||gi[ga]
deref|||gd[1]|||gdp[1]
deref|||gp[gd]|||gp[(int) gd]
deref|||gp[gs]|||gp[gs.m]
deref|||gi = *gvp|||gi = *(int *) gvp
member|||gi.m|||gs.m
member|||gp->m|||gsp->m
member|||gi->m|||gsp->m
member|||gs->m|||gs.m
member|||gsp.m|||gsp->m
member|||gs.zz|||gs.m
member|||gsp->zz|||gsp->m
member|||gsp->next->zz|||gsp->next->m
member|||gs2.bf|||gs.bf
member|||gu.next|||gu.d
incomplete|||gip->m|||gsp->m
incomplete|||(*gip).m|||(*gsp).m
incomplete|||sizeof(struct I)|||sizeof(struct S)
incomplete|||sizeof(*gip)|||sizeof(*gsp)
incomplete|||gip + 1|||gsp + 1
incomplete|||gip - gip|||gsp - gsp
incomplete|||gip++|||gsp++
incomplete|||gip[0].m|||gsp[0].m
incomplete|||gip += 1|||gsp += 1
lvalue|||gi + 1 = 2|||gi = 2
lvalue|||3 = gi|||gi = 3
lvalue|||gf0() = 3|||gi = gf0()
lvalue|||(gi ? gj : gi) = 3|||*(gi ? &gj : &gi) = 3
lvalue|||-gi = 3|||gi = -3
lvalue|||(int) gi = 3|||gi = (int) 3
lvalue|||gi++ = 3|||gi = 3
lvalue|||&3|||&gi
lvalue|||&(gi + 1)|||&gi
lvalue|||&gf0()|||&gf0
lvalue|||&gi++|||&gi
lvalue|||&gs.bf|||&gs.m
lvalue|||&gsp->bf|||&gsp->m
lvalue|||(gi + 1)++|||gi++
lvalue|||++(gi + 1)|||++gi
lvalue|||3++|||gi++
lvalue|||--3|||--gi
lvalue|||gf0()--|||gi--
lvalue|||(gi + 1) += 2|||gi += 2
lvalue|||3 -= gi|||gi -= 3
lvalue|||gf0() *= 2|||gi *= 2
lvalue|||ga = gp|||gp = ga
lvalue|||ga++|||gp++
lvalue|||--ga|||--gp
lvalue|||ga += 1|||gp += 1
lvalue|||gf = 0|||gfp = 0
lvalue|||gf++|||gi++
lvalue|||EA = 3|||gi = EA
lvalue|||EB++|||gi++
lvalue|||&EA|||&gi
lvalue|||sizeof(gi) = 3|||gi = sizeof(gi)
lvalue|||"abc" = gc|||gc = "abc"
lvalue|||!gi = 3|||gi = !3
lvalue|||(gi && gj) = 1|||gi = gi && gj
lvalue|||(gi == gj) = 1|||gi = gi == gj
const|||gci = 3|||gi = 3
const|||gci++|||gi++
const|||--gci|||--gi
const|||gci += 2|||gi += 2
const|||gcs.m = 2|||gs.m = 2
const|||*gcp = 2|||*gp = 2
const|||gcp[1] = 2|||gp[1] = 2
const|||(*gcp)++|||(*gp)++
const|||gpc = 0|||gcp = 0
const|||gpc++|||gcp++
operands|||gs + 1|||gs.m + 1
operands|||1 + gs|||1 + gs.m
operands|||gs - 1|||gs.m - 1
operands|||gs * 2|||gs.m * 2
operands|||2 / gs|||2 / gs.m
operands|||gs % 2|||gs.m % 2
operands|||gs << 2|||gs.m << 2
operands|||2 >> gs|||2 >> gs.m
operands|||gs & 2|||gs.m & 2
operands|||gs ^ 2|||gs.m ^ 2
operands|||gs | 2|||gs.m | 2
operands|||gp * 2|||gi * 2
operands|||2 * gp|||2 * gi
operands|||gp / 2|||gi / 2
operands|||gi % gp|||gi % gj
operands|||gp + gp|||gp - gp
operands|||gp + gd|||gp + gi
operands|||gd + gp|||gi + gp
operands|||gp - gd|||gp - gi
operands|||gi - gp|||gp - gi
operands|||gp - gdp|||gp - ga
operands|||gd % 2|||gi % 2
operands|||2 % gfl|||2 % gi
operands|||gld % gld|||gi % gj
operands|||gd << 1|||gi << 1
operands|||1 >> gd|||1 >> gi
operands|||gd & 1|||gi & 1
operands|||1 | gd|||1 | gi
operands|||gfl ^ 1|||gi ^ 1
operands|||gp & 1|||gi & 1
operands|||gp | gp|||gi | gj
operands|||gi ^ gp|||gi ^ gj
operands|||gp << 1|||gi << 1
operands|||1 >> gp|||1 >> gi
operands|||~gd|||~gi
operands|||~gp|||~gi
operands|||~gs|||~gs.m
operands|||-gp|||-gi
operands|||+gp|||+gi
operands|||-gs|||-gs.m
operands|||!gs|||!gs.m
operands|||gs && 1|||gs.m && 1
operands|||gi && gs|||gi && gs.m
operands|||gs || 1|||gs.m || 1
operands|||gi || gs|||gi || gs.m
operands|||gs == gs|||gs.m == gs.m
operands|||gs != gs|||gs.m != gs.m
operands|||gs < gs|||gs.m < gs.m
operands|||gs == 0|||gsp == 0
operands|||gp == gd|||gp == 0
operands|||gp < gd|||gp < ga
operands|||gd >= gp|||gp >= ga
operands|||gs ? 1 : 2|||gi ? 1 : 2
operands|||gi ? gs.m : gs|||gi ? gs.m : gi
operands|||gi ? gp : gd|||gi ? gp : ga
operands|||gi ? gs : gs2|||gi ? gs.m : gs2.m
operands|||gi ? gv() : 1|||gi ? gf0() : 1
operands|||gs++|||gs.m++
operands|||--gs|||--gs.m
assign|||gs += 1|||gs.m += 1
assign|||gp *= 2|||gi *= 2
assign|||gp /= 2|||gi /= 2
assign|||gd %= 2|||gi %= 2
assign|||gd <<= 1|||gi <<= 1
assign|||gi >>= gd|||gi >>= gj
assign|||gp &= 1|||gi &= 1
assign|||gd |= 1|||gi |= 1
assign|||gd ^= 1|||gi ^= 1
assign|||gp += gp|||gp += gi
assign|||gp -= gd|||gp -= gi
assign|||gp += gd|||gp += gi
assign|||gi = gs|||gi = gs.m
assign|||gd = gs|||gd = gs.m
assign|||gs = 3|||gs.m = 3
assign|||gs = gs2|||gs.m = gs2.m
assign|||gp = gs|||gp = &gs.m
assign|||gp = gd|||gp = gdp ? ga : 0
assign|||gd = gp|||gd = *gp
assign|||gs = gsp|||gsp = &gs
assign|||gi = gfs()|||gi = gfs().m
cast|||(struct S) gi|||(int) gi
cast|||(int) gs|||(int) gs.m
cast|||(double) gp|||(double) *gp
cast|||(int *) gd|||(int *) gp
cast|||(int *) gs|||(int *) &gs
cast|||(float) gvp|||(float) gi
cast|||(struct S) gs2|||(double) gs2.d
sizeof|||sizeof gs.bf|||sizeof gs.m
sizeof|||sizeof(gsp->bf)|||sizeof(gsp->m)
syntax|||gi +|||gi
syntax|||gi + * |||gi + *gp
syntax|||(gi + 1|||(gi + 1)
syntax|||gi + 1)|||gi + 1
syntax|||gi ? 1|||gi ? 1 : 2
syntax|||gi ? : 2 : 3|||gi ? 2 : 3
syntax|||ga[1|||ga[1]
syntax|||ga 1]|||ga[1]
syntax|||gf(1, |||gf(1, 2)
syntax|||gf(1 2)|||gf(1, 2)
syntax|||gf(, 2)|||gf(1, 2)
syntax|||gi gj|||gi, gj
syntax|||gi 3|||gi * 3
syntax|||3 gi|||3 * gi
syntax|||gs.|||gs.m
syntax|||gs.3|||gs.m
syntax|||gsp->|||gsp->m
syntax|||gi = = 3|||gi == 3
syntax|||int|||gi
syntax|||(int)|||(int) gi
syntax|||sizeof|||sizeof gi
syntax|||sizeof(int|||sizeof(int)
syntax|||gi @ gj|||gi + gj
syntax|||()|||(gi)
syntax|||if|||gi
syntax|||,gi|||gi
syntax|||gi,|||gi
syntax|||/ gi|||gi
lexical|||''|||'a'
lexical|||'a|||'a'
lexical|||"abc|||"abc"
macro|||ADD(1)|||ADD(1, 2)
macro|||ADD(1, 2, 3)|||ADD(1, 2)
macro|||ADD(1, 2|||ADD(1, 2)
macro|||ADD()|||ADD(1, 2)
""".strip().split("\n") if "|||x" not in r]

STMTS = [r.split("|||") for r in """
break|||break;|||while (gi) break;
continue|||continue;|||while (gi) continue;
continue-switch|||switch (gi) { case 1: continue; }|||for (;;) switch (gi) { case 1: continue; }
case|||case 3: gi = 1;|||switch (gi) { case 3: gi = 1; }
default|||default: gi = 1;|||switch (gi) { default: gi = 1; }
dup-case|||switch (gi) { case 3: gi = 1; break; case 3: gi = 2; }|||switch (gi) { case 3: gi = 1; break; case 4: gi = 2; }
dup-case|||switch (gi) { case EB: gi = 1; break; case 7: gi = 2; }|||switch (gi) { case EB: gi = 1; break; case 6: gi = 2; }
dup-case|||switch (gi) { case 'a': gi = 1; { case 97: gi = 2; } }|||switch (gi) { case 'a': gi = 1; { case 98: gi = 2; } }
dup-case|||switch (gi) { case 1: case 2: case 3: case 2: case 4: ; }|||switch (gi) { case 1: case 2: case 3: switch (gj) { case 2: ; } case 4: ; }
dup-default|||switch (gi) { default: gi = 1; break; default: gi = 2; }|||switch (gi) { default: gi = 1; switch (gj) { default: ; } }
case-nonconst|||switch (gi) { case gj: gi = 1; }|||switch (gi) { case EB: gi = 1; }
case-nonint|||switch (gi) { case 1.5: gi = 1; }|||switch (gi) { case 1: gi = 1; }
dup-label|||zz: gi = 1; goto zz; zz: gi = 2;|||zz: gi = 1; goto zz; zy: gi = 2;
unknown-label|||goto zz;|||goto zz; zz: ;
switch-type|||switch (gd) { case 1: ; }|||switch ((int) gd) { case 1: ; }
switch-type|||switch (gp) { case 1: ; }|||switch (*gp) { case 1: ; }
switch-type|||switch (gs) { case 1: ; }|||switch (gs.m) { case 1: ; }
cond-type|||if (gs) gi = 1;|||if (gs.m) gi = 1;
cond-type|||while (gs) gi = 1;|||while (gs.m) gi = 1;
cond-type|||do gi = 1; while (gs);|||do gi = 1; while (gs.m);
cond-type|||for (; gs; ) gi = 1;|||for (; gs.m; ) gi = 1;
cond-type|||if (gv()) gi = 1;|||if (gf0()) gi = 1;
cond-type|||while (gv()) gi = 1;|||while (gf0()) gi = 1;
return-type|||return gs;|||return gs.m;
return-type|||return gv();|||return gf0();
syntax|||gi = 1|||gi = 1;
syntax|||if gi) gj = 1;|||if (gi) gj = 1;
syntax|||if (gi gj = 1;|||if (gi) gj = 1;
syntax|||if () gj = 1;|||if (gi) gj = 1;
syntax|||else gi = 1;|||if (gi) gj = 1; else gi = 1;
syntax|||if (gi) gj = 1; gi = 2; else gj = 3;|||if (gi) { gj = 1; gi = 2; } else gj = 3;
syntax|||while () gi = 1;|||while (gi) gi = 1;
syntax|||while (gi gj = 1;|||while (gi) gj = 1;
syntax|||for (;) gi = 1;|||for (;;) gi = 1;
syntax|||for (;;; ) gi = 1;|||for (;;) gi = 1;
syntax|||for gi = 1;|||for (;;) gi = 1;
syntax|||do gi = 1;|||do gi = 1; while (gi);
syntax|||do gi = 1; while (gi)|||do gi = 1; while (gi);
syntax|||do gi = 1; while gi;|||do gi = 1; while (gi);
syntax|||switch gi { case 1: ; }|||switch (gi) { case 1: ; }
syntax|||switch (gi) { case : ; }|||switch (gi) { case 1: ; }
syntax|||switch (gi) { case 1 ; }|||switch (gi) { case 1: ; }
syntax|||goto ;|||goto zz; zz: ;
syntax|||goto 3;|||goto zz; zz: ;
syntax|||return return 1;|||return 1;
syntax|||return return;|||return 1;
syntax|||break gi;|||while (gi) break;
syntax|||gi : = 3;|||gi = 3;
syntax|||{ gi = 1; ) }|||{ gi = 1; }
syntax|||int 3;|||{ int l3; }
syntax|||int l1 l2;|||{ int l1, l2; }
syntax|||int l1 = ;|||{ int l1 = 1; }
syntax|||int l1[;|||{ int l1[1]; }
syntax|||int *;|||{ int *l1; }
syntax|||] gi;|||gi;
syntax|||gi ];|||gi;
cpp|||#if 1|||#if 1
cpp|||#else|||;
cpp|||#endif|||;
cpp|||#elif 1|||;
cpp|||#foo|||;
cpp|||#error no|||;
cpp|||#include "missing-file.h"|||;
cpp|||#include missing|||;
cpp|||#define F(a, a) a|||#define F(a, b) a
cpp|||#define F(a|||#define F(a) a
cpp|||#define F(1) a|||#define F(b) a
cpp|||#define F ## a|||#define F a
cpp|||#define F a ##|||#define F a
cpp|||#define 3 a|||#define F a
cpp|||#define|||#define F
cpp|||#undef 3|||#undef F
cpp|||#ifdef 3|||#ifdef F
cpp|||#if|||#if 0
cpp|||#if 1 +|||#if 1 + 1
cpp|||#if (1|||#if (1)
cpp|||#if 1 2|||#if 1
cpp|||#if 1 / 0|||#if 1 / 1
cpp|||#if 1.5|||#if 1
cpp|||#if "a"|||#if 1
cpp|||#line abc|||#line 2000
cpp|||#else|||;
cpp|||/* unterminated|||/* terminated */
""".strip().split("\n")]

DECLS = [r.split("|||") for r in """
redeclared|||int q1; double q1;|||int q1; double q2;
redeclared|||int q1; int *q1;|||int q1; int *q2;
redeclared|||typedef int Q1; int Q1;|||typedef int Q1; Q1 q1;
redeclared|||int q1; typedef int q1;|||int q1; typedef int q2;
redeclared|||enum { Q1 }; int Q1;|||enum { Q1 }; int q1;
redeclared|||int q1; enum { q1 };|||int q1; enum { q2 };
redeclared|||enum { Q1, Q2, Q1 };|||enum { Q1, Q2, Q3 };
redeclared|||struct Q { int a; }; struct Q { int a; };|||struct Q { int a; }; struct Q3 { int a; };
redeclared|||struct Q { int a; }; union Q { int a; };|||struct Q { int a; }; union Q3 { int a; };
redeclared|||struct Q { int a; }; enum Q { Q1 };|||struct Q { int a; }; enum Q3 { Q1 };
redeclared|||extern int q1[3]; extern int q1[4];|||extern int q1[3]; extern int q1[];
redeclared|||int qf(int); int qf(double);|||int qf(int); int qf(int);
redeclared|||int qf(int); double qf(int);|||int qf(int); int qf(int a);
redeclared|||int qf(int); int qf(int, int);|||int qf(int); int qf();
redeclared|||int qf(int); extern int qf;|||int qf(int); extern int q1;
redeclared|||extern int q1; int q1(void);|||extern int q1; int qf(void);
wrong-tag|||struct Q { int a; }; extern union Q *q1;|||struct Q { int a; }; extern struct Q *q1;
wrong-tag|||enum Q { Q1 }; extern struct Q *q1;|||enum Q { Q1 }; enum Q q1;
wrong-tag|||union Q { int a; }; extern enum Q q1;|||union Q { int a; }; extern union Q q1;
dup-member|||struct Q { int a; double a; };|||struct Q { int a; double b; };
dup-member|||union Q { int a; int b, a; };|||union Q { int a; int b, c; };
specifiers|||int double q1;|||double q1;
specifiers|||char short q1;|||char q1;
specifiers|||struct S int q1;|||struct S q1;
specifiers|||signed unsigned q1;|||unsigned q1;
specifiers|||unsigned double q1;|||double q1;
specifiers|||signed float q1;|||float q1;
specifiers|||unsigned struct S q1;|||struct S q1;
specifiers|||long float q1;|||float q1;
specifiers|||short double q1;|||double q1;
specifiers|||long char q1;|||char q1;
specifiers|||short long q1;|||long q1;
specifiers|||void int q1;|||int q1;
specifiers|||long long long q1;|||long int q1;
specifiers|||static extern int q1;|||extern int q1;
specifiers|||typedef static int q1;|||typedef int q1;
specifiers|||unsigned void *q1;|||void *q1;
void-object|||void q1[3];|||void *q1[3];
void-object|||struct Q { void a; };|||struct Q { void *a; };
array-type|||int q1[3](void);|||int (*q1[3])(void);
array-type|||int q1(void)[3];|||int (*q1(void))[3];
array-type|||int q1(void)(void);|||int (*q1(void))(void);
array-type|||struct I q1[3];|||struct I *q1[3];
array-size|||int q1[-1];|||int q1[1];
array-size|||int q1[1.5];|||int q1[1];
array-size|||int q1["a"];|||int q1[1];
array-size|||int q1[&gi];|||int q1[1];
incomplete|||struct Q { struct Q a; };|||struct Q { struct Q *a; };
incomplete|||struct Q { struct I a; };|||struct Q { struct I *a; };
incomplete|||struct Q { int a; struct Q b[2]; };|||struct Q { int a; struct Q *b[2]; };
member-type|||struct Q { int f(void); };|||struct Q { int (*f)(void); };
bit-field|||struct Q { int a : 33; };|||struct Q { int a : 31; };
bit-field|||struct Q { int a : -1; };|||struct Q { int a : 1; };
bit-field|||struct Q { int a : 0; };|||struct Q { int a : 1; int : 0; };
bit-field|||struct Q { double a : 3; };|||struct Q { int a : 3; };
bit-field|||struct Q { int *a : 3; };|||struct Q { int a : 3; };
bit-field|||struct Q { struct S a : 3; };|||struct Q { int a : 3; };
bit-field|||struct Q { int a : gi; };|||struct Q { int a : EB; };
init|||int q1 = gs;|||int q1 = 1;
init|||char *q1 = 3.5;|||char *q1 = "a";
init|||struct S q1 = 3;|||struct S q1 = { 3 };
init|||int q1[3] = 3;|||int q1[3] = { 3 };
init|||struct I q1 = { 3 };|||struct S q1 = { 3 };
init|||typedef int Q1 = 3;|||int Q1 = 3;
static-init|||static int q1 = gi;|||static int q1 = 1;
static-init|||static int q1 = gf0();|||static int (*q1)(void) = gf0;
static-init|||static int *q1 = gp;|||static int *q1 = &gi;
static-init|||static int q1[2] = { 1, gi };|||static int q1[2] = { 1, EB };
static-init|||static double q1 = gd;|||static double q1 = 1.5;
enum|||enum Q { };|||enum Q { Q1 };
enum|||enum Q { Q1 = gi };|||enum Q { Q1 = EB };
enum|||enum Q { Q1 = 1.5 };|||enum Q { Q1 = 1 };
enum|||enum Q { Q1 Q2 };|||enum Q { Q1, Q2 };
enum|||enum Q { 3 };|||enum Q { Q3 };
params|||int qf(void, int);|||int qf(int, int);
params|||int qf(int, void);|||int qf(int, int);
params|||int qf(static int a);|||int qf(register int a);
params|||int qf(extern int a);|||int qf(int a);
params|||int qf(typedef int a);|||int qf(int a);
params|||int qf(int, ..., int);|||int qf(int, ...);
params|||int qf(int,);|||int qf(int, ...);
params|||int qf(, int);|||int qf(int);
params|||int qf(3);|||int qf(int);
syntax|||int q1|||int q1;
syntax|||int q1,;|||int q1;
syntax|||int q1 q2;|||int q1, q2;
syntax|||int (q1;|||int (q1);
syntax|||int q1);|||int q1;
syntax|||int q1[3;|||int q1[3];
syntax|||int q1];|||int q1;
syntax|||struct Q { int a };|||struct Q { int a; };
syntax|||struct Q { int a;|||struct Q { int a; };
syntax|||struct { int a; } q1 = { 1;|||struct { int a; } q1 = { 1 };
syntax|||struct ;|||struct Q;
syntax|||union 3;|||union Q;
syntax|||struct Q int a; };|||struct Q { int a; };
syntax|||int q1 = 3 4;|||int q1 = 3;
syntax|||int q1 = , q2;|||int q1, q2;
syntax|||int = 3;|||int q1 = 3;
syntax|||int *const q1 = ;|||int *const q1 = 0;
undeclared|||unknown_t q1;|||TI q1;
undeclared|||unknown_t *q1;|||TI *q1;
undeclared|||int q1[unknown_c];|||int q1[EB];
undeclared|||extern int q1[sizeof(unknown_t)];|||extern int q1[sizeof(TI)];
undeclared|||static int *q1 = &unknown_v;|||static int *q1 = &gi;
undeclared|||enum { Q1 = unknown_c };|||enum { Q1 = EB };
""".strip().split("\n")]

# only at file scope
FILE = [r.split("|||") for r in """
auto|||auto int q1;|||static int q1;
register|||register int q1;|||static int q1;
redefined|||int q1 = 1; int q1 = 2;|||int q1 = 1; int q1;
redefined|||int qf(void) { return 1; } int qf(void) { return 2; }|||int qf(void) { return 1; } int qf(void);
redefined|||int qf(int a) { return 1; } int qf(void);|||int qf(int a) { return 1; } int qf();
redefined|||double qf(void); int qf(void) { return 2; }|||int qf(void); int qf(void) { return 2; }
redefined|||int qf(void) { return 2; } int qf;|||int qf(void) { return 2; } int q1;
redefined|||int gf(int a) { return 2; }|||int gf(int a, int b) { return 2; }
linkage|||int q1; static int q1;|||static int q1; static int q1;
linkage|||int qf(void); static int qf(void) { return 1; }|||static int qf(void); static int qf(void) { return 1; }
definition|||int qf(int a, int a) { return 1; }|||int qf(int a, int b) { return 1; }
definition|||int qf(int a, double b, int *a) { return 1; }|||int qf(int a, double b, int *c) { return 1; }
definition|||int qf(int) { return 1; }|||int qf(int a) { return 1; }
definition|||int qf(int a, double) { return 1; }|||int qf(int a, double b) { return 1; }
definition|||int qf(struct I a) { return 1; }|||int qf(struct I *a) { return 1; }
definition|||struct I qf(void) { }|||struct S qf(void) { return gs; }
definition|||int qf(void) { return 1; |||int qf(void) { return 1; }
definition|||int qf(void) { return 1; } }|||int qf(void) { return 1; }
definition|||int qf(void) return 1;|||int qf(void) { return 1; }
definition|||int qf(a) int b; { return 1; }|||int qf(a) int a; { return 1; }
definition|||int qf(int a) { int a; return 1; }|||int qf(int a) { { int a; } return 1; }
definition|||int qf(int a) { double a; return 1; }|||int qf(int a) { double b; return 1; }
definition|||void qf(void) { return 1; }|||void qf(void) { return; }
definition|||void qf(void) { return gi; }|||int qf(void) { return gi; }
definition|||struct S qf(void) { return gs2; }|||struct S qf(void) { return gs; }
definition|||int *qf(void) { return gd; }|||int *qf(void) { return gp; }
definition|||double qf(void) { return gp; }|||double qf(void) { return gd; }
statement|||if (gi) gj = 1;|||int q1;
statement|||return 1;|||int q1;
statement|||{ int q1; }|||int q1;
statement|||3;|||int q1;
statement|||} int q1;|||int q1;
statement|||) int q1;|||int q1;
statement|||for (;;) ;|||int q1;
statement|||+ q1;|||int q1;
static-init|||int q1 = gi;|||int q1 = 1;
static-init|||int q1[2] = { 1, gf0() };|||int q1[2] = { 1, 2 };
static-init|||struct S2 q1 = { gi };|||struct S2 q1 = { 1 };
""".strip().split("\n")]

CONTEXTS = ["%s;", "(void) (%s);", "if (%s) gi = 1;", "if (gi) gj = 2; else if (%s) gi = 1;", "while (%s) break;", "for (%s; ; ) break;", "for (; %s; ) break;", "for (; ; %s) break;",
            "do gi = 1; while (%s);", "gi = (%s, 1);", "gi = !(%s);", "gi = (%s) && gj;", "gi = gj || (%s);", "gi = (%s) ? 1 : 2;", "gi = gj ? ((%s), 1) : 2;",
            "gi = gj ? 2 : ((%s), 1);", "gi = gf((%s, 1), 2);", "gi = gf(1, (%s, 2));", "gl = sizeof(%s);", "return ((%s), 0);", "ga[((%s), 1)] = 0;", "switch (((%s), 1)) { default: ; }",
            "{ int l1 = ((%s), 1); }", "gi = 1, (%s);", "ID(%s);", "gi = (ID((%s)), 1) + 1;", "zl: %s;", "((((%s))));", "gi += ((%s), 1) * 2;"]


FILL = ["gi = gj + 1;", "gs.m = gi;", "if (gi) gj = 2; else gj = 3;", "{ int l5 = 3; gi = l5; }", "for (gi = 0; gi < 3; gi++) ga[gi] = 1;", "gd = gi * 1.5;", "gp = &gi;", "gsp = &gs; gsp->m = 4;",
        "while (gi) gi--;", "switch (gi) { case 1: gj = 1; break; default: gj = 2; }", "gc = \"text\";", "gi = gf(1, gj);", "do gi++; while (gi < 3);", "gs = gfs();", ";", "gi = sizeof(struct S);"]


class Pair:
    """bad and good: {file: text}; the violation begins in line lo of the file `where` and must be reported in it, no later than line hi"""


def build(r, kind=None, index=None):
    kind = kind or r.choice(["expr", "expr", "stmt", "decl", "file"])
    table = {"expr": EXPRS, "stmt": STMTS, "decl": DECLS, "file": FILE}[kind]
    rule, bad, good = table[index % len(table)] if index is not None else r.choice(table)
    loop_ok = rule not in ("break", "continue", "continue-switch", "case", "default")
    tail = ""
    dep = kind == "stmt" and rule == "cpp"
    where = "t.c"
    level = "file" if kind == "file" else "block" if kind in ("expr", "stmt") else r.choice(["file", "block"])
    ctx = "%s"
    if kind == "expr":
        single = rule in ("lexical",) or any(bad.count(a) != bad.count(b) for a, b in ("()", "[]"))
        ctx = r.choice(CONTEXTS)
        if "ID(" in ctx and (rule in ("macro", "lexical") or single or "," in good or "," in bad):
            ctx = "%s;"
        if "sizeof" in ctx and "bf" in good:
            ctx = "%s;"
        if rule == "syntax":
            ctx = r.choice(["%s;", "gi = (%s, 1);", "if (%s) gi = 1;", "gi = !(%s);", "while ((%s)) break;"]) if not bad.startswith(("gi = ", "int")) else "(%s);"
            if "(" in bad and single:
                ctx = "%s;"
        if rule == "lexical":
            ctx = r.choice(["%s;", "(void) (%s);"])
    elif kind == "decl" and level == "block" and r.random() < 0.3:
        ctx = "{ %s }" if bad.endswith(";") and good.endswith(";") else "%s"
    lines = ctx % bad, ctx % good

    def fill(n):
        return [r.choice(FILL) for _ in range(n)]

    # the text around
    pre, post = [], []
    if level == "block":
        nest = r.choice([0, 0, 1, 2, 3])
        opens = []
        for _ in range(nest):
            o = r.choice(["{", "if (gi) {", "if (gi) { gj = 1; } else {"] + (["while (gi) {", "for (;;) {", "do {", "switch (gi) { case 1:"] if loop_ok else []))
            if "switch" in o and kind == "decl":
                o = "{"
            opens.append(o)
        if kind == "stmt" and ctx == "%s" and rule not in ("cpp",) and not rule.startswith(("dup-l", "unk")) and loop_ok and r.random() < 0.15 and good.count(";") == 1 and "{" not in good and "do" not in good and bad.count(";") == 1:
            opens.append(r.choice(["if (gi)", "if (gi) ; else", "for (;;)", "while (gi)"]))
        pre = ["%sint fn(int p1, int *p2) {" % r.choice(["", "static "])] + (fill(r.choice([0, 1, 3])) if kind != "decl" else [])
        for o in opens:
            pre += [o] + (fill(r.choice([0, 1])) if o.endswith(("{", ":")) and kind != "decl" else [])
        if kind != "decl" and r.random() < 0.12:
            if not opens or opens[-1].endswith(("{", ":")):
                pre.append("return 1;")
        for o in reversed(opens):
            if o.endswith(("{", ":")):
                post += (["gi = 5;"] if o.endswith(":") else []) + fill(r.choice([0, 1])) + ["} while (gi);" if o == "do {" else "}"]
        post += fill(r.choice([0, 1, 2])) + ["return 0;", "}"]
    if dep and good.startswith("#if"):
        if bad == "#if 1":
            post += []
            lines = ("#if 1", "#if 1\n#endif")
        else:
            lines = (bad + "\n#endif", good + "\n#endif")
    if bad == "#else":
        lines = ("#if 1\n#else\n#else\n#endif", "#if 1\n#else\n#endif") if r.random() < 0.5 else lines
    if bad.startswith("#define gu1"):
        lines = ("#define gu1 1\n#define gu1 2", "#define gu1 1\n#define gu1 1")

    def funcs(n, tag):
        return ["%sint %s%d(int p1) { %s return p1; }" % (r.choice(["", "static "]), tag, i, " ".join(fill(r.choice([1, 3])))) for i in range(n)]
    before, after = funcs(r.choice([0, 1, 3]), "fb"), funcs(r.choice([0, 1, 2]), "fa") + ["int last_one;"]
    blank = [""] * r.choice([0, 0, 1, 3])
    env = ENV.rstrip("\n").split("\n")
    top = before + blank + pre
    at = r.random()
    p = Pair()
    p.kind, p.rule, p.text, p.good_text, p.level = kind, rule, bad, good, level
    shift = 0
    if at < 0.15 and bad not in ("#if 1",) and "unterminated" not in bad:
        # in an included file
        where = "inc.h"
        inc = blank + top
        head = env + ['#include "inc.h"'] + after
        def mk(x):
            return {"t.c": "\n".join(head) + "\n", "inc.h": "\n".join(inc + [x] + post) + "\n"}
        lo = len(inc) + 1
    else:
        if at < 0.25:
            # a different name and number for what follows
            where = "other.y"
            n = r.choice([1, 77, 5000])
            top = ['#line %d "other.y"' % n] + top
            shift = n - len(env) - 2
        def mk(x):
            return {"t.c": "\n".join(env + top + [x] + post + after) + "\n"}
        lo = len(env + top) + 1 + shift
    p.bad, p.good, p.where, p.lo = mk(lines[0]), mk(lines[1]), where, lo
    nl = lines[0].count("\n")
    # reported at the latest when the token after the violation has been read, or, if what's missing is a closing bracket or a label, by the end
    p.hi = lo + nl + 1
    late = rule == "unknown-label" or any(bad.count(a) != bad.count(b) for a, b in ("()", "[]", "{}")) or bad in ("#if 1",) or "unterminated" in bad or rule == "lexical" or bad.endswith(" ")
    p.hi_any = late
    p.also = "t.c" if where == "inc.h" and (late or not post) else None  # where what follows is
    return p
