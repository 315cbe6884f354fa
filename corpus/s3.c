/* preprocessor */
#define EMPTY
#define ONE 1
#define CAT(a, b) a ## b
#define XCAT(a, b) CAT(a, b)
#define STR(x) #x
#define XSTR(x) STR(x)
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define F(x) G(x) + 1
#define G(x) F(x) * 2
#define MULTI(a, b) do { a = b; \
    b = a + ONE; } while (0)
#define APPLY(f, x) f(x)
#if defined ONE && ONE == 1 || !defined(TWO)
#define SELECTED 1
#elif ONE > 3
#define SELECTED 2
#else
#error "no"
#endif
#ifdef UNKNOWN
#include "does-not-exist.h"
#endif
#ifndef ONE
# error bad
#endif
#undef EMPTY
#line 100 "renamed.c"
int XCAT(va, r) = MAX(SELECTED, 3 /* comment */ - 1); // line comment
char *s = XSTR(CAT(x, y)) STR("quo\"ted\n" 'c') __FILE__;
int line = __LINE__;
#if 1 + 2 * 3 == 7 && (0x10 >> 2) == 4 && 'a' < 'b' && -1 < 0 && ~0 == -1 && (1 ? 2 : 3) == 2
int ok;
#endif
#pragma once
int h(int a, int b) { MULTI(a, b); return APPLY(ONE +, (a)); }
??=define TRI 1
