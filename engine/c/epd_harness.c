/* C34: extended-precision doubles: an operation on normalised operands gives the exact result (operands with few significant
   bits, so that the result is representable), normalised; infinities and NaN follow IEEE 754. OP: the operation. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include "epd.c"
#define NDMAX 100
unsigned ndv[NDMAX]; int ndn = 0;
#ifdef VSYM
unsigned nondet_unsigned(void);
static unsigned nd(unsigned bound) { unsigned v = nondet_unsigned(); __CPROVER_assume(v < bound); ndv[ndn] = v; ndn = ndn + 1; return v; }
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#define ASSUME(c) __CPROVER_assume(c)
#else
static unsigned nd(unsigned bound) { unsigned v = ndn < NDMAX ? ndv[ndn++] : 0; return v < bound ? v : bound - 1; }
#define CHECK(c, msg) do { if (!(c)) { printf("REPRODUCED %s\n", msg); exit(1); } } while (0)
#define ASSUME(c) do { if (!(c)) { printf("NOT-REPRODUCED assumption fails\n"); exit(2); } } while (0)
#endif
typedef union { double d; uint64_t u; } Du;
static double mk(unsigned s, uint64_t mant, unsigned e) { Du x; x.u = (uint64_t)s << 63 | (uint64_t)e << 52 | mant; return x.d; }
static uint64_t bitsOf(double d) { Du x; x.d = d; return x.u; }
#ifdef VSYM
double pow(double b, double n) { CHECK(b == 2.0, "powers of two"); int i = (int)n; CHECK((double)i == n && i >= -1022 && i <= 1023, "the power of two is a double"); return mk(0, 0, (unsigned)(i + 1023)); }
#endif
void *MMalloc(size_t n) { return malloc(n); }
#ifndef MB
#define MB 5
#endif
typedef struct { unsigned s; uint64_t m; int e; } Num; /* (-1)^s * m * 2^e, m > 0 */
static Num any(EpDouble *x) { Num r; unsigned f = nd(1u << MB); r.s = nd(2); r.e = (int)nd(6001) - 3000; x->type.value = mk(r.s, (uint64_t)f << (52 - MB), 1023); x->exponent = r.e; r.m = (1u << MB) + f; r.e -= MB; return r; }
/* a double with value (-1)^s * m * 2^e */
static Num anyDouble(double *x) { Num r; unsigned f = nd(1u << MB); int e = (int)nd(2000) - 1000; r.s = nd(2); *x = mk(r.s, (uint64_t)f << (52 - MB), (unsigned)(e + 1023)); r.m = (1u << MB) + f; r.e = e - MB; return r; }
static void is(EpDouble const *x, Num r) { uint64_t m = r.m; int e = r.e + 52;
    CHECK(m != 0 && m >> 53 == 0, "harness");
#define NORM(k) if (m >> (53 - k) == 0) { m <<= k; e -= k; }
    NORM(32) NORM(16) NORM(8) NORM(4) NORM(2) NORM(1)
    CHECK(bitsOf(x->type.value) == ((uint64_t)r.s << 63 | (uint64_t)1023 << 52 | (m & (((uint64_t)1 << 52) - 1))), "the mantissa of the result is exact and normalised"); CHECK(x->exponent == e, "the exponent of the result is right"); }
static Num sum(Num a, Num b, int d0, int d1) { Num r; int d = a.e - b.e; ASSUME(d >= -d1 && d <= d1 && (d >= d0 || d <= -d0)); int64_t x, y; if (d >= 0) { x = (int64_t)(a.m << d); y = (int64_t)b.m; r.e = b.e; } else { x = (int64_t)a.m; y = (int64_t)(b.m << -d); r.e = a.e; } if (a.s) { x = -x; } if (b.s) { y = -y; } x += y; ASSUME(x != 0); r.s = x < 0; r.m = (uint64_t)(x < 0 ? -x : x); return r; }
static void special(EpDouble *x, int k, unsigned s) { if (k == 0) EpdMakeInf(x, (int)s); else if (k == 1) EpdMakeNan(x); else { unsigned f = nd(1u << MB); x->type.value = mk(s, (uint64_t)f << (52 - MB), 1023); x->exponent = (int)nd(6001) - 3000; } }
static void isInf(EpDouble const *x, unsigned s) { CHECK(EpdIsInf(x) && !EpdIsNan(x) && EpdIsNanOrInf(x) && !EpdIsZero(x) && bitsOf(x->type.value) == ((uint64_t)s << 63 | (uint64_t)0x7ff << 52), "the result is infinite with the right sign"); }
static void isNan(EpDouble const *x) { CHECK(EpdIsNan(x) && !EpdIsInf(x) && EpdIsNanOrInf(x), "the result is not a number"); }
int main(int argc, char **argv) { EpDouble a, b, c; Num x, y, r; double v; int form = 0; (void)x; (void)y; (void)r; (void)v; (void)form; (void)c; (void)b; (void)a;
#ifndef VSYM
    if (argc > 1) { FILE *f = fopen(argv[1], "r"); int k = 0; char line[4000]; if (!f) return 3; while (fgets(line, sizeof line, f)) { char *s; if (line[0] == '#') continue; for (s = strtok(line, " \n"); s && k < NDMAX; s = strtok(0, " \n")) ndv[k++] = (unsigned)strtoul(s, 0, 10); } fclose(f); }
#endif
    (void)argc; (void)argv;
#if OP == 0 /* conversion and normalisation of every normal double */
    unsigned s = nd(2), e = 1 + nd(2046); uint64_t m = (uint64_t)nd(1u << 26) << 26 | nd(1u << 26); v = mk(s, m, e); EpdConvert(v, &a); CHECK(bitsOf(a.type.value) == ((uint64_t)s << 63 | (uint64_t)1023 << 52 | m) && a.exponent == (int)e - 1023, "a double is converted exactly"); CHECK(!EpdIsInf(&a) && !EpdIsNan(&a) && !EpdIsZero(&a), "the converted number is finite"); EpdCopy(&a, &b); CHECK(EpdCmp(&a, &b) == 0, "a copy compares equal"); b.exponent++; CHECK(EpdCmp(&a, &b) != 0, "different exponents compare different");
    EpdMakeZero(&c, (int)s); CHECK(EpdIsZero(&c) && c.exponent == 0 && EpdIsZero(&a) == 0, "zero is zero");
#elif OP == 1 /* multiplication */
    x = any(&a); r.s = x.s; form = FORM; if (form == 0) { y = anyDouble(&v); EpdMultiply(&a, v); } else { y = any(&b); if (form == 1) EpdMultiply2(&a, &b); else { EpdMultiply3(&a, &b, &c); a = c; } } r.s = x.s ^ y.s; r.m = x.m * y.m; r.e = x.e + y.e; is(&a, r);
#elif OP == 2 /* division with a representable quotient */
    r.m = (1u << MB) + nd(1u << MB); if (FORM == 0) { y = anyDouble(&v); } else y = any(&b); x.s = nd(2); x.e = (int)nd(6001) - 3000; x.m = r.m * y.m; { unsigned big = x.m >> (2 * MB + 1) != 0; a.type.value = mk(x.s, (x.m << (52 - 2 * MB - big)) & (((uint64_t)1 << 52) - 1), 1023); a.exponent = x.e + 2 * MB + (int)big; }
    if (FORM == 0) EpdDivide(&a, v); else if (FORM == 1) EpdDivide2(&a, &b); else { EpdDivide3(&a, &b, &c); a = c; } r.s = x.s ^ y.s; r.e = x.e - y.e; is(&a, r);
#elif OP == 3 || OP == 4 /* addition and subtraction */
    x = any(&a); form = FORM; if (form == 0) y = anyDouble(&v); else y = any(&b);
#if OP == 3
    if (form == 0) EpdAdd(&a, v); else if (form == 1) EpdAdd2(&a, &b); else { EpdAdd3(&a, &b, &c); a = c; }
#else
    if (form == 0) EpdSubtract(&a, v); else if (form == 1) EpdSubtract2(&a, &b); else { EpdSubtract3(&a, &b, &c); a = c; } y.s ^= 1;
#endif
#ifdef FAR
    { int d = x.e - y.e; ASSUME(d > 60 || d < -60); is(&a, d > 0 ? x : y); }
#else
    is(&a, sum(x, y, 0, DMAX));
#endif
#elif OP == 5 /* powers of two */
    int n = (int)nd(4000); EpdPow2(n, &a); r.s = 0; r.m = 1; r.e = n; is(&a, r);
#elif OP == 6 /* infinities and NaN */
    unsigned s1 = nd(2), s2 = nd(2); int k1 = (int)nd(3), k2 = (int)nd(3), op = (int)nd(4); form = (int)nd(3); ASSUME(k1 < 2 || k2 < 2); special(&a, k1, s1); special(&b, k2, s2); v = b.type.value;
    if (op == 0) { if (form == 0) EpdAdd(&a, v); else if (form == 1) EpdAdd2(&a, &b); else { EpdAdd3(&a, &b, &c); a = c; } }
    else if (op == 1) { if (form == 0) EpdSubtract(&a, v); else if (form == 1) EpdSubtract2(&a, &b); else { EpdSubtract3(&a, &b, &c); a = c; } s2 ^= 1; }
    else if (op == 2) { if (form == 0) EpdMultiply(&a, v); else if (form == 1) EpdMultiply2(&a, &b); else { EpdMultiply3(&a, &b, &c); a = c; } }
    else { if (form == 0) EpdDivide(&a, v); else if (form == 1) EpdDivide2(&a, &b); else { EpdDivide3(&a, &b, &c); a = c; } }
    if (k1 == 1 || k2 == 1) isNan(&a);
    else if (op < 2) { if (k1 == 0 && k2 == 0 && s1 != s2) isNan(&a); else isInf(&a, k1 == 0 ? s1 : s2); }
    else if (op == 2) isInf(&a, s1 ^ s2);
    else if (k1 == 0 && k2 == 0) isNan(&a); else if (k1 == 0) isInf(&a, s1 ^ s2); else CHECK(EpdIsZero(&a) && bitsOf(a.type.value) >> 63 == (s1 ^ s2), "a finite number divided by infinity is zero with the right sign");
#elif OP == 7 /* equal numbers */
    x = any(&a); EpdCopy(&a, &b); if (FORM == 0) EpdSubtract2(&a, &b); else { EpdSubtract3(&a, &b, &c); a = c; } CHECK(EpdIsZero(&a), "the difference of equal numbers is zero");
#endif
#ifndef VSYM
    printf("NOT-REPRODUCED\n");
#endif
    return 0; }
