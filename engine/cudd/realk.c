/* Replays the operands of a counterexample of the kernel checks in the real, complete libcudd. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "config.h"
#include "util.h"
#include "cuddInt.h"
static struct { char k[64]; int v; } ent[4096]; static int nent;
static int get(const char *k) { for (int i = 0; i < nent; i++) if (!strcmp(ent[i].k, k)) return ent[i].v; return 0; }
static int choose(const char *n, int m) { char b[80]; for (int i = 0; i + 1 < m; i++) { snprintf(b, sizeof b, "%s=%d", n, i); if (get(b)) return i; } return m - 1; }
static int NV, N, order[8]; static DdManager *dd; static const char *name;
static void bad(const char *m) { printf("REPRODUCED %s with the complete library: %s\n", name, m); exit(1); }
static DdNode *build(const int *t) {
  DdNode *r = Cudd_ReadLogicZero(dd); Cudd_Ref(r);
  for (int i = 0; i < N; i++) if (t[i]) {
    DdNode *c = Cudd_ReadOne(dd); Cudd_Ref(c);
    for (int l = NV - 1; l >= 0; l--) { int v = order[l]; DdNode *x = Cudd_bddIthVar(dd, v), *d = (i >> v & 1) ? Cudd_bddIte(dd, x, c, Cudd_ReadLogicZero(dd)) : Cudd_bddIte(dd, x, Cudd_ReadLogicZero(dd), c); if (!d) bad("operands cannot be built"); Cudd_Ref(d); Cudd_RecursiveDeref(dd, c); c = d; }
    DdNode *d = Cudd_bddIte(dd, c, Cudd_ReadOne(dd), r); if (!d) bad("operands cannot be built"); Cudd_Ref(d); Cudd_RecursiveDeref(dd, c); Cudd_RecursiveDeref(dd, r); r = d; }
  return r;
}
static void table(DdNode *f, int *t) { int in[8]; for (int i = 0; i < N; i++) { for (int v = 0; v < NV; v++) in[v] = i >> v & 1; t[i] = Cudd_Eval(dd, f, in) == Cudd_ReadOne(dd); } }
static int isCube(const int *g) { for (int i = 0; i < N; i++) { int e = 1; for (int w = 0; w < NV; w++) if (!(i >> w & 1) && !g[(N - 1) & ~(1 << w)]) e = 0; if (g[i] != e) return 0; } return 1; }
static int is(const char *s) { return !strcmp(name, s) || (!strncmp(name, "Cudd_bdd", 8) && !strcmp(name + 8, s)); }
static void quantify(int *t, const int *c) { for (int v = 0; v < NV; v++) if (!c[(N - 1) & ~(1 << v)]) for (int i = 0; i < N; i++) if (!(i >> v & 1)) t[i] = t[i | 1 << v] = t[i] | t[i | 1 << v]; }
static int near(const int *f, const int *c, int x) { /* the point of c nearest to x in the order's metric */
  int lo = 0, m = 0; for (int l = 0; l < NV; l++) { int v = order[l], b = x >> v & 1, any = 0; for (int i = 0; i < N; i++) if ((i & m) == lo && (i >> v & 1) == b && c[i]) any = 1; if (!any) b = !b; m |= 1 << v; lo |= b << v; } return f[lo]; }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); char line[256], nm[64], sh[32], k[64]; int v; if (!f) return 2;
  while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; if (sscanf(line, "check %63s %31s", nm, sh) == 2) continue; if (sscanf(line, "%63s %d", k, &v) == 2 && nent < 4096) { strcpy(ent[nent].k, k); ent[nent++].v = v; } }
  name = nm; NV = strlen(sh) - 1; N = 1 << NV; dd = Cudd_Init(NV, 0, CUDD_UNIQUE_SLOTS, CUDD_CACHE_SLOTS, 0); for (int i = 0; i < NV; i++) order[i] = sh[1 + i] - '0'; Cudd_ShuffleHeap(dd, order);
  int T[3][256], R[256], W[256], cube[3] = {0, 0, 0}; DdNode *h[3]; char b[64]; int arity = 2;
  if (is("ite") || is("Ite") || is("andabs") || is("AndAbstract") || is("xorexist") || is("XorExistAbstract")) arity = 3; if (is("permute") || is("Permute") || is("varmap") || is("VarMap") || is("SwapVariables") || is("BooleanDiff")) arity = 1;
  for (int o = 0; o < 3; o++) { char c = "fgh"[o]; snprintf(b, sizeof b, "%c.var0", c); int isc = 0, lit = -1; for (int i = 0; i < nent; i++) { if (ent[i].k[0] == c && !strncmp(ent[i].k + 1, ".var", 4)) isc = 1; if (ent[i].k[0] == c && ent[i].k[1] == '=') lit = 1; }
    if ((is("diff") && o == 1) || (is("compose") && o == 2)) lit = 1; if (lit == 1) { b[0] = c; b[1] = 0; lit = choose(b, NV); }
    for (int i = 0; i < N; i++) { if (lit >= 0) T[o][i] = i >> lit & 1; else if (isc) { T[o][i] = 1; for (int w = 0; w < NV; w++) { snprintf(b, sizeof b, "%c.var%d", c, w); if (get(b) && !(i >> w & 1)) T[o][i] = 0; } } else { snprintf(b, sizeof b, "%c.%d", c, i); T[o][i] = get(b); } }
    cube[o] = lit; h[o] = build(T[o]); int C[256]; table(h[o], C); if (memcmp(C, T[o], N * sizeof(int))) bad("an operand built from its minterms is another function"); }
  int perm[8], left[8], nl = NV; for (int i = 0; i < NV; i++) left[i] = i; for (int i = 0; i < NV; i++) { snprintf(b, sizeof b, "perm%d", i); int c = choose(b, nl); perm[i] = left[c]; for (int j = c; j + 1 < nl; j++) left[j] = left[j + 1]; nl--; }
  int var = choose("variable", NV), pairs = choose("pairs", NV / 2 + 1); int *a = T[0], *g = T[1], *c = T[2], rel = 0;
  for (int round = 0; round < 3; round++) {
    DdNode *r = NULL; int leq = -1; memset(W, 0, sizeof W);
#define EACH(e) for (int i = 0; i < N; i++) W[i] = !!(e);
    if (is("and") || is("And")) { r = Cudd_bddAnd(dd, h[0], h[1]); EACH(a[i] && g[i]) }
    else if (is("Or")) { r = Cudd_bddOr(dd, h[0], h[1]); EACH(a[i] || g[i]) }
    else if (is("Nand")) { r = Cudd_bddNand(dd, h[0], h[1]); EACH(!(a[i] && g[i])) }
    else if (is("Nor")) { r = Cudd_bddNor(dd, h[0], h[1]); EACH(!(a[i] || g[i])) }
    else if (is("xor") || is("Xor")) { r = Cudd_bddXor(dd, h[0], h[1]); EACH(a[i] != g[i]) }
    else if (is("Xnor")) { r = Cudd_bddXnor(dd, h[0], h[1]); EACH(a[i] == g[i]) }
    else if (is("ite") || is("Ite")) { r = Cudd_bddIte(dd, h[0], h[1], h[2]); EACH(a[i] ? g[i] : c[i]) }
    else if (is("intersect") || is("Intersect")) { r = Cudd_bddIntersect(dd, h[0], h[1]); rel = 1; }
    else if (is("leq")) { leq = Cudd_bddLeq(dd, h[0], h[1]); }
    else if (is("exist") || is("ExistAbstract") || is("UnivAbstract")) { int cb = isCube(g); int u = is("UnivAbstract");
      r = u ? Cudd_bddUnivAbstract(dd, h[0], h[1]) : Cudd_bddExistAbstract(dd, h[0], h[1]); if (!cb) { if (r) bad("a quantification by something that is not a positive cube has a result"); break; } EACH(u ? !a[i] : a[i]) quantify(W, g); if (u) EACH(!W[i]) }
    else if (is("andabs") || is("AndAbstract")) { r = Cudd_bddAndAbstract(dd, h[0], h[1], h[2]); EACH(a[i] && g[i]) quantify(W, c); }
    else if (is("xorexist") || is("XorExistAbstract")) { r = Cudd_bddXorExistAbstract(dd, h[0], h[1], h[2]); if (!isCube(c)) { if (r) bad("a quantification by something that is not a positive cube has a result"); break; } EACH(a[i] != g[i]) quantify(W, c); }
    else if (is("diff") || is("BooleanDiff")) { int x = is("diff") ? cube[1] : var; r = Cudd_bddBooleanDiff(dd, h[0], x); EACH(a[i | 1 << x] != a[i & ~(1 << x)]) }
    else if (is("compose") || is("Compose")) { int x = is("compose") ? cube[2] : var; r = Cudd_bddCompose(dd, h[0], h[1], x); EACH(g[i] ? a[i | 1 << x] : a[i & ~(1 << x)]) }
    else if (is("permute") || is("Permute") || is("varmap") || is("VarMap") || is("SwapVariables")) { int p[8]; memcpy(p, perm, sizeof p); DdNode *x[8], *y[8];
      if (is("SwapVariables")) { for (int i = 0; i < NV; i++) p[i] = i; for (int i = 0; i < pairs; i++) { int s = perm[2 * i], t = perm[2 * i + 1]; x[i] = Cudd_bddIthVar(dd, s); y[i] = Cudd_bddIthVar(dd, t); p[s] = t; p[t] = s; } r = Cudd_bddSwapVariables(dd, h[0], x, y, pairs); }
      else if (is("varmap") || is("VarMap")) { x[0] = y[0] = Cudd_bddIthVar(dd, 0); if (!Cudd_SetVarMap(dd, x, y, 1)) return 2; for (int i = 0; i < NV; i++) dd->map[i] = p[i]; cuddCacheFlush(dd); r = Cudd_bddVarMap(dd, h[0]); }
      else r = Cudd_bddPermute(dd, h[0], p);
      for (int i = 0; i < N; i++) { int q = 0; for (int w = 0; w < NV; w++) if (i >> p[w] & 1) q |= 1 << w; W[i] = a[q]; } }
    else if (is("constrain") || is("Constrain")) { r = Cudd_bddConstrain(dd, h[0], h[1]); for (int i = 0; i < N; i++) W[i] = near(a, g, i); }
    else if (is("restrict") || is("Restrict")) { r = Cudd_bddRestrict(dd, h[0], h[1]); rel = 2; }
    else if (is("LICompaction")) { r = Cudd_bddLICompaction(dd, h[0], h[1]); rel = 2; }
    else return 2;
    if (leq >= 0) { int e = 1; for (int i = 0; i < N; i++) if (a[i] && !g[i]) e = 0; if (leq != e) bad("the answer of the implication test is wrong"); cuddGarbageCollect(dd, 1); continue; }
    if (!r) bad("no result"); Cudd_Ref(r); table(r, R);
    if (rel == 0 && memcmp(R, W, N * sizeof(int))) bad("the result is not the specified function of the operands");
    if (rel == 1) { int any = 0, ra = 0; for (int i = 0; i < N; i++) { any |= a[i] && g[i]; ra |= R[i]; if (R[i] && !(a[i] && g[i])) bad("the result is not within the intersection"); } if (any != ra) bad("the result is empty although the intersection is not"); }
    if (rel == 2) for (int i = 0; i < N; i++) if (g[i] && R[i] != a[i]) bad("the result differs on the care set");
    DdNode *again = build(R); if (again != r) bad("the result is not the canonical diagram of its function"); Cudd_RecursiveDeref(dd, again);
   
    for (int o = 0; o < 3; o++) { int C[256]; table(h[o], C); if (memcmp(C, T[o], N * sizeof(int))) bad("an operand changed"); }
    Cudd_RecursiveDeref(dd, r); cuddGarbageCollect(dd, 1); }
  for (int o = 0; o < 3; o++) Cudd_RecursiveDeref(dd, h[o]);
  if (Cudd_DebugCheck(dd)) bad("the manager's tables are inconsistent afterwards"); if (Cudd_CheckZeroRef(dd)) bad("references of nodes are left over");
  printf("NOT-REPRODUCED\n"); return 0;
}
