/* C30: one operation of CUDD's unique table, reference counting, garbage collection or variable swap on an arbitrary well-formed
   table: afterwards the table is well-formed, canonical, and every referenced node still stands for its function. Compiled by
   goto-cc (nd() is a solver variable) and natively (nd() reads the counterexample). */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "util.h"
#include "cuddInt.h"
#undef ddHash
static int anyHash(void const *f, void const *g, int s);
#define ddHash(f,g,s) anyHash(f,g,s)
#define NDMAX 400
unsigned ndv[NDMAX]; int ndn = 0;
#ifdef VSYM
unsigned nondet_unsigned(void);
static unsigned nd(unsigned bound) { unsigned v = nondet_unsigned(); __CPROVER_assume(v < bound); ndv[ndn] = v; ndn = ndn + 1; return v; }
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#define ASSUME(c) __CPROVER_assume(c)
#else
static unsigned nd(unsigned bound) { unsigned v = ndn < NDMAX ? ndv[ndn++] : 0; return v < bound ? v : bound - 1; }
#define CHECK(c, msg) do { if (!(c)) { printf("REPRODUCED %s\n", msg); exit(1); } } while (0)
#define ASSUME(c) do { if (!(c)) { printf("NOT-REPRODUCED assumption fails\n"); exit(2); } } while (0)
#endif
#include "cuddTable.c"
#include "cuddRef.c"
#if OP == 6
#include "cuddReorder.c"
#include "cuddInteract.c"
#endif
/* what these functions call but never reach here, or what does not touch the table */
DD_OOMFP MMoutOfMemory;

long util_cpu_time(void) { return 0; }
void cuddLocalCacheClearDead(DdManager *m) { (void)m; }
static int allocated = 0;
void *MMalloc(size_t n) { allocated = 1;
#ifdef MAYREHASH
#ifdef VSYM
    void *p = malloc(n); ASSUME(p != 0); return p;
#else
    return malloc(n);
#endif
#else
    (void)n; ASSUME(0); return 0;
#endif
}
/* LAYOUT: one letter per cell in address order: 1 = the constant, c = the variable below (if any), a/b = a possible node of level 0/1, f = free */
#define P ((int)sizeof(LAYOUT) - 1)
static DdNode pool[sizeof(LAYOUT) - 1] __attribute__((aligned(64)));
static const char layout[] = LAYOUT;
static DdManager mgr; static DdSubtable subt[4]; static int perm[4], invperm[4]; static DdNode *vars[4]; static DdNode *stk[16]; static DdNode *row[2]; static ptruint interactWords[2];
static DdCache cacheLine[1];
static unsigned char pres[sizeof(LAYOUT)], was[sizeof(LAYOUT)]; static unsigned ext[sizeof(LAYOUT)]; static unsigned char hashBits[sizeof(LAYOUT)][2 * sizeof(LAYOUT)];
static int A, B, C; /* indices of the variables at levels 0, 1, 2 */
static int cell(DdNode const *p) { return (int)(((ptruint)p - (ptruint)pool) / sizeof(DdNode)); }
static int anyHash(void const *f, void const *g, int s) { /* any hash function whose value for twice the slots is twice the value, or one more */
    int i = cell((DdNode const *)f), j = cell(Cudd_Regular((DdNode *)g)); CHECK(i >= 0 && i < P && j >= 0 && j < P, "only nodes are hashed"); CHECK(s >= 30 && s <= 32, "the shift belongs to the number of slots");
    return hashBits[i][2 * j + Cudd_IsComplement((DdNode *)g)] >> (s - 30); }
static int levelOf(DdNode *n) { return n == mgr.one ? 3 : (int)mgr.perm[n->index]; }
static void insert(int l, DdNode *n) { DdNodePtr *p = &mgr.subtables[l].nodelist[anyHash(cuddT(n), cuddE(n), mgr.subtables[l].shift)]; int i;
    for (i = 0; i < P && *p != &mgr.sentinel && (cuddT(n) < cuddT(*p) || (cuddT(n) == cuddT(*p) && cuddE(n) < cuddE(*p))); i++) p = &(*p)->next;
    ASSUME(*p == &mgr.sentinel || cuddT(*p) != cuddT(n) || cuddE(*p) != cuddE(n)); n->next = *p; *p = n; }
static int strchr_(const char *s, char c) { int i; for (i = 0; i < 4 && s[i]; i++) if (s[i] == c) return 1; return 0; }
static DdNode *pick(const char *from, int complement) { int i = (int)nd(P); ASSUME(pres[i] && strchr_(from, layout[i])); return complement && nd(2) ? Cudd_Not(pool + i) : pool + i; }
static void initHash(void) { int k; for (k = 0; k < 2 * P * P; k++) hashBits[k / (2 * P)][k % (2 * P)] = (unsigned char)nd(4); }
static void build(void) { int i, j, l;
    static const int sl[] = SLOTS; DdNode *one = 0; unsigned o = nd(OP == 6 ? 6 : 2);
    A = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? 0 : o == 3 ? 1 : 2; B = o == 0 ? 1 : o == 1 ? 0 : o == 2 ? 2 : o == 3 ? 2 : o == 4 ? 0 : 1; C = 3 - A - B;
    mgr.size = 3; mgr.perm = perm; mgr.invperm = invperm; perm[A] = 0; perm[B] = 1; perm[C] = 2; invperm[0] = A; invperm[1] = B; invperm[2] = C; mgr.subtables = subt; mgr.vars = vars; mgr.stack = stk; mgr.deathRow = row; mgr.deathRowDepth = 2; mgr.deadMask = 1; mgr.interact = interactWords; mgr.cacheMisses = 1; mgr.cache = cacheLine; mgr.cacheSlots = 1; mgr.initSlots = 1; mgr.gcFrac = DD_GC_FRAC_LO; mgr.minDead = nd(4); mgr.gcEnabled = 1; mgr.looseUpTo = 100; mgr.timeLimit = 1000; mgr.maxmem = 1000000; mgr.maxmemhard = 1000000; mgr.maxLive = 1000; mgr.maxCacheHard = 100;
    initHash();
    for (l = 0; l < 3; l++) { subt[l].slots = sl[l]; subt[l].shift = sl[l] == 1 ? 32 : sl[l] == 2 ? 31 : 30; subt[l].nodelist = malloc(sl[l] * sizeof(DdNodePtr)); subt[l].maxKeys = OP == 6 ? 4 * sl[l] : nd(8);
#ifdef VSYM
        ASSUME(subt[l].nodelist != 0);
#endif
        for (j = 0; j < sl[l]; j++) subt[l].nodelist[j] = &mgr.sentinel; mgr.slots += sl[l]; }
    for (i = 0; i < P; i++) if (layout[i] == '1') { one = pool + i; pres[i] = 1; one->index = CUDD_CONST_INDEX; one->type.value = 1.0; ext[i] = 1; mgr.one = one; }
    for (l = 2; l >= 0; l--) for (i = 0; i < P; i++) if (layout[i] == "abc"[l]) { DdNode *n = pool + i; int first = 1; for (j = 0; j < i; j++) if (layout[j] == layout[i]) first = 0;
        /* the first node of a level is its projection function, which the manager references */
        pres[i] = first || nd(2); if (!pres[i]) continue;
        n->index = l == 0 ? A : l == 1 ? B : C; ext[i] = nd(3); n->ref = 0;
        if (first) { cuddT(n) = one; cuddE(n) = Cudd_Not(one); vars[n->index] = n; ext[i]++; } else { static const char *const below[] = {"1bc", "1c", "1"}; cuddT(n) = pick(below[l], 0); cuddE(n) = pick(below[l], 1); ASSUME(cuddT(n) != cuddE(n)); }
        insert(l, n); subt[l].keys++; mgr.keys++; }
    mgr.keys++; /* the constant */
    for (i = 0; i < P; i++) if (!pres[i]) { pool[i].ref = 0; pool[i].next = mgr.nextFree; mgr.nextFree = pool + i; }
    if (OP != 6) { unsigned d = nd(3); for (i = 0; i < (int)d; i++) { j = (int)nd(P); ASSUME(pres[j] && layout[j] != '1' && ext[j] > 0); row[i] = pool + j; ext[j]--; pool[j].ref++; } mgr.nextDead = d == 2 ? (int)nd(2) : (int)d; }
    for (l = 0; l < 4; l++) for (i = 0; i < P; i++) if (pres[i] && layout[i] == "abc1"[l]) { pool[i].ref += ext[i]; if (l == 3) continue; if (pool[i].ref) { cuddT(pool + i)->ref++; Cudd_Regular(cuddE(pool + i))->ref++; } else { subt[l].dead++; mgr.dead++; if (OP == 6) ASSUME(0); } }
    for (i = 0; i < P; i++) was[i] = pres[i];
}
static unsigned char env[3];
static int eval(DdNode *f) { int i, c = 0; for (i = 0; i < 4; i++) { c ^= Cudd_IsComplement(f); f = Cudd_Regular(f); if (f == mgr.one) return !c; CHECK(cell(f) >= 0 && cell(f) < P && f->index < 3, "children are nodes"); f = env[f->index] ? cuddT(f) : cuddE(f); } CHECK(0, "the order of variables is respected"); return 0; }
static unsigned char inTable[sizeof(LAYOUT)]; static unsigned want[sizeof(LAYOUT)];
static void wellFormed(void) { int l, b, s, i, j; unsigned keys = 1, dead = 0; DdNode *n;
    for (i = 0; i < P; i++) { inTable[i] = layout[i] == '1'; want[i] = ext[i]; }
    for (i = 0; i < 2; i++) if (mgr.deathRow[i]) want[cell(mgr.deathRow[i])]++; else { for (j = i + 1; j < 2; j++) CHECK(!mgr.deathRow[j], "the death row has no holes"); CHECK(mgr.nextDead == i, "the death row is filled in order"); break; }
    for (l = 0; l < 3; l++) { unsigned k = 0, d = 0; CHECK(mgr.perm[mgr.invperm[l]] == l, "the variable order is a permutation"); CHECK(mgr.subtables[l].slots >= 1 && mgr.subtables[l].slots <= 4 && (mgr.subtables[l].slots == 1u << (32 - mgr.subtables[l].shift)), "slots and shift of a subtable agree");
        for (b = 0; b < (int)mgr.subtables[l].slots; b++) { DdNode *prev = 0; n = mgr.subtables[l].nodelist[b];
            for (s = 0; s < P && n != &mgr.sentinel; s++) { i = cell(n); CHECK(i >= 0 && i < P && !inTable[i], "each node is in the table once"); inTable[i] = 1; k++;
                CHECK((int)n->index == mgr.invperm[l], "a node is in the subtable of its variable"); CHECK(!Cudd_IsComplement(cuddT(n)), "then-children are regular"); CHECK(cuddT(n) != cuddE(n), "no redundant nodes"); CHECK(levelOf(cuddT(n)) > l && levelOf(Cudd_Regular(cuddE(n))) > l, "children are below their parents");
                CHECK(anyHash(cuddT(n), cuddE(n), mgr.subtables[l].shift) == b, "a node is in the slot of its children"); CHECK(!prev || cuddT(prev) > cuddT(n) || (cuddT(prev) == cuddT(n) && cuddE(prev) > cuddE(n)), "collision chains are sorted and without duplicates");
                if (n->ref) { want[cell(cuddT(n))]++; want[cell(Cudd_Regular(cuddE(n)))]++; } else d++;
                prev = n; n = n->next; }
            CHECK(n == &mgr.sentinel, "collision chains end"); }
        CHECK(mgr.subtables[l].keys == k, "the number of keys of a subtable is right"); CHECK(mgr.subtables[l].dead == d, "the number of dead nodes of a subtable is right"); keys += k; dead += d; }
    CHECK(mgr.keys == keys, "the number of keys is right"); CHECK(mgr.dead == dead, "the number of dead nodes is right");
    for (i = 0; i < P; i++) if (inTable[i]) { CHECK(pool[i].ref == want[i], "reference counts are the references from live nodes and from outside"); if (pool[i].ref && layout[i] != '1') CHECK(inTable[cell(cuddT(pool + i))] && inTable[cell(Cudd_Regular(cuddE(pool + i)))], "the children of a referenced node are in the table"); } else CHECK(ext[i] == 0, "no referenced node is freed");
    n = mgr.nextFree; for (s = 0; s <= P && n; s++) { i = cell(n); CHECK(i >= 0 && i < P && !inTable[i], "free nodes are not in the table"); inTable[i] = 1; n = n->next; } CHECK(!n, "the free list ends"); for (i = 0; i < P; i++) CHECK(inTable[i], "no node is lost");
}
int main(int argc, char **argv) { int i, r = 0; DdNode *n, *T, *E; static DdNode *oT[sizeof(LAYOUT)], *oE[sizeof(LAYOUT)]; static unsigned oI[sizeof(LAYOUT)], oRef[sizeof(LAYOUT)], before[sizeof(LAYOUT)];
#ifndef VSYM
    if (argc > 1) { FILE *f = fopen(argv[1], "r"); int k = 0; char line[4000]; if (!f) return 3; while (fgets(line, sizeof line, f)) { char *s; if (line[0] == '#') continue; for (s = strtok(line, " \n"); s && k < NDMAX; s = strtok(0, " \n")) ndv[k++] = (unsigned)strtoul(s, 0, 10); } fclose(f); }
#endif
    (void)argc; (void)argv; (void)n; (void)T; (void)E; (void)r; build();
#ifdef SELF
    wellFormed();
#endif
    for (i = 0; i < P; i++) { oT[i] = cuddT(pool + i); oE[i] = cuddE(pool + i); oI[i] = pool[i].index; oRef[i] = pool[i].ref; }
#if OP == 0 /* cuddUniqueInter */
    { int l = (int)nd(2); T = pick(l ? "1c" : "1bc", 0); E = pick(l ? "1c" : "1bc", 1); ASSUME(T != E); ASSUME(T->ref && Cudd_Regular(E)->ref); ASSUME(mgr.nextFree);
      ext[cell(T)]++; T->ref++; ext[cell(Cudd_Regular(E))]++; Cudd_Regular(E)->ref++; /* the caller holds references to both */
      n = cuddUniqueInter(&mgr, l ? B : A, T, E); CHECK(n && !Cudd_IsComplement(n) && cuddT(n) == T && cuddE(n) == E && (int)n->index == (l ? B : A), "the node returned has the variable and the children asked for");
      for (i = 0; i < P; i++) if (was[i] && layout[i] == "ab"[l] && oT[i] == T && oE[i] == E && oRef[i]) CHECK(n == pool + i, "an existing node is found");
      Cudd_Ref(n); ext[cell(n)]++; was[cell(n)] = 0; }
#elif OP == 1 || OP == 2 || OP == 3 /* giving up a reference */
    i = (int)nd(P); ASSUME(was[i] && layout[i] != '1' && ext[i] > 0 && !(layout[i] != 'f' && vars[pool[i].index] == pool + i && ext[i] == 1)); ext[i]--; n = nd(2) ? Cudd_Not(pool + i) : pool + i;
#if OP == 1
    Cudd_RecursiveDeref(&mgr, n);
#elif OP == 2
    Cudd_IterDerefBdd(&mgr, n);
#else
    Cudd_DelayedDerefBdd(&mgr, n);
#endif
#elif OP == 4 /* cuddReclaim */
    i = (int)nd(P); ASSUME(was[i] && pool[i].ref == 0); cuddReclaim(&mgr, nd(2) ? Cudd_Not(pool + i) : pool + i); CHECK(pool[i].ref == 0, "cuddReclaim leaves the reference to its caller"); Cudd_Ref(pool + i); ext[i]++;
#elif OP == 5 /* cuddGarbageCollect */
    if (nd(2)) { cacheLine[0].f = pick("1abc", 1); cacheLine[0].g = pick("1abc", 1); cacheLine[0].h = 0; cacheLine[0].data = pick("1abc", 1); }
    unsigned d0 = mgr.dead; int clear = (int)nd(2), none = !row[0]; r = cuddGarbageCollect(&mgr, clear); CHECK(r <= (int)d0 + 6 && (!none || r == (int)d0), "cuddGarbageCollect frees every dead node"); CHECK(mgr.dead == 0 && !mgr.deathRow[0], "no dead node remains after a garbage collection");
    if (clear && cacheLine[0].data) { wellFormed(); CHECK(Cudd_Regular(cacheLine[0].f)->ref && Cudd_Regular(cacheLine[0].g)->ref && Cudd_Regular(cacheLine[0].data)->ref, "no computed-table entry mentions a freed node"); }
#elif OP == 6 /* cuddSwapInPlace */
    for (i = 0; i < 3; i++) env[i] = (unsigned char)nd(2); interactWords[0] = nd(8);
    { int x = A < B ? A : B, y = A < B ? B : A, posn = (((3 << 1) - x - 3) * x >> 1) + y - 1, iso = 0; int l = (int)nd(WITHC ? 2 : 1);
      /* variables that no node combines may be recorded as not interacting */
      for (i = 0; i < P; i++) if (layout[i] == 'a' && was[i] && (cuddT(pool + i)->index == (DdHalfWord)B || Cudd_Regular(cuddE(pool + i))->index == (DdHalfWord)B)) ASSUME(interactWords[0] >> posn & 1);
      (void)l; for (i = 0; i < 3; i++) if (vars[i]) iso += vars[i]->ref == 1; mgr.isolated = iso;
      for (i = 0; i < P; i++) if (was[i]) before[i] = (unsigned)eval(pool + i);
      r = cuddSwapInPlace(&mgr, 0, 1); iso = 0; for (i = 0; i < 3; i++) if (vars[i]) iso += vars[i]->ref == 1; CHECK(mgr.isolated == (unsigned)iso, "the count of isolated projection functions is right"); CHECK(r == (int)mgr.keys - iso, "the size after the swap is returned");
      CHECK(mgr.perm[A] == 1 && mgr.perm[B] == 0, "the two variables change places"); for (i = 0; i < P; i++) if (was[i] && (ext[i] || layout[i] == '1')) CHECK((unsigned)eval(pool + i) == before[i], "swapping variables changes no represented function");
      for (i = 0; i < 3; i++) if (vars[i]) CHECK((int)vars[i]->index == i && cuddT(vars[i]) == mgr.one && cuddE(vars[i]) == Cudd_Not(mgr.one), "projection functions stay what they are"); }
#elif OP == 7
    cuddRehash(&mgr, (int)nd(2)); CHECK(allocated, "cuddRehash");
#elif OP == 8
    cuddClearDeathRow(&mgr); CHECK(!row[0] && !row[1], "the death row is empty");
#endif
    wellFormed();
#if OP != 6
    for (i = 0; i < P; i++) if (was[i] && pool[i].ref && layout[i] != '1') CHECK(cuddT(pool + i) == oT[i] && cuddE(pool + i) == oE[i] && pool[i].index == oI[i], "nodes keep their variable and children");
#endif
#ifndef VSYM
    printf("NOT-REPRODUCED\n");
#endif
    return 0; }
