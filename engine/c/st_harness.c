/* C33: st.c as a finite map. The same file is compiled by goto-cc (nd() is a solver variable) and natively (nd() reads the
   counterexample); one operation on an arbitrary
   well-formed table must return what a finite map returns and leave a well-formed table that represents the updated map. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "util.h"
#include "st.c"
/* MODE: the hash and comparison functions; NB bins, at most NE entries (chains in any order: keys are interchangeable); OP: the operation */
#define NKEYS (NE + 1)
#define NDMAX 400
unsigned ndv[NDMAX]; int ndn = 0;
#ifdef VSYM
unsigned nondet_unsigned(void);
static unsigned nd(unsigned bound) { unsigned v = nondet_unsigned(); __CPROVER_assume(v < bound); ndv[ndn] = v; ndn = ndn + 1; return v; }
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#define ASSUME(c) __CPROVER_assume(c)
#else
static unsigned nd(unsigned bound) { unsigned v = ndn < NDMAX ? ndv[ndn++] : 0; return v < bound ? v : bound - 1; }
#define CHECK(c, msg) do { if (!(c)) { printf("REPRODUCED %s\n", msg); exit(1); } } while (0)
#define ASSUME(c) do { if (!(c)) { printf("NOT-REPRODUCED assumption fails\n"); exit(2); } } while (0)
#endif
#ifdef FAILALLOC
static int mayFail = 0;
#endif
void *MMalloc(size_t n) {
#ifdef FAILALLOC
    if (mayFail && nd(2)) return 0;
#endif
    void *p = malloc(n);
#ifdef VSYM
    __CPROVER_assume(p != 0);
#endif
    return p; }

/* Keys. MODE 0: any hash function (a solver-chosen table) and comparison by content; 1: the same with the extra argument;
   2: st_numcmp/st_numhash on numbers; 3: st_ptrcmp/st_ptrhash on pointers; 4: strcmp/st_strhash. */
static void *keyOf[NKEYS]; static char names[NKEYS];
static unsigned char hashTab[NKEYS][32]; static int theArg;
static double cells[16];
static char strs[NKEYS][3];
static int keyIndex(void const *k) { return (int)((char const *)k - names); }
static int cmpFn(void const *a, void const *b) { return keyIndex(a) - keyIndex(b); }
static int hashFn(void const *a, int m) { CHECK(m > 0 && m < 32, "the hash function is called with the number of bins"); return hashTab[keyIndex(a)][m]; }
static int cmpArg(void const *a, void const *b, void const *arg) { CHECK(arg == &theArg, "the registered argument reaches the comparison"); return keyIndex(a) - keyIndex(b); }
static int hashArg(void const *a, int m, void const *arg) { CHECK(arg == &theArg, "the registered argument reaches the hash function"); return hashFn(a, m); }
static void makeKeys(void) { int i, j;
    for (i = 0; i < NKEYS; i++) {
#if MODE == 0 || MODE == 1
        static const int sizes[] = {NB, (GROW * NB) % 2 == 0 ? GROW * NB + 1 : GROW * NB};
        keyOf[i] = names + i; for (j = 0; j < 2; j++) hashTab[i][sizes[j]] = (unsigned char)nd(sizes[j]);
#elif MODE == 2
        keyOf[i] = (void *)(uintptr_t)nd(256); for (j = 0; j < i; j++) ASSUME(keyOf[j] != keyOf[i]);
#elif MODE == 3
        keyOf[i] = (void *)(cells + nd(16)); for (j = 0; j < i; j++) ASSUME(keyOf[j] != keyOf[i]);
#else
        strs[i][0] = (char)(97 + nd(4)); strs[i][1] = nd(2) ? (char)(97 + nd(4)) : 0; strs[i][2] = 0; keyOf[i] = strs[i]; for (j = 0; j < i; j++) ASSUME(strs[j][0] != strs[i][0] || strs[j][1] != strs[i][1]);
#endif
    } }
static int hashOf(int i, int m) {
#if MODE == 0 || MODE == 1
    return hashTab[i][m];
#elif MODE == 2
    return (int)((uintptr_t)keyOf[i] % (unsigned)m);
#elif MODE == 3
    return st_ptrhash(keyOf[i], m);
#else
    return st_strhash(keyOf[i], m);
#endif
}
/* the specification: a finite map over the keys */
static unsigned char present[NKEYS]; static int val[NKEYS]; static int cnt = 0;
static st_table *build(int density, int reorder) { int i; st_table *t = malloc(sizeof *t); st_table_entry *e;
#ifdef VSYM
    __CPROVER_assume(t != 0);
#endif
    t->compare = 0; t->hash = 0; t->compare_arg = 0; t->hash_arg = 0; t->arg = 0;
#if MODE == 0
    t->compare = cmpFn; t->hash = hashFn;
#elif MODE == 1
    t->compare_arg = cmpArg; t->hash_arg = hashArg; t->arg = &theArg;
#elif MODE == 2
    t->compare = st_numcmp; t->hash = st_numhash;
#elif MODE == 3
    t->compare = st_ptrcmp; t->hash = st_ptrhash;
#else
    t->compare = (st_compare_t)strcmp; t->hash = st_strhash;
#endif
    t->max_density = density; t->grow_factor = GROW; t->reorder_flag = reorder; t->num_bins = NB; t->num_entries = 0; t->bins = malloc(NB * sizeof *t->bins);
#ifdef VSYM
    __CPROVER_assume(t->bins != 0);
#endif
    for (i = 0; i < NB; i++) t->bins[i] = 0;
    for (i = 0; i < NKEYS; i++) { int h; present[i] = i < NE && nd(2); if (!present[i]) continue; val[i] = (int)nd(4); e = malloc(sizeof *e);
#ifdef VSYM
        __CPROVER_assume(e != 0);
#endif
        h = hashOf(i, NB); e->key = keyOf[i]; e->record = (void *)(intptr_t)val[i]; e->next = t->bins[h]; t->bins[h] = e; t->num_entries++; cnt++; }
    return t; }
static int idx(void const *k) { int i; for (i = 0; i < NKEYS; i++) if (keyOf[i] == k) return i; CHECK(0, "a key comes back that was never stored"); return 0; }
static int valOf(void *r) { return (int)(intptr_t)r; }
static void represents(st_table *t) { int b, n = 0, l; unsigned char seen[NKEYS]; st_table_entry *e;
    CHECK(t->num_bins == NB || t->num_bins == ((GROW * NB) % 2 == 0 ? GROW * NB + 1 : GROW * NB), "the number of bins changes only by growing");
    CHECK(st_count(t) == cnt, "st_count is the number of entries"); for (l = 0; l < NKEYS; l++) seen[l] = 0;
    for (b = 0; b < t->num_bins; b++) { e = t->bins[b];
        for (l = 0; l < NKEYS && e; l++) { int i = idx(e->key); CHECK(present[i] && !seen[i], "the table holds exactly the keys stored, each once"); CHECK(hashOf(i, t->num_bins) == b, "every entry is in the bin of its key"); CHECK(valOf(e->record) == val[i], "every entry holds the last value stored"); seen[i] = 1; n++; e = e->next; }
        CHECK(e == 0, "chains end"); }
    CHECK(n == cnt, "no entry is lost"); }
static unsigned char seenT[NKEYS], del[NKEYS]; static int nseen, stopAt;
static enum st_retval visit(void *k, void *r, void *arg) { int i = idx(k);
    CHECK(arg == &theArg, "st_foreach passes its argument on"); CHECK(present[i] && !seenT[i], "st_foreach visits each entry once"); CHECK(valOf(r) == val[i], "st_foreach shows the stored value");
    seenT[i] = 1; if (nseen++ == stopAt) { return ST_STOP; } return del[i] ? ST_DELETE : ST_CONTINUE; }
#ifdef FAILALLOC
#define NOMEM(msg) do { } while (0)
#else
#define NOMEM(msg) CHECK(0, msg)
#endif
int main(int argc, char **argv) { int i, r, v, q = -1, j; st_table *t, *c; st_generator *g; void *k, *p = 0, **slot = 0;
#ifndef VSYM
    if (argc > 1) { FILE *f = fopen(argv[1], "r"); int n = 0; char line[4000]; if (!f) return 3; while (fgets(line, sizeof line, f)) { char *s; if (line[0] == '#') continue; for (s = strtok(line, " \n"); s && n < NDMAX; s = strtok(0, " \n")) ndv[n++] = (unsigned)strtoul(s, 0, 10); } fclose(f); }
#endif
    (void)argc; (void)argv; (void)slot; (void)p; (void)q; (void)g; (void)c; (void)j; (void)k; makeKeys();
    t = build(1 + (int)nd(2), (int)nd(2)); i = (int)nd(NKEYS); v = (int)nd(4); k = keyOf[i];
#ifdef FAILALLOC
    mayFail = 1;
#endif
#if OP == 0 /* st_insert */
    r = st_insert(t, k, (void *)(intptr_t)v);
    if (r == ST_OUT_OF_MEM) { NOMEM("st_insert fails only without memory"); CHECK(!present[i], "st_insert of a stored key needs no memory"); }
    else { CHECK(r == present[i], "st_insert returns whether the key was stored"); if (!present[i]) cnt++; present[i] = 1; val[i] = v; }
#elif OP == 1 /* st_add_direct */
    ASSUME(!present[i]); r = st_add_direct(t, k, (void *)(intptr_t)v); if (r == ST_OUT_OF_MEM) NOMEM("st_add_direct fails only without memory"); else { CHECK(r == 1, "st_add_direct returns 1"); present[i] = 1; val[i] = v; cnt++; }
#elif OP == 2 /* st_find_or_add */
    r = st_find_or_add(t, k, &slot);
    if (r == ST_OUT_OF_MEM) { NOMEM("st_find_or_add fails only without memory"); CHECK(!present[i], "st_find_or_add of a stored key needs no memory"); }
    else { CHECK(r == present[i], "st_find_or_add returns whether the key was stored"); CHECK(slot != 0, "st_find_or_add returns a slot"); CHECK(*slot == (present[i] ? (void *)(intptr_t)val[i] : 0), "the slot of st_find_or_add holds the stored value, or nothing for a new key");
        if (!present[i]) cnt++; present[i] = 1; *slot = (void *)(intptr_t)v; val[i] = v; }
#elif OP == 3 /* st_find */
    r = st_find(t, k, &slot); CHECK(r == present[i], "st_find finds exactly the stored keys"); if (r) { CHECK(valOf(*slot) == val[i], "st_find gives the slot of the stored value"); *slot = (void *)(intptr_t)v; val[i] = v; }
#elif OP == 4 /* st_delete */
    p = k; r = nd(2) ? st_delete(t, &p, (void **)0) : st_delete(t, &p, (slot = &k, slot)); CHECK(r == present[i], "st_delete returns whether the key was stored");
    if (r) { CHECK(k == keyOf[i] || valOf(k) == val[i], "st_delete returns the stored value"); CHECK(idx(p) == i, "st_delete returns the stored key"); present[i] = 0; cnt--; }
#elif OP == 5 /* st_delete_int */
    p = k; r = nd(2) ? st_delete_int(t, &p, (int *)0) : st_delete_int(t, &p, &q); CHECK(r == present[i], "st_delete_int returns whether the key was stored");
    if (r) { CHECK(q == -1 || q == val[i], "st_delete_int returns the stored value"); CHECK(idx(p) == i, "st_delete_int returns the stored key"); present[i] = 0; cnt--; }
#elif OP == 6 /* st_lookup, st_lookup_int, st_is_member */
    if (nd(2)) { r = st_lookup(t, k, &p); CHECK(!r || valOf(p) == val[i], "st_lookup returns the last value stored"); } else { r = st_lookup_int(t, k, &q); CHECK(!r || q == val[i], "st_lookup_int returns the last value stored"); }
    CHECK(r == present[i], "lookups find exactly the stored keys"); represents(t); i = (int)nd(NKEYS); CHECK(st_is_member(t, keyOf[i]) == present[i], "st_is_member finds exactly the stored keys");
#elif OP == 7 /* st_foreach */
    for (j = 0; j < NKEYS; j++) { seenT[j] = 0; del[j] = (unsigned char)nd(2); } nseen = 0; stopAt = (int)nd(NKEYS + 1);
    r = st_foreach(t, visit, &theArg); CHECK(r == (stopAt >= cnt), "st_foreach returns 0 exactly if it was stopped"); CHECK(nseen == (stopAt < cnt ? stopAt + 1 : cnt), "st_foreach visits every entry unless stopped");
    int n0 = cnt, order = 0; (void)n0; (void)order;
    if (stopAt >= cnt) { for (j = 0; j < NKEYS; j++) if (seenT[j] && del[j]) { present[j] = 0; cnt--; } }
    else { for (j = 0; j < NKEYS; j++) if (seenT[j] && del[j] && !st_is_member(t, keyOf[j])) { present[j] = 0; cnt--; } }
#elif OP == 8 /* st_gen */
    g = st_init_gen(t); if (!g) { NOMEM("st_init_gen fails only without memory"); st_free_table(t); return 0; }
    for (j = 0; j < NKEYS; j++) seenT[j] = 0; nseen = 0; int ints = (int)nd(2);
    for (j = 0; j < NKEYS + 1; j++) { p = 0; k = 0; q = -1; r = ints ? st_gen_int(g, &k, &q) : st_gen(g, &k, &p); CHECK(r == (nseen < cnt), "the generator yields every entry and then stops"); if (!r) break; i = idx(k); CHECK(present[i] && !seenT[i], "the generator yields each entry once"); CHECK((ints ? q : valOf(p)) == val[i], "the generator yields the stored value"); seenT[i] = 1; nseen++; }
    st_free_gen(g);
#elif OP == 9 /* st_copy */
    c = st_copy(t); if (!c) { NOMEM("st_copy fails only without memory"); } else { represents(c); for (j = 0; j < NB; j++) { CHECK(c->bins[j] != t->bins[j] || c->bins[j] == 0, "the copy does not share entries with the original"); } st_free_table(c); }
#elif OP == 10 /* creation */
    j = (int)nd(4); st_free_table(t); for (i = 0; i < NKEYS; i++) present[i] = 0; cnt = 0; v = (int)nd(2);
    t = MODE == 1 ? st_init_table_with_params_and_arg(cmpArg, hashArg, &theArg, NB - (NB == 1 ? j : 0), 1 + j, GROW, v) : st_init_table_with_params(MODE == 2 ? st_numcmp : cmpFn, MODE == 2 ? st_numhash : hashFn, NB - (NB == 1 ? j : 0), 1 + j, GROW, v);
    if (!t) { NOMEM("st_init_table fails only without memory");
#ifndef VSYM
        printf("NOT-REPRODUCED\n");
#endif
        return 0; }
    CHECK(t->num_bins == NB && t->max_density == 1 + j && t->grow_factor == GROW && t->reorder_flag == v, "the table is created with the parameters given");
    CHECK(MODE == 1 ? t->compare_arg == cmpArg && t->hash_arg == hashArg && t->arg == &theArg && !t->compare && !t->hash : t->compare == (MODE == 2 ? st_numcmp : cmpFn) && t->hash == (MODE == 2 ? st_numhash : hashFn), "the table is created with the functions given");
#endif
#if OP == 11 /* the hash functions themselves */
    st_free_table(t); unsigned long x = (unsigned long)nd(65536) << 48 | (unsigned long)nd(65536) << 32 | (unsigned long)nd(65536) << 16 | nd(65536); int m = 1 + (int)nd(HMAX);
#if MODE == 4
    { char st[HLEN + 1]; for (j = 0; j < HLEN; j++) { st[j] = (char)nd(256); } st[HLEN] = 0; r = st_strhash(st, m); CHECK(r >= 0 && r < m, "st_strhash stays within the bins"); }
#elif MODE == 3
    r = st_ptrhash((void const *)x, m); CHECK(r >= 0 && r < m, "st_ptrhash stays within the bins"); CHECK(!st_ptrcmp((void *)x, (void *)x), "equal pointers compare equal");
#else
    r = st_numhash((void const *)x, m); CHECK(r >= 0 && r < m, "st_numhash stays within the bins"); CHECK(!st_numcmp((void *)x, (void *)x), "equal numbers compare equal");
#endif
#else
    represents(t); st_free_table(t);
#endif
#ifndef VSYM
    printf("NOT-REPRODUCED\n");
#endif
    return 0; }
