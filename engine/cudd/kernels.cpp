// C29: one step of every recursive BDD kernel, and its public wrapper, for all operand functions over NV variables.
// Everything a kernel calls (recursive kernels, unique table, computed table) is replaced by its contract.
#include "ksym.h"
#include "sym.h"
#include <deque>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <time.h>
#include <sys/time.h>
using namespace sym;
typedef std::vector<Lit> Tab;
static int NV, N; static std::vector<int> order, level;
static DdManager dd; static std::vector<DdNodeP> varsV; static std::vector<int> permV, invV;
static std::map<std::string, int> val;
static Lit nd(const std::string &n) { if (concreteMode) { auto i = val.find(n); return i != val.end() && i->second ? T : F; } return fresh(n); }
static void bad(const std::string &m) { possible(T); violation(m); endPath(true); }
static int counter; static Lit ndAuto(const char *n) { return nd(std::string(n) + "." + std::to_string(counter++)); }
static int choose(const std::string &name, int n) { for (int i = 0; i + 1 < n; i++) if (decide(nd(name + "=" + std::to_string(i)))) return i; return n - 1; }
// --- truth tables ---
static Tab constT(Lit l) { return Tab(N, l); }
static Tab varT(int v) { Tab t(N); for (int i = 0; i < N; i++) t[i] = i >> v & 1 ? T : F; return t; }
template<class O> static Tab map2(const Tab &a, const Tab &b, O o) { Tab r(N); for (int i = 0; i < N; i++) r[i] = o(a[i], b[i]); return r; }
static Tab notT(const Tab &a) { Tab r(a); for (auto &l : r) l = neg(l); return r; }
static Tab andT(const Tab &a, const Tab &b) { return map2(a, b, And); }
static Tab xorT(const Tab &a, const Tab &b) { return map2(a, b, Xor); }
static Tab iteT(const Tab &a, const Tab &b, const Tab &c) { Tab r(N); for (int i = 0; i < N; i++) r[i] = Ite(a[i], b[i], c[i]); return r; }
static Tab cof(const Tab &a, int v, int b) { Tab r(N); for (int i = 0; i < N; i++) r[i] = a[b ? i | 1 << v : i & ~(1 << v)]; return r; }
static Lit eqT(const Tab &a, const Tab &b) { Lit r = T; for (int i = 0; i < N; i++) r = And(r, Eq(a[i], b[i])); return r; }
static Lit leqT(const Tab &a, const Tab &b) { Lit r = T; for (int i = 0; i < N; i++) r = And(r, Implies(a[i], b[i])); return r; }
static Lit anyT(const Tab &a) { return OrAll(a); }
static Lit indep(const Tab &a, int v) { return eqT(cof(a, v, 0), cof(a, v, 1)); }
static Lit inCube(const Tab &c, int v) { return neg(c[(N - 1) & ~(1 << v)]); }              // meaningful if c is a positive cube
static Lit isCube(const Tab &c) { Lit r = c[N - 1]; for (int i = 0; i < N; i++) { Lit e = T; for (int v = 0; v < NV; v++) if (!(i >> v & 1)) e = And(e, neg(inCube(c, v))); r = And(r, Eq(c[i], e)); } return r; }
static Tab exT(Tab f, const Tab &c) { for (int v = 0; v < NV; v++) { Tab a = cof(f, v, 0), b = cof(f, v, 1); for (int i = 0; i < N; i++) f[i] = Ite(inCube(c, v), Or(a[i], b[i]), f[i]); } return f; }
static Tab permT(const Tab &f, const int *p) { Tab r(N); for (int i = 0; i < N; i++) { int y = 0; for (int v = 0; v < NV; v++) if (i >> p[v] & 1) y |= 1 << v; r[i] = f[y]; } return r; }
static Tab composeT(const Tab &f, const Tab &g, int v) { return iteT(g, cof(f, v, 1), cof(f, v, 0)); }
static Lit conAt(const Tab &f, const Tab &c, int l, int x) { // the generalised cofactor: f at the point of c nearest to x
  if (l == NV) return f[0];
  int v = order[l], b = x >> v & 1; Tab c1 = cof(c, v, b);
  return Ite(anyT(c1), conAt(cof(f, v, b), c1, l + 1, x), conAt(cof(f, v, !b), cof(c, v, !b), l + 1, x));
}
static Tab conT(const Tab &f, const Tab &c) { Tab r(N); Lit some = anyT(c); for (int x = 0; x < N; x++) r[x] = And(some, conAt(f, c, 0, x)); return r; }
// --- nodes ---
struct Pair { Tab t; int reg = -1, lvl = -1, ref = 0, epoch, T = -1, E = -1, count = 0; };    // handle id = 2*pair + polarity + 2
static std::deque<Pair> pairs; static std::deque<DdNode> nodes;
static std::vector<std::vector<int>> collections; static std::vector<int> operands; // which pairs were protected at each possible collection
static int newPair(const Tab &t) { Pair p; p.t = t; for (auto &l : p.t) l = resolve(l); p.epoch = collections.size(); pairs.push_back(p); for (int k = 0; k < 2; k++) { DdNode n; long id = 2 * ((long)pairs.size() - 1) + k + 2; n.index.n = n.ref.n = n.type.kids.T.n = n.type.kids.E.n = id; n.type.kids.T.t = true; n.type.kids.E.t = false; n.next = DdNodeP(0L); nodes.push_back(n); } return pairs.size() - 1; }
static DdNodeP H(int pair, int pol = 0) { return DdNodeP((long)(2 * pair + pol + 2)); }
static int pairOf(DdNodeP a) { if (a.id < 2 || (size_t)((a.id - 2) / 2) >= pairs.size()) bad("a NULL or invalid node is used"); return (a.id - 2) / 2; }
static int polOf(DdNodeP a) { return a.id & 1; }
static Tab tabOf(DdNodeP a) { int p = pairOf(a); return polOf(a) ? notT(pairs[p].t) : pairs[p].t; }
static Lit below(const Tab &p, const Tab &m, int l) { // m (or its complement) is the function of a node reachable from p's node
  Lit r = Or(eqT(p, m), eqT(p, notT(m))); if (r == T || l == NV) return r;
  return Or(r, Or(below(cof(p, order[l], 0), m, l + 1), below(cof(p, order[l], 1), m, l + 1)));
}
static Lit prot(const Tab &m, const std::vector<int> &ps) {
  Lit r = F; for (int p : ps) { if (r == T) return T; r = Or(r, below(pairs[p].t, m, 0)); }
  return r;
}
static std::vector<int> protectors() { std::vector<int> r(operands); for (size_t p = 0; p < pairs.size(); p++) if (pairs[p].count > 0) r.push_back(p); return r; }
static void use(DdNodeP a) {
  int p = pairOf(a); Pair &P = pairs[p];
  for (size_t c = P.epoch; c < collections.size(); c++) check(prot(P.t, collections[c]), "a node is used after a garbage collection may have removed it");
  P.epoch = collections.size();
}
DdNode *DdNodeP::operator->() const { pairOf(*this); return &nodes[id - 2]; }
bool kEqual(DdNodeP a, DdNodeP b) { if (a.id == b.id) return true; if (!a.id || !b.id) return false; if ((a.id ^ 1) == b.id) return false; return decide(eqT(tabOf(a), tabOf(b))); }
static std::map<std::pair<long, long>, bool> above;
bool kAbove(DdNodeP a, DdNodeP b) { if (kEqual(a, b)) return false; if ((a.id ^ 1) == b.id) return kCompl(a); auto k = std::make_pair(std::min(a.id, b.id), std::max(a.id, b.id)); auto i = above.find(k); if (i == above.end()) i = above.insert({k, decide(ndAuto("address"))}).first; return i->second == (a.id < b.id); }
static int regPol(int p) { Pair &P = pairs[p]; if (P.reg < 0) P.reg = decide(P.t[N - 1]) ? 0 : 1; return P.reg; }
bool kCompl(DdNodeP a) { return regPol(pairOf(a)) != polOf(a); }
DdNodeP kNot(DdNodeP a) { if (!a.id) bad("a NULL node is complemented"); return DdNodeP(a.id ^ 1); }
DdNodeP kRegular(DdNodeP a) { int p = pairOf(a); return H(p, regPol(p)); }
static int lvlOf(int p) { Pair &P = pairs[p]; if (P.lvl < 0) { int l = 0; while (l < NV && !decide(neg(indep(P.t, order[l])))) l++; P.lvl = l; } return P.lvl; }
static void field(long id) { DdNodeP a(id); use(a); if (kCompl(a)) bad("a complemented pointer is dereferenced"); }
unsigned kIndex(long id) { field(id); int l = lvlOf(pairOf(DdNodeP(id))); return l == NV ? CUDD_CONST_INDEX : order[l]; }
DdNodeP kChild(long id, bool t) {
  field(id); int p = pairOf(DdNodeP(id)), l = lvlOf(p); if (l == NV) bad("a child of a constant is read");
  int &c = t ? pairs[p].T : pairs[p].E; if (c < 0) { int k = newPair(cof(tabOf(DdNodeP(id)), order[l], t)); (t ? pairs[p].T : pairs[p].E) = k; return H(k); }
  pairs[c].epoch = collections.size(); return H(c);
}
unsigned kRef(long id) { field(id); Pair &P = pairs[pairOf(DdNodeP(id))]; if (!P.ref) P.ref = decide(ndAuto("shared")) ? 2 : 1; return P.ref; }
static std::vector<int> touched;
void kAddRef(long id, int d) { field(id); int p = pairOf(DdNodeP(id)); pairs[p].count += d; touched.push_back(p); }
static DdNodeP deliver(const Tab &t) { return H(newPair(t)); }
// --- environment ---
static bool failed, wrapper; static int reorders;
static bool mayFail(bool mayReorder = true) {
  collections.push_back(protectors());
  if (!decide(ndAuto("fails"))) return false;
  if (mayReorder && wrapper && reorders < 2 && decide(ndAuto("reorders"))) { reorders++; dd.reordered = 1; return true; }
  failed = true; dd.errorCode = CUDD_MEMORY_OUT; return true;
}
static int callback(const void *) { if (!decide(ndAuto("terminate"))) return 0; failed = true; return 1; }
extern "C" long util_cpu_time(void) { return 0; }
// --- contracts ---
enum Op { AND, XOR, ITE, LEQ, EXIST, XOREXIST, ANDABS, DIFF, COMPOSE, PERMUTE, VARMAP, CONSTRAIN, RESTRICT, NPAND, INTERSECT, LIC };
static bool exact(Op o) { return o != RESTRICT && o != NPAND && o != INTERSECT && o != LIC; }
static int *curPerm, *curMap; static int litVar;                       // the permutation and the variable literal in use
static int varOf(const Tab &t) { for (int v = 0; v < NV; v++) if (decide(eqT(t, varT(v)))) return v; bad("a projection function is expected"); return 0; }
static Tab value(Op o, const std::vector<Tab> &a) {
  switch (o) {
  case AND: return andT(a[0], a[1]); case XOR: return xorT(a[0], a[1]); case ITE: return iteT(a[0], a[1], a[2]);
  case LEQ: return constT(leqT(a[0], a[1])); case EXIST: return exT(a[0], a[1]); case XOREXIST: return exT(xorT(a[0], a[1]), a[2]); case ANDABS: return exT(andT(a[0], a[1]), a[2]);
  case DIFF: { int v = varOf(a[1]); return xorT(cof(a[0], v, 0), cof(a[0], v, 1)); }
  case COMPOSE: return composeT(a[0], a[1], varOf(a[2])); case PERMUTE: return permT(a[0], curPerm); case VARMAP: return permT(a[0], curMap);
  case CONSTRAIN: return conT(a[0], a[1]); default: return a[0]; }
}
static Lit relation(Op o, const std::vector<Tab> &a, const Tab &r) {
  if (exact(o)) return eqT(r, value(o, a));
  Lit supp = T; for (int v = 0; v < NV; v++) supp = And(supp, Implies(indep(a[0], v), indep(r, v)));
  if (o == RESTRICT) return And(supp, leqT(andT(xorT(r, a[0]), a[1]), constT(F)));
  if (o == LIC) return Implies(anyT(a[1]), leqT(andT(xorT(r, a[0]), a[1]), constT(F)));
  if (o == NPAND) return And(supp, And(leqT(r, a[0]), leqT(andT(a[0], a[1]), r)));
  Lit sp = T; for (int v = 0; v < NV; v++) sp = And(sp, Implies(And(indep(a[0], v), indep(a[1], v)), indep(r, v)));
  return And(And(sp, leqT(r, andT(a[0], a[1]))), Eq(anyT(r), anyT(andT(a[0], a[1]))));              // INTERSECT
}
static Lit precond(Op o, const std::vector<Tab> &a) { if (o == EXIST) return isCube(a[1]); if (o == XOREXIST || o == ANDABS) return isCube(a[2]); if (o == DIFF) return a[0][N - 1]; return T; }
static Op target; static bool kernelRun; static std::vector<Tab> entry;
static DdNodeP result(Op o, const std::vector<Tab> &a) {
  if (exact(o)) return deliver(value(o, a));
  Tab r(N); int k = counter++; for (int i = 0; i < N; i++) r[i] = nd("result." + std::to_string(k) + "." + std::to_string(i));
  if (!assume(relation(o, a, r))) endPath(false); return deliver(r);
}
static std::vector<Tab> operandsOf(std::initializer_list<DdNodeP> l) { std::vector<Tab> a; for (auto h : l) { use(h); a.push_back(tabOf(h)); } return a; }
static void called(Op o, const std::vector<Tab> &a) {
  check(precond(o, a), "a kernel is called outside its domain (quantification by a non-cube, difference of a complemented node)");
  if (!kernelRun || o != target) return;
  Lit same = T; for (size_t i = 0; i < a.size(); i++) same = And(same, eqT(a[i], entry[i]));
  if (o == PERMUTE || o == VARMAP) {}
  check(neg(same), "the kernel calls itself with the operands it was given"); size_t k = o == COMPOSE ? 2 : a.size(); Lit free1 = T, free2 = T;
  for (int l = 0; l < NV; l++) { for (size_t i = 0; i < k; i++) { free1 = And(free1, indep(entry[i], order[l])); free2 = And(free2, indep(a[i], order[l])); } check(Implies(free1, free2), "the kernel calls itself on functions with variables above those of its operands"); }
}
static DdNodeP kernel(Op o, std::initializer_list<DdNodeP> l) { auto a = operandsOf(l); called(o, a); if (mayFail()) return NULL; return result(o, a); }
static DdNodeP lookup(Op o, std::initializer_list<DdNodeP> l) { auto a = operandsOf(l); check(precond(o, a), "the computed table is searched for an operation outside its domain"); if (!decide(ndAuto("cached"))) return NULL; return result(o, a); }
static void insert(Op o, std::initializer_list<DdNodeP> l, DdNodeP r) { auto a = operandsOf(l); use(r); check(relation(o, a, tabOf(r)), "a wrong result is stored in the computed table"); }
static Op op2(DD_CTFP op) {
  void *p = (void *)op; if (p == (void *)Cudd_bddAnd) return AND; if (p == (void *)Cudd_bddXor) return XOR; if (p == (void *)Cudd_bddExistAbstract) return EXIST; if (p == (void *)Cudd_bddLeq) return LEQ;
  if (p == (void *)Cudd_bddRestrict) return RESTRICT; if (p == (void *)Cudd_bddConstrain) return CONSTRAIN; if (p == (void *)Cudd_bddBooleanDiff || p == (void *)cuddBddBooleanDiffRecur) return DIFF; if (p == (void *)Cudd_bddIntersect) return INTERSECT; if (p == (void *)Cudd_bddNPAnd) return NPAND;
  bad("the computed table is used under an unknown operation"); return AND; }
static Op op3(ptruint t) { if (t == DD_BDD_ITE_TAG || t == DD_BDD_ITE_CONSTANT_TAG) return ITE; if (t == DD_BDD_AND_ABSTRACT_TAG) return ANDABS; if (t == DD_BDD_XOR_EXIST_ABSTRACT_TAG) return XOREXIST; if (t == DD_BDD_COMPOSE_RECUR_TAG) return COMPOSE; bad("the computed table is used under an unknown operation"); return AND; }
extern "C" {
DdNodeP cuddBddAndRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(AND, {f, g}); }
DdNodeP cuddBddXorRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(XOR, {f, g}); }
DdNodeP cuddBddIntersectRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(INTERSECT, {f, g}); }
DdNodeP cuddBddIteRecur(DdManager *m, DdNodeP f, DdNodeP g, DdNodeP h) { return kernel(ITE, {f, g, h}); }
int Cudd_bddLeq(DdManager *m, DdNodeP f, DdNodeP g) { auto a = operandsOf({f, g}); called(LEQ, a); return decide(leqT(a[0], a[1])); }
DdNodeP cuddBddExistAbstractRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(EXIST, {f, g}); }
DdNodeP cuddBddXorExistAbstractRecur(DdManager *m, DdNodeP f, DdNodeP g, DdNodeP h) { return kernel(XOREXIST, {f, g, h}); }
DdNodeP cuddBddBooleanDiffRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(DIFF, {f, g}); }
DdNodeP cuddBddAndAbstractRecur(DdManager *m, DdNodeP f, DdNodeP g, DdNodeP h) { return kernel(ANDABS, {f, g, h}); }
DdNodeP cuddBddComposeRecur(DdManager *m, DdNodeP f, DdNodeP g, DdNodeP h) { return kernel(COMPOSE, {f, g, h}); }
DdNodeP cuddBddConstrainRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(CONSTRAIN, {f, g}); }
DdNodeP cuddBddRestrictRecur(DdManager *m, DdNodeP f, DdNodeP g) { return kernel(RESTRICT, {f, g}); }
DdNodeP cuddUniqueInter(DdManager *m, int index, DdNodeP t, DdNodeP e) {
  use(t); use(e); if (index < 0 || index >= NV) bad("a node with an invalid variable is requested");
  Tab a = tabOf(t), b = tabOf(e);
  check(neg(eqT(a, b)), "a node with equal children is requested"); check(a[N - 1], "a node with complemented THEN child is requested");
  for (int l = 0; l <= level[index]; l++) check(And(indep(a, order[l]), indep(b, order[l])), "a node is requested whose children are not below it");
  auto ps = protectors(); check(And(prot(a, ps), prot(b, ps)), "a node is requested for children that are not protected by a reference");
  if (mayFail()) return NULL;
  return deliver(iteT(varT(index), a, b));
}
void Cudd_IterDerefBdd(DdManager *, DdNodeP n) { use(n); kAddRef(kRegular(n).id, -1); }
void Cudd_RecursiveDeref(DdManager *m, DdNodeP n) { Cudd_IterDerefBdd(m, n); }
void Cudd_DelayedDerefBdd(DdManager *m, DdNodeP n) { Cudd_IterDerefBdd(m, n); }
void Cudd_Ref(DdNodeP n) { use(n); kAddRef(kRegular(n).id, 1); }
void Cudd_Deref(DdNodeP n) { use(n); kAddRef(kRegular(n).id, -1); }
DdNodeP cuddCacheLookup1(DdManager *, DD_CTFP1 op, DdNodeP f) { if ((void *)op != (void *)Cudd_bddVarMap) bad("the computed table is used under an unknown operation"); return lookup(VARMAP, {f}); }
void cuddCacheInsert1(DdManager *, DD_CTFP1 op, DdNodeP f, DdNodeP r) { if ((void *)op != (void *)Cudd_bddVarMap) bad("the computed table is used under an unknown operation"); insert(VARMAP, {f}, r); }
DdNodeP cuddCacheLookup2(DdManager *, DD_CTFP op, DdNodeP f, DdNodeP g) { return lookup(op2(op), {f, g}); }
void cuddCacheInsert2(DdManager *, DD_CTFP op, DdNodeP f, DdNodeP g, DdNodeP r) { insert(op2(op), {f, g}, r); }
DdNodeP cuddCacheLookup(DdManager *, ptruint op, DdNodeP f, DdNodeP g, DdNodeP h) { return lookup(op3(op), {f, g, h}); }
DdNodeP cuddConstantLookup(DdManager *, ptruint op, DdNodeP f, DdNodeP g, DdNodeP h) { return lookup(op3(op), {f, g, h}); }
void cuddCacheInsert(DdManager *, ptruint op, DdNodeP f, DdNodeP g, DdNodeP h, DdNodeP r) { insert(op3(op), {f, g, h}, r); }
void cuddCacheFlush(DdManager *) {}
DdHashTable *cuddHashTableInit(DdManager *, unsigned, unsigned) { if (decide(ndAuto("fails"))) { failed = true; dd.errorCode = CUDD_MEMORY_OUT; return NULL; } return (DdHashTable *)&dd; }
void cuddHashTableQuit(DdHashTable *) {}
DdNodeP cuddHashTableLookup1(DdHashTable *, DdNodeP f) { return lookup(PERMUTE, {f}); }
int cuddHashTableInsert1(DdHashTable *, DdNodeP f, DdNodeP r, ptrint) { insert(PERMUTE, {f}, r); if (decide(ndAuto("fails"))) { failed = true; dd.errorCode = CUDD_MEMORY_OUT; return 0; } return 1; }
void *MMalloc(size_t n) { return malloc(n); }
int Cudd_IsConstant(DdNodeP f) { return kIndex(kRegular(f).id) == CUDD_CONST_INDEX; }
DdNodeP Cudd_bddIthVar(DdManager *, int i) { return varsV[i]; }
DdNodeP Cudd_ReadOne(DdManager *m) { return m->one; }
DdNodeP Cudd_ReadLogicZero(DdManager *m) { return kNot(m->one); }
int Cudd_ClassifySupport(DdManager *, DdNodeP f, DdNodeP g, DdNodeP *c, DdNodeP *of, DdNodeP *og) { // cubes of the variables both, only f and only g depend on
  auto a = operandsOf({f, g}); if (mayFail(false)) { *c = *of = *og = NULL; return 0; }
  Tab t[3] = {constT(T), constT(T), constT(T)}; for (int v = 0; v < NV; v++) { Lit x = neg(indep(a[0], v)), y = neg(indep(a[1], v)), in[3] = {And(x, y), And(x, neg(y)), And(y, neg(x))}; for (int k = 0; k < 3; k++) for (int i = 0; i < N; i++) if (!(i >> v & 1)) t[k][i] = And(t[k][i], neg(in[k])); }
  *c = deliver(t[0]); *of = deliver(t[1]); *og = deliver(t[2]); return 1; }
int Cudd_DagSize(DdNodeP) { return choose("size" + std::to_string(counter++), 3); }
// st tables: an association list compared with the table's own comparison function
}
struct StModel { st_compare_t cmp; std::vector<std::pair<void *, void *>> e; };
extern "C" {
int st_ptrcmp(const void *a, const void *b) { return !kEqual(DdNodeP((long)a), DdNodeP((long)b)); }
int st_ptrhash(const void *, int) { return 0; }
st_table *st_init_table(st_compare_t c, st_hash_t) { auto *t = new StModel; t->cmp = c; return (st_table *)t; }
void st_free_table(st_table *t) { delete (StModel *)t; }
static std::pair<void *, void *> *stFind(st_table *t, void *k) { for (auto &x : ((StModel *)t)->e) if (((StModel *)t)->cmp(k, x.first) == 0) return &x; return nullptr; }
int st_lookup(st_table *t, void const *k, void **v) { auto *x = stFind(t, (void *)k); if (!x) return 0; if (v) *v = x->second; return 1; }
int st_lookup_int(st_table *t, void const *k, int *v) { auto *x = stFind(t, (void *)k); if (!x) return 0; if (v) *v = (int)(long)x->second; return 1; }
int st_insert(st_table *t, void *k, void *v) { auto *x = stFind(t, k); if (x) { x->second = v; return 1; } auto &e = ((StModel *)t)->e; if (e.capacity() == e.size()) e.reserve(64); e.push_back({k, v}); return 0; }
int st_find_or_add(st_table *t, void *k, void ***s) { auto *x = stFind(t, k); auto &e = ((StModel *)t)->e; if (x) { *s = &x->second; return 1; } e.reserve(64); e.push_back({k, nullptr}); *s = &e.back().second; return 0; }
int st_foreach(st_table *t, st_foreach_t f, void *a) { for (auto &x : ((StModel *)t)->e) f(x.first, x.second, a); return 1; }
}
// static kernels become external under their real_ name (C++ linkage)
DdNodeP cuddBddPermuteRecur(DdManager *m, DdHashTable *, DdNodeP f, int *p) { curPerm = p; return kernel(PERMUTE, {f}); }
DdNodeP cuddBddVarMapRecur(DdManager *m, DdNodeP f) { return kernel(VARMAP, {f}); }
DdNodeP real_cuddBddAndRecur(DdManager *, DdNodeP, DdNodeP), real_cuddBddXorRecur(DdManager *, DdNodeP, DdNodeP), real_cuddBddIntersectRecur(DdManager *, DdNodeP, DdNodeP), real_cuddBddIteRecur(DdManager *, DdNodeP, DdNodeP, DdNodeP), real_cuddBddExistAbstractRecur(DdManager *, DdNodeP, DdNodeP), real_cuddBddXorExistAbstractRecur(DdManager *, DdNodeP, DdNodeP, DdNodeP), real_cuddBddBooleanDiffRecur(DdManager *, DdNodeP, DdNodeP), real_cuddBddAndAbstractRecur(DdManager *, DdNodeP, DdNodeP, DdNodeP), real_cuddBddComposeRecur(DdManager *, DdNodeP, DdNodeP, DdNodeP), real_cuddBddConstrainRecur(DdManager *, DdNodeP, DdNodeP), real_cuddBddRestrictRecur(DdManager *, DdNodeP, DdNodeP);
int real_Cudd_bddLeq(DdManager *, DdNodeP, DdNodeP);
DdNodeP real_cuddBddPermuteRecur(DdManager *, DdHashTable *, DdNodeP, int *), real_cuddBddVarMapRecur(DdManager *, DdNodeP);
// --- tasks ---
static Tab symbolic(const std::string &n) { Tab t(N); for (int i = 0; i < N; i++) t[i] = nd(n + "." + std::to_string(i)); return t; }
static Tab cubeTab(const std::string &n) { Tab t(N, T); for (int v = 0; v < NV; v++) { Lit s = nd(n + ".var" + std::to_string(v)); for (int i = 0; i < N; i++) if (!(i >> v & 1)) t[i] = And(t[i], neg(s)); } return t; }
static DdNodeP operand(const Tab &t) { DdNodeP h = deliver(t); operands.push_back(pairOf(h)); return h; }
static std::vector<Lit> bits(int v) { std::vector<Lit> r; for (int i = 0; i < 6; i++) r.push_back(v >> i & 1 ? T : F); return r; }
static void balanced() {
  for (int p : touched) { std::vector<Lit> s = bits(0); for (size_t q = 0; q < pairs.size(); q++) if (pairs[q].count) { Lit e = Or(eqT(pairs[p].t, pairs[q].t), eqT(pairs[p].t, notT(pairs[q].t))); auto k = bits(pairs[q].count); Lit c = F; for (int i = 0; i < 6; i++) { Lit x = And(e, k[i]), y = Xor(s[i], x), n = Or(And(s[i], x), And(y, c)); s[i] = Xor(y, c); c = n; } }
    check(neg(OrAll(s)), "references of a node are lost or left over"); }
}
struct Task { std::string name; int arity; std::function<void(std::vector<Tab> &, std::vector<DdNodeP> &)> body; std::string kinds; };
static void finish(DdNodeP r, const std::function<Lit(const Tab &)> &ok, bool invalid = false) {
  balanced();
  if (r.id == 0) { if (!failed && !invalid) bad("no result although nothing failed"); if (!failed && dd.errorCode == CUDD_NO_ERROR) bad("no result and no error code"); witness(1); return; }
  if (failed) witness(2);
  use(r); check(ok(tabOf(r)), "the result is not the specified function of the operands"); witness(0);
}
#define REL(o) [=](const Tab &r) { return relation(o, a, r); }
#define IS(t) [=](const Tab &r) { return eqT(r, t); }
static int permArr[8], mapArr[8];
static void choosePerm(int *p) { std::vector<int> left; for (int i = 0; i < NV; i++) left.push_back(i); for (int i = 0; i < NV; i++) { int k = choose("perm" + std::to_string(i), left.size()); p[i] = left[k]; left.erase(left.begin() + k); } }
static std::vector<Task> tasks() {
  std::vector<Task> t;
#define K2(nm, o, fn, kinds) t.push_back({nm, 2, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { kernelRun = true; target = o; entry = a; finish(fn(&dd, h[0], h[1]), REL(o)); }, kinds});
#define K3(nm, o, fn, kinds) t.push_back({nm, 3, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { kernelRun = true; target = o; entry = a; finish(fn(&dd, h[0], h[1], h[2]), REL(o)); }, kinds});
#define P2(fn, kinds, ok) t.push_back({#fn, 2, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; finish(fn(&dd, h[0], h[1]), ok); }, kinds});
#define P3(fn, kinds, ok) t.push_back({#fn, 3, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; finish(fn(&dd, h[0], h[1], h[2]), ok); }, kinds});
#define Q2(fn, val) t.push_back({#fn, 2, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; bool cube = decide(isCube(a[1])); DdNodeP r = fn(&dd, h[0], h[1]); if (!cube && r.id) bad("a quantification by something that is not a positive cube has a result"); finish(r, IS(val), !cube); }, "ff"});
#define Q3(fn, val) t.push_back({#fn, 3, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; bool cube = decide(isCube(a[2])); DdNodeP r = fn(&dd, h[0], h[1], h[2]); if (!cube && r.id) bad("a quantification by something that is not a positive cube has a result"); finish(r, IS(val), !cube); }, "fff"});
  K2("and", AND, real_cuddBddAndRecur, "ff") K2("xor", XOR, real_cuddBddXorRecur, "ff") K2("intersect", INTERSECT, real_cuddBddIntersectRecur, "ff") K3("ite", ITE, real_cuddBddIteRecur, "fff")
  K2("exist", EXIST, real_cuddBddExistAbstractRecur, "fc") K3("xorexist", XOREXIST, real_cuddBddXorExistAbstractRecur, "ffc") K3("andabs", ANDABS, real_cuddBddAndAbstractRecur, "ffc") K2("diff", DIFF, real_cuddBddBooleanDiffRecur, "rv")
  K3("compose", COMPOSE, real_cuddBddComposeRecur, "ffv") K2("constrain", CONSTRAIN, real_cuddBddConstrainRecur, "fn") K2("restrict", RESTRICT, real_cuddBddRestrictRecur, "fn")
  t.push_back({"leq", 2, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { kernelRun = true; target = LEQ; entry = a; bool r = real_Cudd_bddLeq(&dd, h[0], h[1]); check(Eq(r ? T : F, leqT(a[0], a[1])), "the answer of the implication test is wrong"); balanced(); witness(0); witness(1); }, "ff"});
  t.push_back({"permute", 1, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { choosePerm(permArr); curPerm = permArr; kernelRun = true; target = PERMUTE; entry = a; finish(real_cuddBddPermuteRecur(&dd, (DdHashTable *)&dd, h[0], permArr), REL(PERMUTE)); }, "f"});
  t.push_back({"varmap", 1, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { choosePerm(mapArr); curMap = dd.map = mapArr; kernelRun = true; target = VARMAP; entry = a; finish(real_cuddBddVarMapRecur(&dd, h[0]), REL(VARMAP)); }, "f"});
  P2(Cudd_bddAnd, "ff", IS(andT(a[0], a[1]))) P2(Cudd_bddOr, "ff", IS(notT(andT(notT(a[0]), notT(a[1]))))) P2(Cudd_bddNand, "ff", IS(notT(andT(a[0], a[1])))) P2(Cudd_bddNor, "ff", IS(andT(notT(a[0]), notT(a[1])))) P2(Cudd_bddXor, "ff", IS(xorT(a[0], a[1]))) P2(Cudd_bddXnor, "ff", IS(notT(xorT(a[0], a[1]))))
  P2(Cudd_bddIntersect, "ff", REL(INTERSECT)) P3(Cudd_bddIte, "fff", REL(ITE)) Q2(Cudd_bddExistAbstract, exT(a[0], a[1])) Q2(Cudd_bddUnivAbstract, notT(exT(notT(a[0]), a[1]))) P3(Cudd_bddAndAbstract, "ffc", REL(ANDABS)) Q3(Cudd_bddXorExistAbstract, exT(xorT(a[0], a[1]), a[2]))
  P2(Cudd_bddConstrain, "fn", REL(CONSTRAIN)) P2(Cudd_bddRestrict, "fn", REL(RESTRICT)) P2(Cudd_bddLICompaction, "fn", REL(LIC))
  t.push_back({"Cudd_bddCompose", 2, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; int v = choose("variable", NV); finish(Cudd_bddCompose(&dd, h[0], h[1], v), IS(composeT(a[0], a[1], v))); }, "ff"});
  t.push_back({"Cudd_bddPermute", 1, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; choosePerm(permArr); finish(Cudd_bddPermute(&dd, h[0], permArr), IS(permT(a[0], permArr))); }, "f"});
  t.push_back({"Cudd_bddVarMap", 1, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; choosePerm(mapArr); curMap = dd.map = mapArr; finish(Cudd_bddVarMap(&dd, h[0]), IS(permT(a[0], mapArr))); }, "f"});
  t.push_back({"Cudd_bddSwapVariables", 1, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; choosePerm(permArr); int n = choose("pairs", NV / 2 + 1); int want[8]; for (int i = 0; i < NV; i++) want[i] = i; DdNodeP x[4], y[4]; for (int i = 0; i < n; i++) { x[i] = varsV[permArr[2 * i]]; y[i] = varsV[permArr[2 * i + 1]]; want[permArr[2 * i]] = permArr[2 * i + 1]; want[permArr[2 * i + 1]] = permArr[2 * i]; }
    finish(Cudd_bddSwapVariables(&dd, h[0], x, y, n), IS(permT(a[0], want))); }, "f"});
  t.push_back({"Cudd_bddBooleanDiff", 1, [](std::vector<Tab> &a, std::vector<DdNodeP> &h) { wrapper = true; int v = choose("variable", NV); finish(Cudd_bddBooleanDiff(&dd, h[0], v), IS(xorT(cof(a[0], v, 0), cof(a[0], v, 1)))); }, "f"});
  return t;
}
static double nowReal() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
static Task *task;
static void body() {
  memset((void *)&dd, 0, sizeof dd); level.assign(NV, 0); for (int l = 0; l < NV; l++) level[order[l]] = l;
  Tab one = constT(T); DdNodeP o = operand(one); pairs[pairOf(o)].reg = 0; pairs[pairOf(o)].lvl = NV; dd.one = o; dd.zero = kNot(o);
  permV = level; invV = order; for (int v = 0; v < NV; v++) { DdNodeP x = operand(varT(v)); varsV.push_back(x); Pair &P = pairs[pairOf(x)]; P.reg = 0; P.lvl = level[v]; }
  dd.vars = varsV.data(); dd.perm = permV.data(); dd.invperm = invV.data(); dd.size = NV; dd.errorCode = CUDD_NO_ERROR; dd.terminationCallback = callback; dd.timeLimit = ~0ul; dd.timeoutHandler = NULL; dd.map = mapArr; static FILE *null = fopen("/dev/null", "w"); dd.err = dd.out = null;
  std::vector<Tab> a; std::vector<DdNodeP> h;
  for (int i = 0; i < task->arity; i++) { std::string n(1, "fgh"[i]); char k = task->kinds[i]; Tab x = k == 'c' ? cubeTab(n) : k == 'v' ? varT(choose(n, NV)) : symbolic(n); a.push_back(x); if (k == 'r' && !assume(x[N - 1])) endPath(false); if (k == 'n' && !assume(anyT(x))) endPath(false);
    int v = -1; if (k == 'v') for (int w = 0; w < NV; w++) if (x == varT(w)) v = w;
    h.push_back(v >= 0 ? varsV[v] : operand(x)); }
  task->body(a, h);
}
int main(int argc, char **argv) {
  std::map<std::string, std::string> o; for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto all = tasks(); std::string name = o["--check"], shape = o["--shape"];
  if (o.count("--replay")) { std::ifstream f(o["--replay"]); std::string l, k; int v; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream is(l); is >> k; if (k == "check") { is >> name >> shape; break; } } while (f >> k >> v) val[k] = v; concreteMode = true; }
  for (auto &t : all) if (t.name == name) task = &t; if (!task) { fprintf(stderr, "unknown check\n"); return 2; }
  for (char c : shape.substr(1)) order.push_back(c - '0'); NV = order.size(); N = 1 << NV;
  cfg.workdir = o.count("--workdir") ? o["--workdir"] : "."; cfg.jobs = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8;
  if (o.count("--timeout")) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); cfg.deadline = t.tv_sec + atof(o["--timeout"].c_str()); }
  if (o.count("--samples")) cfg.samples = atoi(o["--samples"].c_str()); if (o.count("--cross")) { cfg.crossDir = cfg.workdir; cfg.crossEvery = atoi(o["--cross"].c_str()); }
  double t0 = nowReal();
  dumpHook = [&](FILE *f) { fprintf(f, "check %s %s\n", name.c_str(), shape.c_str()); for (size_t i = 0; i < nofInputs(); i++) fprintf(f, "%s %d\n", inputName(i).c_str(), inputModel(i) ? 1 : 0); };
  explore(body); if (concreteMode) { printf("NOT-REPRODUCED\n"); return 0; }
  Stats st = stats();
  printf("{\"check\":\"%s\",\"shape\":\"%s\",\"inputs\":%zu,\"paths\":%lu,\"infeasible\":%lu,\"decisions\":%lu,\"forks\":%lu,\"sat_queries\":%lu,\"assertions\":%lu,\"solver_s\":%.2f,\"wall_s\":%.2f,\"max_depth\":%lu,\"incomplete\":%lu,\"violated\":%d,\"timeout\":%d,\"witnesses\":[", name.c_str(), shape.c_str(), nofInputs(), st.paths, st.infeasible, st.decisions, st.forks, st.satQueries, st.asserts, st.solverTime, nowReal() - t0, st.maxDepth, st.incomplete, violated() ? 1 : 0, outOfTime() ? 1 : 0);
  for (int i = 0; i < 8; i++) printf("%s%lu", i ? "," : "", st.witnesses[i]); printf("]}\n");
  return violated() ? 1 : st.incomplete ? 3 : 0;
}
