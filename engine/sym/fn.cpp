#include "fn.h"
#include <unordered_map>
#include <map>
#include <cstring>
#include <cstdlib>
#include <ostream>
#include <string>
namespace sym {
struct VecHash { size_t operator()(const Tab &t) const { size_t h = 1469598103934665603ull; for (Lit l : t) { h ^= l; h *= 1099511628211ull; } return h; } };
static std::vector<Tab> fns(1);                       // id -> table
static std::unordered_map<Tab, int, VecHash> intern;
static int NV = 0;
static DdManager theMgr;
std::vector<Stored> storedBdds;
int nvars() { return NV; }
static Tab shrink(Tab t) { // drop trailing variables the table does not depend on
  while (t.size() > 1) { size_t h = t.size() / 2; if (!std::equal(t.begin(), t.begin() + h, t.begin() + h)) break; t.resize(h); }
  return t;
}
DdNodeP mk(const Tab &t0) {
  Tab t = shrink(t0);
  auto it = intern.find(t);
  DdNodeP r;
  if (it != intern.end()) { r.id = it->second; return r; }
  fns.push_back(t); r.id = fns.size() - 1; intern[t] = r.id; return r;
}
static const Tab &raw(DdNodeP f) {
  if (f.id <= 0 || f.id >= (int)fns.size()) { // NULL dereference in the program under test
    abort();
  }
  return fns[f.id];
}
Tab tab(DdNodeP f) {
  const Tab &t = raw(f); Tab r((size_t)1 << NV);
  for (size_t i = 0; i < r.size(); i++) r[i] = i < t.size() ? resolve(t[i]) : r[i & (t.size() - 1)];
  return r;
}
Lit at(DdNodeP f, unsigned a) { const Tab &t = raw(f); return resolve(t[a & (t.size() - 1)]); }
static Tab rtab(DdNodeP f, size_t n) { const Tab &t = raw(f); Tab r(n); for (size_t i = 0; i < n; i++) r[i] = i < t.size() ? resolve(t[i]) : r[i & (t.size() - 1)]; return r; }
static size_t sz(DdNodeP f) { return raw(f).size(); }
bool trackRefs = false; std::vector<std::string> refMisuse; static std::map<int, long> refCount; static std::map<int, bool> dead;
int refKey(DdNodeP f) { Tab t = raw(f); for (auto &l : t) l = neg(l); return std::min(f.id, mk(t).id); }
static bool permanent(DdNodeP f) { const Tab &t = raw(f); size_t n = t.size(); if (n == 1) return true; for (size_t i = 1; i < n; i++) if (t[i] != (i < n / 2 ? t[0] : neg(t[0]))) return false; return t[0] <= 1; }
long refCountOf(DdNodeP f) { return refCount[refKey(f)]; }
static void touch(DdNodeP f, const char *what = "an operation") { if (trackRefs && f.id > 0 && dead.count(refKey(f))) refMisuse.push_back(std::string("a node that was dereferenced for the last time is used by ") + what); }
static DdNodeP born(DdNodeP f) { if (trackRefs) dead.erase(refKey(f)); return f; }
template <class OP> static DdNodeP bin(DdNodeP a, DdNodeP b, OP op) {
  countOp();
  size_t n = std::max(sz(a), sz(b)); Tab x = rtab(a, n), y = rtab(b, n), r(n);
  for (size_t i = 0; i < n; i++) r[i] = op(x[i], y[i]);
  touch(a); touch(b); return born(mk(r));
}
Lit equalLit(DdNodeP a, DdNodeP b) {
  if (a.id == b.id) return T;
  size_t n = std::max(sz(a), sz(b)); Tab x = rtab(a, n), y = rtab(b, n); Lit r = T;
  for (size_t i = 0; i < n; i++) { r = And(r, Eq(x[i], y[i])); if (r == F) return F; }
  return r;
}
}
using namespace sym;
bool symNodeEq(DdNodeP a, DdNodeP b) {
  if (a.id == b.id) return true;
  if (a.id <= 0 || b.id <= 0) return false;
  return decide(equalLit(a, b));
}
// ---- canonical ROBDD addresses (after concretisation) ----
namespace {
struct RN { int var; size_t t, e; };
std::map<std::vector<char>, size_t> addrOfTable; // table over shrink'ed variables -> address
std::map<size_t, int> idOfAddr;
std::map<std::pair<int, std::pair<size_t, size_t>>, size_t> uniq; size_t nextAddr = 0x7f0000001040;
const size_t ONE_ADDR = 0x7f0000001000;
size_t build(const std::vector<char> &t, int v, int nv) { // t over variables v..nv-1 (bit 0 of index = variable v)
  bool c0 = true, c1 = true; for (char c : t) { if (c) c0 = false; else c1 = false; }
  if (c1) return ONE_ADDR; if (c0) return ONE_ADDR | 1;
  std::vector<char> lo, hi; for (size_t i = 0; i < t.size(); i += 2) { lo.push_back(t[i]); hi.push_back(t[i + 1]); }
  size_t E = build(lo, v + 1, nv), Th = build(hi, v + 1, nv);
  if (E == Th) return E;
  size_t c = Th & 1; Th ^= c; E ^= c;
  auto key = std::make_pair(v, std::make_pair(Th, E));
  auto it = uniq.find(key); size_t a;
  if (it == uniq.end()) { a = nextAddr; nextAddr += 0x40; uniq[key] = a; } else a = it->second;
  return a ^ c;
}
}
DdNodeP::operator size_t() const {
  if (id == 0) return 0; if (id == -1) return ~(size_t)0;
  Tab t = rtab(*this, sz(*this)); bool changed = false;
  for (auto &l : t) if (l > 1) { l = decide(l) ? sym::T : sym::F; changed = true; }
  if (changed) for (auto &l : t) l = resolve(l);
  t = shrink(t);
  std::vector<char> v; for (Lit l : t) v.push_back(l == sym::T);
  auto it = addrOfTable.find(v); if (it != addrOfTable.end()) return it->second;
  int nv = 0; while (((size_t)1 << nv) < v.size()) nv++;
  size_t a = build(v, 0, nv); addrOfTable[v] = a;
  idOfAddr[a] = mk(t).id; Tab c = t; for (auto &l : c) l = neg(l); idOfAddr[a ^ 1] = mk(c).id;
  return a;
}
int DdNodeP::fromAddress(size_t a) {
  if (a == 0) return 0; if (a == ~(size_t)0) return -1;
  auto it = idOfAddr.find(a); if (it == idOfAddr.end()) abort();
  return it->second;
}
static Lit inSupport(DdNodeP f, int v) {
  size_t n = sz(f); if (n <= ((size_t)1 << v)) return sym::F;
  Tab t = rtab(f, n); Lit r = sym::F;
  for (size_t i = 0; i < n; i++) if (!(i >> v & 1)) r = Or(r, Xor(t[i], t[i | (size_t)1 << v]));
  return r;
}
int Cudd_IsConstant(DdNodeP f) {
  countOp(); size_t n = sz(f); Tab t = rtab(f, n); Lit a = sym::T, o = sym::F; for (Lit l : t) { a = And(a, l); o = Or(o, l); }
  return decide(Or(a, neg(o)));
}
unsigned int Cudd_NodeReadIndex(DdNodeP f) {
  countOp(); size_t n = sz(f);
  for (int v = 0; ((size_t)1 << v) < n; v++) if (decide(inSupport(f, v))) return v;
  return CUDD_CONST_INDEX;
}
const SymNodeView *DdNodeP::operator->() const {
  static SymNodeView views[64]; static int k = 0; SymNodeView *v = &views[k++ & 63]; v->ref = 1; v->index = Cudd_NodeReadIndex(*this); return v;
}
std::ostream &operator<<(std::ostream &o, const DdNodeP &n) { return o << "node"; }
static Lit complBit(DdNodeP f) { size_t n = sz(f); return neg(at(f, n - 1)); } // a regular node is 1 under the all-ones assignment
int Cudd_IsComplement(DdNodeP f) { return decide(complBit(f)); }
static DdNodeP xorLit(DdNodeP f, Lit c) { Tab t = rtab(f, sz(f)); for (auto &l : t) l = Xor(l, c); return mk(t); }
DdNodeP Cudd_Regular(DdNodeP f) { if (f.id <= 0) return f; return xorLit(f, complBit(f)); }
DdNodeP Cudd_Complement(DdNodeP f) { return xorLit(f, neg(complBit(f))); }
DdNodeP Cudd_Not(DdNodeP f) { return xorLit(f, sym::T); }
DdNodeP Cudd_NotCond(DdNodeP f, int c) { return c ? Cudd_Not(f) : f; }
static DdNodeP cof(DdNodeP f, int v, int b) {
  size_t n = sz(f); Tab t = rtab(f, n), r(n); size_t m = (size_t)1 << v; if (n <= m) return f;
  for (size_t i = 0; i < n; i++) r[i] = t[b ? (i | m) : (i & ~m)];
  return mk(r);
}
// cuddT/cuddE of a constant read the union's value field in CUDD; programs must not do this on a path that matters
DdNodeP Cudd_T(DdNodeP f) { DdNodeP r = Cudd_Regular(f); unsigned v = Cudd_NodeReadIndex(r); if (v == CUDD_CONST_INDEX) return DdNodeP(); return cof(r, v, 1); }
DdNodeP Cudd_E(DdNodeP f) { DdNodeP r = Cudd_Regular(f); unsigned v = Cudd_NodeReadIndex(r); if (v == CUDD_CONST_INDEX) return DdNodeP(); return cof(r, v, 0); }
DdManager *Cudd_Init(unsigned, unsigned, unsigned, unsigned, size_t) { theMgr.one = mk(Tab(1, sym::T)); theMgr.nvars = NV; theMgr.liveRefs = 0; return &theMgr; }
void Cudd_Quit(DdManager *) {}
int Cudd_CheckZeroRef(DdManager *m) { return 0; }
void Cudd_Ref(DdNodeP f) { raw(f); theMgr.liveRefs++; if (trackRefs) { touch(f, "Cudd_Ref"); refCount[refKey(f)]++; } }
void Cudd_Deref(DdNodeP f) { raw(f); theMgr.liveRefs--; if (trackRefs) refCount[refKey(f)]--; }
void Cudd_RecursiveDeref(DdManager *, DdNodeP f) {
  raw(f); theMgr.liveRefs--;
  if (trackRefs) { touch(f, "Cudd_RecursiveDeref"); long &c = refCount[refKey(f)]; c--; if (c < 0 && !dead.count(refKey(f))) refMisuse.push_back("a node is dereferenced more often than referenced"); if (c <= 0 && !permanent(f)) dead[refKey(f)] = true; }
}
DdNodeP Cudd_ReadOne(DdManager *m) { if (!m) abort(); return m->one; }
DdNodeP Cudd_ReadLogicZero(DdManager *m) { return Cudd_Not(m->one); }
DdNodeP Cudd_bddIthVar(DdManager *m, int i) { while (NV <= i) NV++; m->nvars = NV; Tab t((size_t)2 << i); for (size_t k = 0; k < t.size(); k++) t[k] = (k >> i & 1) ? sym::T : sym::F; return mk(t); }
DdNodeP Cudd_bddNewVar(DdManager *m) { return Cudd_bddIthVar(m, NV); }
DdNodeP Cudd_bddAnd(DdManager *, DdNodeP a, DdNodeP b) { return bin(a, b, [](Lit x, Lit y) { return And(x, y); }); }
DdNodeP Cudd_bddOr(DdManager *, DdNodeP a, DdNodeP b) { return bin(a, b, [](Lit x, Lit y) { return Or(x, y); }); }
DdNodeP Cudd_bddNand(DdManager *, DdNodeP a, DdNodeP b) { return bin(a, b, [](Lit x, Lit y) { return neg(And(x, y)); }); }
DdNodeP Cudd_bddNor(DdManager *, DdNodeP a, DdNodeP b) { return bin(a, b, [](Lit x, Lit y) { return neg(Or(x, y)); }); }
DdNodeP Cudd_bddXor(DdManager *, DdNodeP a, DdNodeP b) { return bin(a, b, [](Lit x, Lit y) { return Xor(x, y); }); }
DdNodeP Cudd_bddXnor(DdManager *, DdNodeP a, DdNodeP b) { return bin(a, b, [](Lit x, Lit y) { return Eq(x, y); }); }
DdNodeP Cudd_bddIte(DdManager *m, DdNodeP c, DdNodeP a, DdNodeP b) { return Cudd_bddOr(m, Cudd_bddAnd(m, c, a), Cudd_bddAnd(m, Cudd_Not(c), b)); }
int Cudd_bddLeq(DdManager *m, DdNodeP a, DdNodeP b) {
  countOp(); touch(a); touch(b); size_t n = std::max(sz(a), sz(b)); Tab x = rtab(a, n), y = rtab(b, n); Lit r = sym::T; for (size_t i = 0; i < n; i++) r = And(r, Implies(x[i], y[i]));
  return decide(r);
}
static std::vector<int> cubeVars(DdNodeP cube) { // a positive cube; its table is concrete in every legal use
  std::vector<int> v; size_t n = sz(cube); for (int i = 0; ((size_t)1 << i) < n; i++) if (decide(inSupport(cube, i))) v.push_back(i);
  if (!decide(at(cube, n - 1))) abort();
  return v;
}
static DdNodeP quant(DdNodeP f, DdNodeP cube, bool ex) {
  countOp(); std::vector<int> vs = cubeVars(cube); size_t n = sz(f); Tab t = rtab(f, n);
  for (int v : vs) { size_t m = (size_t)1 << v; if (n <= m) continue; for (size_t i = 0; i < n; i++) if (!(i & m)) { Lit l = ex ? Or(t[i], t[i | m]) : And(t[i], t[i | m]); t[i] = t[i | m] = l; } }
  touch(f); touch(cube); return born(mk(t));
}
DdNodeP Cudd_bddExistAbstract(DdManager *, DdNodeP f, DdNodeP c) { return quant(f, c, true); }
DdNodeP Cudd_bddUnivAbstract(DdManager *, DdNodeP f, DdNodeP c) { return quant(f, c, false); }
DdNodeP Cudd_bddAndAbstract(DdManager *m, DdNodeP f, DdNodeP g, DdNodeP c) { return quant(Cudd_bddAnd(m, f, g), c, true); }
DdNodeP Cudd_bddXorExistAbstract(DdManager *m, DdNodeP f, DdNodeP g, DdNodeP c) { return quant(Cudd_bddXor(m, f, g), c, true); }
DdNodeP Cudd_bddPermute(DdManager *, DdNodeP f, int *perm) {
  countOp(); size_t full = (size_t)1 << NV; Tab r(full); Tab t = rtab(f, sz(f)); int nf = 0; while (((size_t)1 << nf) < t.size()) nf++;
  for (size_t i = 0; i < full; i++) { size_t j = 0; for (int v = 0; v < nf; v++) if (i >> perm[v] & 1) j |= (size_t)1 << v; r[i] = t[j]; }
  touch(f); return born(mk(r));
}
DdNodeP Cudd_bddSwapVariables(DdManager *m, DdNodeP f, DdNodeP *x, DdNodeP *y, int n) {
  std::vector<int> p(NV); for (int i = 0; i < NV; i++) p[i] = i;
  for (int i = 0; i < n; i++) { int a = Cudd_NodeReadIndex(x[i]), b = Cudd_NodeReadIndex(y[i]); p[a] = b; p[b] = a; }
  return Cudd_bddPermute(m, f, p.data());
}
DdNodeP Cudd_bddCompose(DdManager *m, DdNodeP f, DdNodeP g, int v) { return Cudd_bddIte(m, g, cof(f, v, 1), cof(f, v, 0)); }
DdNodeP Cudd_bddVectorCompose(DdManager *m, DdNodeP f, DdNodeP *vec) {
  size_t full = (size_t)1 << NV; Tab t = rtab(f, sz(f)); std::vector<Tab> g; for (int i = 0; i < NV; i++) g.push_back(tab(vec[i])); Tab r(full);
  for (size_t i = 0; i < full; i++) { Tab c = t; for (int v = 0; c.size() > 1; v++) { Tab d; for (size_t k = 0; k < c.size(); k += 2) d.push_back(Ite(g[v][i], c[k + 1], c[k])); c = d; } r[i] = c[0]; }
  return mk(r);
}
static DdNodeP freshBetween(DdNodeP f, DdNodeP c, const char *what) { // any function that agrees with f on c (contract of the don't-care minimisers)
  touch(f); touch(c); static std::map<std::pair<int, int>, int> memo; auto key = std::make_pair(f.id, c.id);
  auto it = memo.find(key); DdNodeP r; if (it != memo.end()) { r.id = it->second; return born(r); }
  static int k = 0; size_t n = std::max(sz(f), sz(c)); Tab x = rtab(f, n), y = rtab(c, n), t(n); std::string nm = std::string(what) + std::to_string(k++) + "_";
  for (size_t i = 0; i < n; i++) t[i] = Ite(y[i], x[i], y[i] == sym::T ? x[i] : (concreteMode ? x[i] : fresh(nm + std::to_string(i))));
  r = mk(t); memo[key] = r.id; return born(r);
}
DdNodeP Cudd_bddRestrict(DdManager *, DdNodeP f, DdNodeP c) { countOp(); return freshBetween(f, c, "restrict"); }
DdNodeP Cudd_bddConstrain(DdManager *, DdNodeP f, DdNodeP c) { countOp(); return freshBetween(f, c, "constrain"); }
DdNodeP Cudd_bddLICompaction(DdManager *, DdNodeP f, DdNodeP c) { countOp(); return freshBetween(f, c, "compaction"); }
DdNodeP Cudd_bddMinimize(DdManager *, DdNodeP f, DdNodeP c) { countOp(); return freshBetween(f, c, "minimize"); }
DdNodeP Cudd_Cofactor(DdManager *m, DdNodeP f, DdNodeP g) { // g: a cube of literals
  size_t n = sz(g); for (int v = 0; ((size_t)1 << v) < n; v++) if (decide(inSupport(g, v))) { DdNodeP g1 = cof(g, v, 1); bool pos = !symNodeEq(g1, Cudd_ReadLogicZero(m)); f = cof(f, v, pos); }
  return f;
}
DdNodeP Cudd_bddComputeCube(DdManager *m, DdNodeP *vars, int *phase, int n) {
  DdNodeP r = m->one; for (int i = 0; i < n; i++) r = Cudd_bddAnd(m, r, (phase == NULL || phase[i]) ? vars[i] : Cudd_Not(vars[i])); return r;
}
DdNodeP Cudd_Support(DdManager *m, DdNodeP f) { DdNodeP r = m->one; size_t n = sz(f); for (int v = 0; ((size_t)1 << v) < n; v++) if (decide(inSupport(f, v))) r = Cudd_bddAnd(m, r, Cudd_bddIthVar(m, v)); return r; }
static int dagRec(DdNodeP f, std::map<size_t, int> &seen) { f = Cudd_Regular(f); size_t a = (size_t)f; if (seen.count(a)) return 0; seen[a] = 1; if (a == ONE_ADDR) return 1; return 1 + dagRec(Cudd_T(f), seen) + dagRec(Cudd_E(f), seen); }
int Cudd_DagSize(DdNodeP f) { std::map<size_t, int> s; return dagRec(f, s); }
double Cudd_CountMinterm(DdManager *, DdNodeP f, int nv) { size_t full = (size_t)1 << NV; Tab t = tab(f); double c = 0; for (Lit l : t) if (decide(l)) c++; double r = c / full; for (int i = 0; i < nv; i++) r *= 2; return r; }
static double pathsRec(DdNodeP f) { size_t a = (size_t)f; if (a == ONE_ADDR) return 1; if (a == (ONE_ADDR | 1)) return 0; size_t c = a & 1; DdNodeP t = Cudd_T(f), e = Cudd_E(f); return pathsRec(c ? Cudd_Not(t) : t) + pathsRec(c ? Cudd_Not(e) : e); }
double Cudd_CountPathsToNonZero(DdNodeP f) { return pathsRec(f); }
#include "dddmp.h"
#include <sstream>
#include <map>
namespace sym { std::function<Lit(unsigned)> loadHook; }
int Dddmp_cuddBddStore(DdManager *, char *, DdNodeP f, char **names, int *ids, int, Dddmp_VarInfoType, char *fname, FILE *fp) {
  sym::Stored s; s.node = f;
  fprintf(fp, ".symbolic %d\n", (int)sym::storedBdds.size()); sym::storedBdds.push_back(s); return DDDMP_SUCCESS;
}
DdNodeP Dddmp_cuddBddLoad(DdManager *m, Dddmp_VarMatchType, char **, int *, int *composeids, int, char *, FILE *fp) {
  char buf[4096]; int k = -1, nHook = -1; bool nodes = false; std::map<long, DdNodeP> n; std::vector<long> ids; long root = 0; DdNodeP r;
  while (fgets(buf, sizeof buf, fp)) {
    if (sscanf(buf, ".symbolic %d", &k) == 1 || sscanf(buf, ".hook %d", &nHook) == 1) break;
    std::istringstream is(buf); std::string w; is >> w; if (w == ".rootids") is >> root; if (w == ".ids") { long v; while (is >> v) ids.push_back(v); } if (w == ".end") break; if (w == ".nodes") { nodes = true; continue; } if (!nodes || w == "") continue;
    std::vector<std::string> f; std::string x; while (is >> x) f.push_back(x); if (f.size() < 3) return DdNodeP(); long t = atol(f[f.size() - 2].c_str()), e = atol(f[f.size() - 1].c_str()), id = atol(w.c_str());
    if (t == 0 && e == 0) { n[id] = Cudd_ReadOne(m); continue; } size_t idx = atol(f[f.size() - 3].c_str()); if (idx >= ids.size() || !n.count(labs(t)) || !n.count(labs(e))) return DdNodeP();
    DdNodeP a = n[labs(t)], b = n[labs(e)]; n[id] = Cudd_bddIte(m, Cudd_bddIthVar(m, composeids[ids[idx]]), t < 0 ? Cudd_Not(a) : a, e < 0 ? Cudd_Not(b) : b);
  }
  if (nHook >= 0 && sym::loadHook) { int nv = sym::nvars(); sym::Tab t((size_t)1 << nv); for (size_t i = 0; i < t.size(); i++) { unsigned a = 0; for (int b = 0; b < nHook; b++) if (i >> composeids[b] & 1) a |= 1u << b; t[i] = sym::loadHook(a); } r = sym::mk(t); }
  else if (k >= 0) { if (k >= (int)sym::storedBdds.size()) return DdNodeP(); r = sym::storedBdds[k].node; }
  else { if (!n.count(labs(root))) return DdNodeP(); r = n[labs(root)]; if (root < 0) r = Cudd_Not(r); }
  Cudd_Ref(r); return r;
}
