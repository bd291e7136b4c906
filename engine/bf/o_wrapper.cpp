// C27: the BF classes against their meaning. Operand functions are symbolic truth tables, the sequence of operations is chosen
// symbolically, reference counts are compared with the handles that are alive.
#include "layer.h"
#include <memory>
using namespace sym;
namespace {
struct World {
  BFManager m; int n; std::vector<BF> vars; std::vector<std::unique_ptr<BF>> s; std::vector<Tab> t; std::vector<int> valid; // valid: 1 holds t, 0 default-constructed, -1 moved from
  std::vector<std::unique_ptr<BFVarCube>> cubes; std::vector<std::unique_ptr<BFVarVector>> vectors;
  World(int _n, int slots, int symbolic) : n(_n) {
    for (int i = 0; i < n; i++) vars.push_back(m.newVariable());
    for (int k = 0; k < slots; k++) {
      Tab a; if (k < symbolic) for (int i = 0; i < 1 << n; i++) a.push_back(fresh("f" + std::to_string(k) + "_" + std::to_string(i)));
      t.push_back(a); valid.push_back(k < symbolic); s.emplace_back(k < symbolic ? new BF(fromTable(m, a)) : new BF());
    }
  }
  void late(int k) { Tab a; for (int i = 0; i < 1 << n; i++) a.push_back(fresh("f" + std::to_string(k) + "_" + std::to_string(i))); t[k] = a; *s[k] = fromTable(m, a); valid[k] = 1; }
  void verify(const std::string &what) {
    std::vector<std::string> ev; refEvents(ev); if (ev.size()) broken(what + ": " + ev[0]);
    std::vector<NodeRef> held; for (auto &o : s) if (o->isValid()) held.push_back(o->node);
    for (auto &v : vars) held.push_back(v.node);
    for (auto &c : cubes) if (!(c->cube == NULL)) held.push_back(c->cube);
    for (auto &v : vectors) for (int i = 0; i < v->nofNodes; i++) held.push_back(v->nodes[i]);
    std::map<KeyType, long> holders; for (auto &x : held) holders[key(x)]++;
    for (auto &x : held) if (refs(x) < holders[key(x)]) broken(what + ": a node has fewer references than handles that hold it");
    for (size_t k = 0; k < s.size(); k++) {
      if (valid[k] == 0 && s[k]->isValid()) broken(what + ": an empty handle became valid");
      if (valid[k] != 1) continue;
      if (!s[k]->isValid()) broken(what + ": a handle lost its function");
      Tab g = toTable(*s[k], n); Lit eq = T; for (size_t i = 0; i < g.size(); i++) eq = And(eq, Eq(g[i], t[k][i]));
      check(eq, what + ": handle " + std::to_string(k) + " denotes a wrong function");
    }
  }
#ifdef REAL
  typedef DdNode *KeyType; static DdNode *key(DdNode *x) { return Cudd_Regular(x); }
#else
  typedef int KeyType; static int key(DdNodeP x) { return refKey(x); }
#endif
  Tab quant(const Tab &f, int mask, bool ex) { Tab r = f; for (int v = 0; v < n; v++) if (mask >> v & 1) for (size_t i = 0; i < r.size(); i++) if (!(i >> v & 1)) { size_t j = i | 1 << v; r[i] = r[j] = ex ? Or(r[i], r[j]) : And(r[i], r[j]); } return r; }
  std::vector<BF> some(int mask) { std::vector<BF> v; for (int i = 0; i < n; i++) if (mask >> i & 1) v.push_back(vars[i]); return v; }
};
template <class OP> Tab zip(const Tab &a, const Tab &b, OP op) { Tab r; for (size_t i = 0; i < a.size(); i++) r.push_back(op(a[i], b[i])); return r; }
Lit Not_(Lit a) { return neg(a); }
Lit all(const Tab &a) { Lit r = T; for (Lit l : a) r = And(r, l); return r; }
Lit eqT(const Tab &a, const Tab &b) { return all(zip(a, b, [](Lit x, Lit y) { return Eq(x, y); })); }
Lit leT(const Tab &a, const Tab &b) { return all(zip(a, b, [](Lit x, Lit y) { return Implies(x, y); })); }
Tab notT(const Tab &a) { Tab r; for (Lit l : a) r.push_back(neg(l)); return r; }
void truth(bool got, Lit want, const std::string &what) { witness(got ? 1 : 2); check(got ? want : neg(want), what + " has the wrong truth value"); }
bool functional(World &w, int op, int d, int x, int y, int mask, std::string &nm) { // the handle d receives the result
  if (w.valid[x] != 1 || w.valid[y] != 1) return false;
  const BF &a = *w.s[x], &b = *w.s[y]; Tab A = w.t[x], B = w.t[y], R; std::vector<BF> sel;
  switch (op) {
    case 0: nm = "&"; *w.s[d] = a & b; R = zip(A, B, And); break;
    case 1: nm = "|"; *w.s[d] = a | b; R = zip(A, B, Or); break;
    case 2: nm = "-"; *w.s[d] = a - b; R = zip(A, B, [](Lit p, Lit q) { return And(p, neg(q)); }); break;
    case 3: nm = "^"; *w.s[d] = a ^ b; R = zip(A, B, Xor); break;
    case 4: nm = "Implies"; *w.s[d] = a.Implies(b); R = zip(A, B, Implies); break;
    case 5: nm = "!"; *w.s[d] = !a; R = notT(A); break;
    case 6: { nm = "ExistAbstract"; sel = w.some(mask); *w.s[d] = a.ExistAbstract(w.m.computeCube(sel)); R = w.quant(A, mask, true); break; }
    case 7: { nm = "UnivAbstract"; sel = w.some(mask); *w.s[d] = a.UnivAbstract(w.m.computeCube(sel)); R = w.quant(A, mask, false); break; }
    case 8: { nm = "AndAbstract"; sel = w.some(mask); *w.s[d] = a.AndAbstract(b, w.m.computeCube(sel)); R = w.quant(zip(A, B, And), mask, true); break; }
    case 9: nm = "ExistAbstractSingleVar"; if (mask >= w.n) return false; *w.s[d] = a.ExistAbstractSingleVar(w.vars[mask]); R = w.quant(A, 1 << mask, true); break;
    case 10: nm = "UnivAbstractSingleVar"; if (mask >= w.n) return false; *w.s[d] = a.UnivAbstractSingleVar(w.vars[mask]); R = w.quant(A, 1 << mask, false); break;
    case 11: { nm = "SwapVariables"; std::vector<BF> p, q; std::vector<int> perm(w.n); for (int i = 0; i < w.n; i++) perm[i] = i; // mask: which neighbours are exchanged, and (last bit) the order of the two vectors
      for (int i = 0; i + 1 < w.n; i++) if (mask >> i & 1) { if (i && (mask >> (i - 1) & 1)) return false; bool f = mask >> (w.n - 1) & 1; (f ? q : p).push_back(w.vars[i]); (f ? p : q).push_back(w.vars[i + 1]); perm[i] = i + 1; perm[i + 1] = i; }
      *w.s[d] = a.SwapVariables(w.m.computeVarVector(p), w.m.computeVarVector(q)); for (size_t i = 0; i < A.size(); i++) { size_t j = 0; for (int v = 0; v < w.n; v++) if (i >> v & 1) j |= 1 << perm[v]; R.push_back(A[j]); } break; }
    case 12: case 13: { nm = op == 12 ? "optimizeRestrict" : "minimizeUsingCareSet"; Lit nonempty = F; for (Lit l : B) nonempty = Or(nonempty, l); if (!decide(nonempty)) return false;
      std::unique_ptr<BF> r(new BF(op == 12 ? a.optimizeRestrict(b) : a.minimizeUsingCareSet(b))); Tab g = toTable(*r, w.n); check(all(zip(zip(g, A, Eq), B, [](Lit e, Lit c) { return Implies(c, e); })), nm + ": the result differs from the function inside the care set"); *w.s[d] = *r; R = g; break; }
    case 14: nm = "constantTrue"; *w.s[d] = w.m.constantTrue(); R = Tab(A.size(), T); break;
    case 15: nm = "constantFalse"; *w.s[d] = w.m.constantFalse(); R = Tab(A.size(), F); break;
    case 16: nm = "multiAnd"; { std::vector<BF> v; R = Tab(A.size(), T); for (int i = 0; i < 2; i++) for (int k = 0; k < (mask >> (2 * i) & 3); k++) { v.push_back(i ? b : a); R = zip(R, i ? B : A, And); } *w.s[d] = w.m.multiAnd(v); } break;
    case 17: nm = "multiOr"; { std::vector<BF> v; R = Tab(A.size(), F); for (int i = 0; i < 2; i++) for (int k = 0; k < (mask >> (2 * i) & 3); k++) { v.push_back(i ? b : a); R = zip(R, i ? B : A, Or); } *w.s[d] = w.m.multiOr(v); } break;
    default: return false;
  }
  w.t[d] = R; w.valid[d] = 1; return true;
}
const int FUNCTIONAL = 18;
bool usesMask(int op) { return (op >= 6 && op <= 11) || op >= 16; }
bool ownership(World &w, int op, int d, int x, std::string &nm) {
  switch (op) {
    case 0: nm = "copy assignment"; if (w.valid[x] == -1) return false; *w.s[d] = *w.s[x]; w.t[d] = w.t[x]; w.valid[d] = w.valid[x]; return true;
    case 1: nm = "move assignment"; if (w.valid[x] == -1) return false; { BF &src = *w.s[x]; *w.s[d] = std::move(src); if (d != x) { w.t[d] = w.t[x]; w.valid[d] = w.valid[x]; w.valid[x] = -1; } } return true;
    case 2: nm = "copy construction"; if (w.valid[x] == -1) return false; { std::unique_ptr<BF> c(new BF(*w.s[x])); w.s[d] = std::move(c); w.t[d] = w.t[x]; w.valid[d] = w.valid[x]; } return true;
    case 3: nm = "move construction"; if (w.valid[x] == -1 || d == x) return false; { std::unique_ptr<BF> c(new BF(std::move(*w.s[x]))); w.s[d] = std::move(c); w.t[d] = w.t[x]; w.valid[d] = w.valid[x]; w.valid[x] = -1; } return true;
    case 4: nm = "destruction"; w.s[d].reset(new BF()); w.valid[d] = 0; return true;
    case 5: nm = "&="; if (w.valid[d] != 1 || w.valid[x] != 1) return false; *w.s[d] &= *w.s[x]; w.t[d] = zip(w.t[d], w.t[x], And); return true;
    case 6: nm = "|="; if (w.valid[d] != 1 || w.valid[x] != 1) return false; *w.s[d] |= *w.s[x]; w.t[d] = zip(w.t[d], w.t[x], Or); return true;
    case 7: nm = "vector growth"; if (w.valid[x] != 1 || w.valid[d] == -1) return false; { std::vector<BF> v; for (int i = 0; i < 3; i++) v.push_back(i == 1 ? *w.s[d] : *w.s[x]); v.erase(v.begin()); v.insert(v.begin(), v.back()); *w.s[d] = v[0]; w.t[d] = w.t[x]; w.valid[d] = 1; } return true;
    case 8: nm = "swap"; if (w.valid[x] == -1 || w.valid[d] == -1) return false; std::swap(*w.s[d], *w.s[x]); if (d != x) { std::swap(w.t[d], w.t[x]); std::swap(w.valid[d], w.valid[x]); } return true;
    case 9: nm = "returning by value"; if (w.valid[x] != 1) return false; { auto f = [&](bool b) { BF r = *w.s[x]; if (b) return r; BF q = !r; return q; }; *w.s[d] = f(d != x); Tab a = w.t[x]; w.t[d] = d != x ? a : notT(a); w.valid[d] = 1; } return true;
  }
  return false;
}
const int OWNERSHIP = 10;
void predicates(World &w, const BF &a, const BF &b, const Tab &A, const Tab &B, int k) {
  Lit one = all(A), zero = all(notT(A));
  if (k == 0) truth(a.isTrue(), one, "isTrue");
  if (k == 1) truth(a.isFalse(), zero, "isFalse");
  if (k == 2) truth(a.isConstant(), Or(one, zero), "isConstant");
  if (k == 3) truth(a == b, eqT(A, B), "==");
  if (k == 4) truth(a != b, neg(eqT(A, B)), "!=");
  if (k == 5) truth(a <= b, leT(A, B), "<=");
  if (k == 6) truth(a >= b, leT(B, A), ">=");
  if (k == 7) truth(a < b, And(leT(A, B), neg(eqT(A, B))), "<");
  if (k == 8) truth(a > b, And(leT(B, A), neg(eqT(A, B))), ">");
  if (k == 9) truth(a.ReachedLeastFixedPoint(b), eqT(A, B), "ReachedLeastFixedPoint");
  if (k == 10) truth(a.ReachedGratestFixedPoint(b), eqT(A, B), "ReachedGratestFixedPoint");
  if (k == 11) truth(a.getHashCode() == b.getHashCode(), eqT(A, B), "equality of hash codes");
  if (k == 12) { // the count is concrete, so the number of ones is decided
    std::vector<BF> v = w.vars; double c = a.getNofSatisfyingAssignments(w.m.computeCube(v)), n = 0; for (Lit l : A) if (decide(l)) n++; witness(1); if (c != n) broken("getNofSatisfyingAssignments returns " + std::to_string(c) + " instead of " + std::to_string(n)); }
}
const int PREDICATES = 13;
}
static TaskReg r1("operators", [](int n, int) { // every operator on all operand functions
  World w(n, 3, 2); int op = choose("op", FUNCTIONAL), d = choose("dest", 3), x = choose("x", 2), y = choose("y", 2); int mask = usesMask(op) ? choose("mask", op >= 16 ? 16 : 1 << n) : 0; std::string nm;
  if (!functional(w, op, d, x, y, mask, nm)) return; witness(0); w.verify(nm);
});
static TaskReg r2("predicates", [](int n, int) { World w(n, 3, 2); int k = choose("op", PREDICATES), x = choose("x", 2), y = choose("y", 2); predicates(w, *w.s[x], *w.s[y], w.t[x], w.t[y], k); witness(0); w.verify("a comparison"); });
static TaskReg r3("ownership", [](int n, int k) { // histories of assignments, copies, moves, destructions and updates
  World w(n, 3, 2); std::string nm; for (int i = 0; i < k; i++) { std::string q = std::to_string(i); int op = choose("op" + q, OWNERSHIP), d = choose("d" + q, 3), x = choose("x" + q, 3); if (!ownership(w, op, d, x, nm)) return; w.verify("step " + q + " (" + nm + ")"); } witness(0);
  for (size_t i = 0; i < w.s.size(); i++) { w.s[i].reset(new BF()); w.valid[i] = 0; w.verify("final destruction"); }
});
static TaskReg r4("histories", [](int n, int k) { // operators and ownership operations mixed
  World w(n, 3, 2); std::string nm; for (int i = 0; i < k; i++) { std::string q = std::to_string(i); int op = choose("op" + q, FUNCTIONAL + OWNERSHIP), d = choose("d" + q, 3), x = choose("x" + q, 2); bool ok = op < FUNCTIONAL ? functional(w, op, d, x, 1 - x, usesMask(op) ? 1 + choose("mask" + q, 3) : 0, nm) : ownership(w, op - FUNCTIONAL, d, x, nm); if (!ok) return; w.verify("step " + q + " (" + nm + ")"); } witness(0);
});
static TaskReg r5("aggregates", [](int n, int k) { // cubes and variable vectors: construction, copies, assignments, destruction
  World w(n, 1, 0); int mask[3] = {0, 0, 0}, vmask[3] = {0, 0, 0}; bool set[3] = {false, false, false}, vset[3] = {false, false, false};
  for (int i = 0; i < 3; i++) { w.cubes.emplace_back(new BFVarCube()); w.vectors.emplace_back(new BFVarVector()); }
  for (int i = 0; i < k; i++) { std::string q = std::to_string(i); int op = choose("op" + q, 9), d = choose("d" + q, 3), x = choose("x" + q, 3), m = op == 0 || op == 5 ? choose("m" + q, 1 << n) : op == 4 ? choose("v" + q, n) : 0; std::vector<BF> v = w.some(m);
    if (op == 0) { *w.cubes[d] = w.m.computeCube(v); mask[d] = m; set[d] = true; }
    if (op == 1) { *w.cubes[d] = *w.cubes[x]; mask[d] = mask[x]; set[d] = set[x]; }
    if (op == 2) { std::unique_ptr<BFVarCube> c(new BFVarCube(*w.cubes[x])); w.cubes[d] = std::move(c); mask[d] = mask[x]; set[d] = set[x]; }
    if (op == 3) { w.cubes[d].reset(new BFVarCube()); set[d] = false; }
    if (op == 4) { w.cubes[d].reset(new BFVarCube(w.vars[m])); mask[d] = 1 << m; set[d] = true; }
    if (op == 5) { *w.vectors[d] = w.m.computeVarVector(v); vmask[d] = m; vset[d] = true; }
    if (op == 6) { *w.vectors[d] = *w.vectors[x]; vmask[d] = vmask[x]; vset[d] = vset[x]; }
    if (op == 7) { std::unique_ptr<BFVarVector> c(new BFVarVector(*w.vectors[x])); w.vectors[d] = std::move(c); vmask[d] = vmask[x]; vset[d] = vset[x]; }
    if (op == 8) { w.vectors[d].reset(new BFVarVector()); vset[d] = false; }
    w.verify("step " + q); }
  w.late(0); // only now: an operand that happens to share a node with a cube would keep it alive
  for (int c = 0; c < 3; c++) {
    if (set[c]) { int bits = 0; for (int i = 0; i < n; i++) bits += mask[c] >> i & 1; if (w.cubes[c]->size() != bits) broken("size of a variable cube"); BF r = w.s[0]->ExistAbstract(*w.cubes[c]); check(eqT(toTable(r, n), w.quant(w.t[0], mask[c], true)), "quantification over an assigned or copied cube"); }
    if (vset[c] && vset[0] && c && vmask[c] && vmask[0] == 1 && vmask[c] == 2) { BF r = w.s[0]->SwapVariables(*w.vectors[0], *w.vectors[c]); Tab R; for (size_t i = 0; i < w.t[0].size(); i++) R.push_back(w.t[0][(i & ~3) | (i & 1) << 1 | (i >> 1 & 1)]); check(eqT(toTable(r, n), R), "swapping of assigned or copied variable vectors"); witness(1); }
  }
  for (int c = 0; c < 3; c++) { w.cubes[c].reset(new BFVarCube()); w.vectors[c].reset(new BFVarVector()); w.verify("destruction"); } witness(0);
});
static TaskReg r6("phases", [](int n, int) { // cubes with chosen phases, as an array
  World w(n, 1, 0); std::vector<BF> v; std::vector<int> ph; Tab R(1 << n, T); for (int i = 0; i < n; i++) { int c = choose("c" + std::to_string(i), 3); if (c == 2) continue; v.push_back(w.vars[i]); ph.push_back(c); for (size_t j = 0; j < R.size(); j++) if ((int)(j >> i & 1) != c) R[j] = F; }
  BFVarCube c = w.m.computeCube(v.data(), ph.data(), (int)v.size()); if (c.size() != (int)v.size()) broken("size of a cube"); BF f(&w.m, c.cube); check(eqT(toTable(f, n), R), "computeCube with phases"); witness(0); w.verify("computeCube with phases");
});
