#include "layer.h"
#include <fstream>
#include <iostream>
#include <cstdlib>
#include <sstream>
using namespace sym;
std::vector<Task> &tasks() { static std::vector<Task> t; return t; }
static std::map<std::string, int> val; static std::vector<std::string> events;
namespace sym {
Lit fresh(const std::string &n) { auto it = val.find(n); return it == val.end() ? 0 : it->second; }
void check(Lit a, const std::string &m) { if (!a) broken(m); }
}
void broken(const std::string &m) { std::cout << "REPRODUCED " << m << std::endl; std::exit(1); }
static DdManager *lastManager = nullptr;
static DdManager *M(BFManager &m) { return m.getMgr(); }
BF fromTable(BFManager &m, const Tab &t) { // disjunction of minterms over the table's variables, built without the wrapper's operators
  int n = 0; while (((size_t)1 << n) < t.size()) n++;
  DdNode *r = Cudd_ReadLogicZero(M(m)); Cudd_Ref(r);
  for (size_t i = 0; i < t.size(); i++) if (t[i]) {
    DdNode *c = Cudd_ReadOne(M(m)); Cudd_Ref(c);
    for (int v = 0; v < n; v++) { DdNode *x = Cudd_bddIthVar(M(m), v), *d = Cudd_bddAnd(M(m), c, (i >> v & 1) ? x : Cudd_Not(x)); Cudd_Ref(d); Cudd_RecursiveDeref(M(m), c); c = d; }
    DdNode *d = Cudd_bddOr(M(m), r, c); Cudd_Ref(d); Cudd_RecursiveDeref(M(m), c); Cudd_RecursiveDeref(M(m), r); r = d;
  }
  lastManager = M(m); BF b(&m, r); Cudd_RecursiveDeref(M(m), r); return b;
}
Tab toTable(const BF &f, int n) {
  Tab r; DdManager *d = f.manager()->getMgr(); std::vector<int> in(Cudd_ReadSize(d) + n + 1);
  for (size_t i = 0; i < ((size_t)1 << n); i++) { for (int v = 0; v < n; v++) in[v] = i >> v & 1; r.push_back(Cudd_Eval(d, f.getCuddNode(), in.data()) == Cudd_ReadOne(d)); }
  return r;
}

long refs(NodeRef f) { DdNode *r = Cudd_Regular(f); if (lastManager && r->index != CUDD_CONST_INDEX && lastManager->vars[r->index] == r) return (long)r->ref - 1; return r->ref; } // projection functions have a permanent reference
void refEvents(std::vector<std::string> &v) { v = events; events.clear(); }
int choose(const std::string &name, int n) { int v = 0, i = 0; for (int k = 1; k < n; k *= 2, i++) if (fresh(name + "." + std::to_string(i))) v |= 1 << i; return v; }
extern "C" {
static void use(DdNode *n, const char *what) { if (n && Cudd_Regular(n)->ref == 0) events.push_back(std::string("a node that was dereferenced for the last time is used by ") + what); }
static std::map<DdNode *, bool> died;
static DdNode *born(DdNode *n) { if (n) died.erase(Cudd_Regular(n)); return n; }
void __real_Cudd_Ref(DdNode *); void __wrap_Cudd_Ref(DdNode *n) { if (n && died.count(Cudd_Regular(n))) events.push_back("a node that was dereferenced for the last time is used by Cudd_Ref"); __real_Cudd_Ref(n); born(n); }
void __real_Cudd_RecursiveDeref(DdManager *, DdNode *);
void __wrap_Cudd_RecursiveDeref(DdManager *m, DdNode *n) { use(n, "Cudd_RecursiveDeref"); __real_Cudd_RecursiveDeref(m, n); if (Cudd_Regular(n)->ref == 0) died[Cudd_Regular(n)] = true; cuddGarbageCollect(m, 1); }
#define W2(N) DdNode *__real_##N(DdManager *, DdNode *, DdNode *); DdNode *__wrap_##N(DdManager *m, DdNode *a, DdNode *b) { use(a, #N); use(b, #N); return born(__real_##N(m, a, b)); }
W2(Cudd_bddAnd) W2(Cudd_bddOr) W2(Cudd_bddXor) W2(Cudd_bddExistAbstract) W2(Cudd_bddUnivAbstract) W2(Cudd_bddRestrict) W2(Cudd_bddLICompaction)
int __real_Cudd_bddLeq(DdManager *, DdNode *, DdNode *); int __wrap_Cudd_bddLeq(DdManager *m, DdNode *a, DdNode *b) { use(a, "Cudd_bddLeq"); use(b, "Cudd_bddLeq"); return __real_Cudd_bddLeq(m, a, b); }
DdNode *__real_Cudd_bddAndAbstract(DdManager *, DdNode *, DdNode *, DdNode *); DdNode *__wrap_Cudd_bddAndAbstract(DdManager *m, DdNode *a, DdNode *b, DdNode *c) { use(a, "Cudd_bddAndAbstract"); use(b, "Cudd_bddAndAbstract"); use(c, "Cudd_bddAndAbstract"); return born(__real_Cudd_bddAndAbstract(m, a, b, c)); }
}
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); std::string l, k, name; int a = 0, b = 0, v;
  while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream is(l); is >> k; if (k == "check") { is >> name >> a >> b; break; } }
  while (f >> k >> v) val[k] = v;
  for (auto &t : tasks()) if (t.name == name) { t.body(a, b); std::cout << "NOT-REPRODUCED" << std::endl; return 0; }
  return 2;
}
