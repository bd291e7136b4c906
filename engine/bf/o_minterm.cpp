// C28: the minterm enumerator on symbolic functions and care sets.
#include "layer.h"
#include <memory>
using namespace sym;
// mode 0: f and care set symbolic; 1: care set TRUE; 2: care set symbolic, f a fixed pseudo-random function
static void enumerate(int n, int order, bool careSymbolic) {
  BFManager m; std::vector<BF> p, s; std::vector<int> pi; int cnt = 0;
  auto mk1 = [&](std::vector<BF> &v) { v.push_back(m.newVariable()); return cnt++; };
  if (order == 0) for (int i = 0; i < n; i++) { pi.push_back(mk1(p)); mk1(s); }
  if (order == 1) for (int i = 0; i < n; i++) { mk1(s); pi.push_back(mk1(p)); }
  if (order == 2) { for (int i = 0; i < n; i++) pi.push_back(mk1(p)); for (int i = 0; i < n; i++) mk1(s); }
  if (order == 3) { for (int i = 0; i < n; i++) mk1(s); for (int i = 0; i < n; i++) pi.push_back(mk1(p)); }
  size_t N = 1 << n; Tab f, c; for (size_t i = 0; i < N; i++) f.push_back(fresh("f_" + std::to_string(i))); for (size_t i = 0; i < N; i++) c.push_back(careSymbolic ? fresh("c_" + std::to_string(i)) : T);
  auto lift = [&](const Tab &t) { Tab r; for (size_t a = 0; a < (size_t)1 << (2 * n); a++) { size_t i = 0; for (int v = 0; v < n; v++) if (a >> pi[v] & 1) i |= 1 << v; r.push_back(t[i]); } return r; };
  BF F_ = fromTable(m, lift(f)), C = fromTable(m, lift(c)); Tab before = toTable(F_, 2 * n);
  BFMintermEnumerator e(F_, C, p, s); std::vector<unsigned> fixedSets; int last = 0;
  while (e.hasNextMinterm()) {
    if (fixedSets.size() >= (size_t)1 << n) { broken("more cubes than sets of variables"); return; }
    std::vector<int> r; e.getNextMinterm(r); if ((int)r.size() != n) { broken("a returned cube does not have one entry per variable"); return; }
    unsigned fix = 0, val = 0; for (int i = 0; i < n; i++) { if (r[i] < -1 || r[i] > 1) { broken("a returned cube has an entry outside -1, 0, 1"); return; } if (r[i]) fix |= 1 << i; if (r[i] > 0) val |= 1 << i; }
    Lit in = T, meets = F; for (size_t i = 0; i < N; i++) if ((i & fix) == val) { in = And(in, f[i]); meets = Or(meets, c[i]); }
    check(in, "a returned cube contains a position outside the function"); check(meets, "a returned cube contains no position of the care set");
    for (unsigned q : fixedSets) if ((q & fix) == q) { broken("a returned cube fixes all the variables of an earlier cube"); return; }
    if (__builtin_popcount(fix) < last) { broken("the cubes are not enumerated by increasing number of literals"); return; } last = __builtin_popcount(fix); fixedSets.push_back(fix); witness(1);
  }
  // every cube of the function that meets the care set fixes all the variables of some returned cube
  for (unsigned fix = 0; fix < N; fix++) {
    bool covered = false; for (unsigned q : fixedSets) if ((q & fix) == q) covered = true; if (covered) continue;
    for (unsigned val = 0; val < N; val++) if ((val & ~fix) == 0) { Lit in = T, meets = F; for (size_t i = 0; i < N; i++) if ((i & fix) == val) { in = And(in, f[i]); meets = Or(meets, c[i]); } check(neg(And(in, meets)), "a cube of the function that meets the care set is neither returned nor subsumed by the variables of a returned cube"); }
  }
  Tab after = toTable(F_, 2 * n); Lit eq = T; for (size_t i = 0; i < after.size(); i++) eq = And(eq, Eq(before[i], after[i])); check(eq, "the enumeration changes the function"); std::vector<std::string> ev; refEvents(ev); if (ev.size()) broken(ev[0]); witness(0);
}
static TaskReg m1("minterms", [](int n, int) { enumerate(n, choose("order", 4), true); });
static TaskReg m2("mintermsEverywhere", [](int n, int k) { enumerate(n, k > 3 ? choose("order", 4) : k, false); });
static TaskReg m3("mintermsOrder", [](int n, int k) { enumerate(n, k, true); });
