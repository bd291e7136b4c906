// C14: --analyzeInitialPositions
#include <cstring>
#include "machine.h"
using namespace sym;
static Lit countIs(const LV &v, long n) { std::vector<Lit> c(v.size() + 2, F); c[0] = T; for (Lit l : v) for (int k = v.size(); k >= 0; k--) c[k] = Or(And(c[k], neg(l)), k ? And(c[k - 1], l) : F); return n < 0 || n > (long)v.size() ? F : c[n]; }
static LV andv(const LV &a, const LV &b) { LV r; for (size_t i = 0; i < a.size(); i++) r.push_back(And(a[i], b[i])); return r; }
static LV notv(const LV &a) { LV r; for (Lit l : a) r.push_back(neg(l)); return r; }
static std::function<void(const Spec &, const Run &)> initPos(bool reach) { return [reach](const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  int S = s.S(); LV W = refWinning(s), A, G = s.initSys, care(S, T); for (int x = 0; x < S; x++) A.push_back(s.initEnv[s.inOf(x)]);
  if (reach) { care = andv(A, G); for (int k = 0; k < S; k++) { LV n = care; for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) n[t] = Or(n[t], AndAll({care[x], s.env(x, s.inOf(t)), s.sys(x, t)})); if (n == care) break; care = n; } }
  LV inCare(s.NI(), F), winIn(s.NI(), F), allowed, losing, all; for (int x = 0; x < S; x++) { inCare[s.inOf(x)] = Or(inCare[s.inOf(x)], care[x]); winIn[s.inOf(x)] = Or(winIn[s.inOf(x)], And(W[x], G[x])); }
  for (int i = 0; i < s.NI(); i++) { allowed.push_back(And(s.initEnv[i], inCare[i])); losing.push_back(AndAll({s.initEnv[i], inCare[i], neg(winIn[i])})); }
  std::vector<std::string> l = lines(r.out); size_t p = 0; auto next = [&]() -> std::string { while (p < l.size() && l[p] == "") p++; if (p >= l.size()) fail("output ends early"); return l[p++]; };
  auto num = [&](const std::string &title, const LV &v, const LV &of) { std::string t = next(); if (t.compare(0, title.size(), title)) fail("expected '" + title + "' but got: " + t); char *e; std::string q = t.substr(title.size()); double a = strtod(q.c_str(), &e); if (strncmp(e, " out of ", 8)) fail("malformed line: " + t); double b = strtod(e + 8, &e); if (*e || a != (long)a || b != (long)b) fail("malformed number: " + t); check(countIs(v, (long)a), "wrong number: " + t); check(countIs(of, (long)b), "wrong total: " + t); };
  num("Number of winning positions: ", andv(W, care), care);
  num("Number of winning positions satisfying the initialization assumptions: ", andv(andv(W, A), care), andv(A, care));
  num("Number of winning positions satisfying the initialization guarantees: ", andv(andv(W, G), care), andv(G, care));
  num("Number of winning positions satisfying the initialization assumptions and guarantees: ", andv(andv(W, andv(A, G)), care), andv(andv(A, G), care));
  num("Number of initial input assignments that are allowed for the environment: ", allowed, inCare);
  num("Number of initial input assignments that force the system to move to a losing position: ", losing, inCare);
  LV noIn(S, T); for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) noIn[x] = And(noIn[x], neg(s.env(x, i)));
  auto cubes = [&](const std::string &title, const LV &set) {
    std::string t = next(); while (t.size() && t[t.size() - 1] == ' ') t.erase(t.size() - 1); if (t != title) fail("expected '" + title + "' but got: " + t);
    Lit full = T, none = T; for (int x = 0; x < S; x++) { full = And(full, Implies(care[x], set[x])); none = And(none, neg(And(care[x], set[x]))); }
    int n = 0; Lit ok = T;
    while (p < l.size() && l[p] != "") { std::string q = l[p++]; n++;
      if (q == "- TRUE") { if (n > 1) fail("TRUE among cubes"); check(full, "announces TRUE for a set that is not everything: " + title); witness(0); return; }
      if (q == "--(none)") { if (n > 1) fail("(none) among cubes"); check(none, "announces (none) for a set that is not empty: " + title); witness(1); return; }
      if (q.compare(0, 2, " -")) fail("unexpected line: " + q); std::istringstream is(q.substr(2)); std::string w; std::map<int, bool> c;
      while (is >> w) { bool pos = w[0] != '!'; if (!pos) w = w.substr(1); int b = -1; for (int k = 0; k < s.n(); k++) if (w == (k < s.nIn ? "i" + std::to_string(k) : "o" + std::to_string(k - s.nIn))) b = k; if (b < 0) fail("unknown variable in cube: " + q); if (c.count(b)) fail("variable twice in cube: " + q); c[b] = pos; }
      for (int x = 0; x < S; x++) { bool in = true; for (auto &k : c) in = in && ((x >> k.first & 1) != 0) == k.second; if (in) ok = And(ok, Implies(care[x], set[x])); } }
    witness(2); check(neg(full), "the set is everything but this is not announced: " + title); check(neg(none), "the set is empty but this is not announced: " + title); if (!n) fail("no cube is listed: " + title); if (n > 7) fail("too many cubes"); check(ok, "a cube contains a position outside the announced set: " + title); };
  LV L = notv(W);
  cubes("Some cubes of winning positions:", W); cubes("Some cubes of non-winning positions:", L);
  cubes("Some cubes of winning positions satisfying the initialization assumptions:", andv(W, A)); cubes("Some cubes of non-winning positions satisfying the initialization assumptions:", andv(L, A));
  cubes("Some cubes of winning positions satisfying the initialization guarantees:", andv(W, G)); cubes("Some cubes of non-winning positions satisfying the initialization guarantees:", andv(L, G));
  cubes("Some cubes of winning positions satisfying the initialization assumptions & guarantees:", andv(W, andv(A, G))); cubes("Some cubes of non-winning positions satisfying the initialization assumptions & guarantees:", andv(L, andv(A, G)));
  cubes("Some positions from which the environment player cannot prevent to violate some safety assumptions:", andv(W, noIn));
}; }
static Reg r_a("initPos", CheckDef({"--analyzeInitialPositions"}, 0, initPos(false)));
static Reg r_b("initPosReach", CheckDef({"--analyzeInitialPositions", "--restrictToReachableStates"}, 0, initPos(true)));
