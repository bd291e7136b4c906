// C24: estimators under incomplete information.
#include "harness.h"
using namespace sym;
namespace {
// the printed DAG "$ n e0 e1 ...": prefix formulas; "? k" is the value of e_k; the last one counts
struct Dag {
  std::vector<std::string> w; size_t p; std::vector<bool> val; std::map<std::string, int> bit; unsigned a;
  bool expr() { if (p >= w.size()) fail("a printed formula ends too early"); std::string t = w[p++];
    if (t == "1") return true; if (t == "0") return false; if (t == "!") return !expr(); if (t == "&") { bool x = expr(), y = expr(); return x && y; } if (t == "|") { bool x = expr(), y = expr(); return x || y; }
    if (t == "?") { if (p >= w.size()) fail("a printed formula ends too early"); size_t k = atoi(w[p++].c_str()); if (k >= val.size()) fail("a printed formula refers to a later part"); return val[k]; }
    if (!bit.count(t)) fail("a printed formula mentions " + t); return a >> bit[t] & 1; }
  bool eval(unsigned assignment) { a = assignment; p = 0; val.clear(); if (w.size() < 2 || w[0] != "$") { bool r = expr(); if (p != w.size()) fail("text after a printed formula"); return r; } int n = atoi(w[1].c_str()); p = 2; for (int k = 0; k < n; k++) val.push_back(expr()); if (p != w.size() || n < 1) fail("a printed formula has superfluous or missing parts"); return val.back(); }
};
LV reach(const Spec &s, const LV &init, const std::function<Lit(int, int)> &tr) { int S = s.S(); LV r = init; for (int k = 1; k < S; k++) { LV q = r; for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) q[t] = Or(q[t], And(r[x], tr(x, t))); if (q == r) break; r = q; } return r; }
void estimator(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  std::vector<std::string> l = lines(r.out), f[2]; for (size_t k = 0; k + 1 < l.size(); k++) { if (l[k] == "[SYS_TRANS]") f[0].push_back(l[k + 1]); if (l[k] == "[ENV_TRANS]") f[1].push_back(l[k + 1]); }
  if (f[0].size() != 1 || f[1].size() != 1) fail("the estimator and the environment abstraction are not both printed");
  int S = s.S(), n = s.n(), U = (1 << nUnobs(s.nIn)) - 1, nE = s.nOut; // bits of the unobservable inputs
  Dag d[2]; for (int k = 0; k < 2; k++) { std::istringstream is(f[k][0]); std::string w; while (is >> w) d[k].w.push_back(w); for (int b = nUnobs(s.nIn); b < n; b++) { std::string v = b < s.nIn ? "i" + std::to_string(b) : outName(b - s.nIn); d[k].bit[v] = b; if (!(k == 1 && b >= s.nIn) && !(k == 1 && b >= s.nIn - nCtlIn(s.nIn))) d[k].bit[v + "'"] = b + n; } }
  std::vector<char> St(S * S), En(S * S); for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) { St[x + S * t] = d[0].eval(x | t << n); En[x + S * t] = d[1].eval(x | t << n); }
  auto env = [&](int x, int t) { return s.env(x, s.inOf(t)); }; auto B = [](char c) { return c ? T : F; };
  LV init(S); for (int x = 0; x < S; x++) init[x] = And(s.initEnv[s.inOf(x)], s.initSys[x]);
  LV R1 = reach(s, init, [&](int x, int t) { return And(env(x, t), s.sys(x, t)); }), R2 = reach(s, init, [&](int x, int t) { return And(env(x, t), B(St[x + S * t])); });
  // soundness: in the closed loop of the assumptions and the printed estimator no estimator constraint is ever violated
  Lit ok = T; for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) if (St[x + S * t]) ok = And(ok, Implies(And(R2[x], env(x, t)), s.sys(x, t)));
  check(ok, "the estimator can follow its rules while the assumptions hold and violate its constraints for some values of the unobservable inputs");
  // the most general estimator, refined so that min_ bits (max_ bits) are TRUE (FALSE) whenever possible, later declared bits first
  LV M(S * S); for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) if (!((x | t) & U)) { Lit bad = F; for (int u = 0; u <= U; u++) for (int v = 0; v <= U; v++) bad = Or(bad, And(And(R1[x | u], env(x | u, t | v)), neg(s.sys(x | u, t | v)))); for (int u = 0; u <= U; u++) for (int v = 0; v <= U; v++) M[(x | u) + S * (t | v)] = neg(bad); }
  LV sound = M;
  for (int e = nE - 1; e >= 0; e--) { std::string nm = outName(e); int pref = nm.compare(0, 4, "min_") == 0 ? 1 : nm.compare(0, 4, "max_") == 0 ? 0 : -1; if (pref < 0) continue; LV N = M;
    for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) { Lit can = F; for (int o = 0; o < s.NO(); o++) if ((o >> e & 1) == pref) can = Or(can, M[x + S * s.st(i, o)]); for (int o = 0; o < s.NO(); o++) if ((o >> e & 1) != pref) N[x + S * s.st(i, o)] = And(M[x + S * s.st(i, o)], neg(can)); }
    M = N; }
  Lit eq = T, within = T, live = T; for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) { Lit could = F; bool can = false; for (int o = 0; o < s.NO(); o++) { int k = x + S * s.st(i, o); eq = And(eq, Eq(M[k], B(St[k]))); within = And(within, Implies(B(St[k]), sound[k])); could = Or(could, sound[k]); can = can || St[k]; } live = And(live, Implies(could, B(can))); }
  check(within, "the printed estimator allows an update that is wrong for some values of the unobservable inputs"); check(live, "the printed estimator has no update although there is a sound one"); check(eq, "the printed estimator is not the most general one with the preferred values of min_ and max_ bits");
  // the environment abstraction: exactly the observable behaviour of the closed loop
  Lit ea = T, sound2 = T; int obs = s.NI() - 1 - U; if (nCtlIn(s.nIn)) obs &= ~(1 << (s.nIn - 1));
  std::vector<Lit> P(S * s.NI(), F); for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) P[(x & ~U) + S * (i & obs)] = Or(P[(x & ~U) + S * (i & obs)], And(R2[x], s.env(x, i)));
  LV R2s = reach(s, init, [&](int x, int t) { return And(And(env(x, t), s.sys(x, t)), B(St[x + S * t])); });
  std::vector<Lit> Q(S * s.NI(), F); for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) Q[(x & ~U) + S * (i & obs)] = Or(Q[(x & ~U) + S * (i & obs)], And(R2s[x], s.env(x, i)));
  for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) { int k = (x & ~U) + S * (s.inOf(t) & obs); sound2 = And(sound2, Implies(P[k], B(En[x + S * t]))); ea = And(ea, Eq(Q[k], B(En[x + S * t]))); }
  check(sound2, "the printed environment abstraction excludes an observable step that the assumptions allow"); check(ea, "the printed environment abstraction allows an observable step that cannot happen");
  // dead ends
  LV R3 = reach(s, init, [&](int x, int t) { return And(env(x, t), B(En[x + S * t] && St[x + S * t])); }); Lit de = F, ds = F, stuck = F;
  for (int x = 0; x < S; x++) { bool some = false, all = true; for (int t = 0; t < S; t++) some = some || En[x + S * t]; for (int i = 0; i < s.NI(); i++) { bool any = false; for (int o = 0; o < s.NO(); o++) any = any || St[x + S * s.st(i, o)]; all = all && any; if (!any) stuck = Or(stuck, And(R2[x], s.env(x, i))); } de = Or(de, And(R3[x], B(!some))); if (some && !all) ds = Or(ds, R3[x]); }
  bool we = r.err.find("environment dead-ends in the abstraction") != std::string::npos, ws = r.err.find("system dead-ends in the abstraction") != std::string::npos, wi = r.err.find("There is no initial state in the estimator model") != std::string::npos;
  check(we ? de : neg(de), we ? "a warning about environment dead-ends without a dead-end" : "no warning about an environment dead-end"); check(ws ? ds : neg(ds), ws ? "a warning about system dead-ends without a dead-end" : "no warning about a system dead-end");
  if (!ws && !we) check(neg(stuck), "the estimator can get stuck while the assumptions hold and no dead-end is reported");
  Lit any = F; for (int x = 0; x < S; x++) any = Or(any, init[x]); check(wi ? neg(any) : any, wi ? "a warning that there is no initial state although there is one" : "no warning about a missing initial state");
  witness(ws ? 1 : 0);
}
struct Init { Init() { CheckDef d({"--computeIncompleteInformationEstimator"}, 0, estimator); d.format = "est"; registry()["estimator"] = d; d.format = "estmm"; registry()["estimatorMinMax"] = d; } } init_;
}
