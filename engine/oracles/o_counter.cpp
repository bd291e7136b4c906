// C08: explicit counterstrategies.
#include "machine.h"
using namespace sym;
static void counterMachine(const Spec &s, const Run &r, const std::string &o) {
  int v = needVerdict(r); LV E = refEnvWinning(s); LV W; for (Lit l : E) W.push_back(neg(l)); Lit ref = refRealizableRobotics(s, W);
  witness(v); check(v ? ref : neg(ref), "wrong verdict in counterstrategy mode");
  if (v) { if (o.find_first_not_of(" \n\t") != std::string::npos) fail("a counterstrategy is printed for a realizable specification"); return; }
  Machine m = parseText(s, o); int n = m.nodes.size(); if (n) witness(2);
  auto present = [&](int st) { for (auto &x : m.nodes) if (!x.deadlock && x.state == st) return true; return false; };
  Lit any = F, all = T; for (int st = 0; st < s.S(); st++) { Lit i = AndAll({s.initEnv[s.inOf(st)], s.initSys[st], E[st]}); if (present(st)) any = Or(any, i); else all = And(all, neg(i)); }
  check(any, "the counterstrategy contains no initial position from which the environment wins");
  check(all, "an initial position from which the environment wins is missing from the counterstrategy");
  Lit inputOk = T, outs = T, dead = T; std::vector<Edge> e;
  for (int i = 0; i < n; i++) {
    const Node &x = m.nodes[i];
    if (x.deadlock) { if (x.succ.size()) fail("a deadlock state has successors"); continue; }
    if (x.succ.empty()) fail("a counterstrategy state has no successors");
    const Node &y0 = m.n(x.succ[0]); int in = s.inOf(y0.state); inputOk = And(inputOk, s.env(x.state, in));
    if (y0.deadlock) { witness(3); if (x.succ.size() > 1) fail("a counterstrategy state has a deadlock state and further successors"); for (int o = 0; o < s.NO(); o++) dead = And(dead, neg(s.sys(x.state, s.st(in, o)))); continue; }
    std::vector<bool> listed(s.NO());
    for (int t : x.succ) { const Node &y = m.n(t); if (y.deadlock || s.inOf(y.state) != in) fail("the successors of a counterstrategy state do not share one input"); if (listed[s.outOf(y.state)]) fail("two successors for the same output"); listed[s.outOf(y.state)] = true; Edge g; g.from = i; g.to = m.byId.at(t); g.live = T; e.push_back(g); }
    for (int o = 0; o < s.NO(); o++) outs = And(outs, listed[o] ? s.sys(x.state, s.st(in, o)) : neg(s.sys(x.state, s.st(in, o))));
  }
  check(inputOk, "the counterstrategy plays an input that the safety assumptions forbid");
  check(outs, "the successors are not exactly those for the outputs that the safety guarantees allow");
  check(dead, "a deadlock is claimed although the system has a safe output");
  auto along = [&](const std::vector<LV> &p) { std::vector<std::vector<Lit>> r; for (auto &A : p) { std::vector<Lit> w; for (auto &g : e) w.push_back(A[m.nodes[g.from].state + s.S() * m.nodes[g.to].state]); r.push_back(w); } return r; };
  std::vector<std::vector<Lit>> G = along(s.lG), A = along(s.lA);
  check(neg(fairPath(n, e, G, std::vector<Lit>(n, T))), "the counterstrategy has a run on which every liveness guarantee is satisfied infinitely often");
  for (auto &a : A) { std::vector<Edge> f = e; for (size_t k = 0; k < f.size(); k++) f[k].live = And(f[k].live, neg(a[k])); check(neg(fairPath(n, f, std::vector<std::vector<Lit>>(1, std::vector<Lit>(f.size(), T)), std::vector<Lit>(n, T))), "the counterstrategy has a run on which a liveness assumption is not satisfied infinitely often"); }
}
namespace { struct Init { Init() {
  registry()["counterMachine"] = CheckDef({"--counterStrategy", "--sysInitRoboticsSemantics"}, 0, [](const Spec &s, const Run &r) { counterMachine(s, r, r.out); });
  registry()["counterMachineFile"] = CheckDef({"--counterStrategy", "--sysInitRoboticsSemantics"}, 1, [](const Spec &s, const Run &r) { counterMachine(s, r, r.files[0]); });
} } init_; }
