// C15: --analyzeAssumptions
#include "machine.h"
using namespace sym;
static void analyze(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  LV W = refWinning(s); Lit real = refRealizable(s, W); std::vector<std::string> l; for (auto &x : lines(r.out)) if (x != "") l.push_back(x);
  if (l.empty()) fail("no output");
  bool R = l[0].find("Starting with a realizable specification") == 0, U = l[0].find("Starting with an unrealizable specification") == 0; if (R == U) fail("unexpected first line: " + l[0]);
  check(R ? real : neg(real), R ? "an unrealizable specification is called realizable" : "a realizable specification is called unrealizable");
  if (U) { witness(0); if (l.size() > 1) fail("assumptions are classified although the specification is unrealizable"); return; }
  std::vector<LV> P = s.parts; if (P.empty()) P.push_back(s.sE); size_t p = 1;
  for (size_t k = 0; k < P.size() + s.lA.size(); k++) {
    bool safety = k < P.size(); int i = safety ? k : k - P.size(); std::string name = safety ? (i == 0 && s.parts.size() ? "first part" : "Safety Assumption " + std::to_string(i + 1)) : s.noA ? "Automatically added TRUE liveness assumption" : "Liveness Assumption " + std::to_string(i + 1);
    if (p >= l.size()) fail("no statement about assumption " + name); std::string t = l[p++]; if (t.compare(0, name.size() + 3, "\"" + name + "\" ")) fail("expected a statement about " + name + " but got: " + t); t = t.substr(name.size() + 3);
    Spec d = s; Lit redundant = F;
    if (safety) { d.sE = LV(s.sE.size(), T); for (size_t q = 0; q < P.size(); q++) if ((int)q != i) for (size_t z = 0; z < d.sE.size(); z++) d.sE[z] = And(d.sE[z], P[q][z]); redundant = T; for (size_t z = 0; z < d.sE.size(); z++) redundant = And(redundant, Implies(d.sE[z], P[i][z])); }
    else { d.lA.erase(d.lA.begin() + i); if (d.lA.empty()) d.lA.push_back(LV(s.S() * s.S(), T)); }
    LV V = refWinning(d); Lit dr = refRealizable(d, V), shrink = F, shrinkInit = F; for (int x = 0; x < s.S(); x++) { Lit g = And(W[x], neg(V[x])); shrink = Or(shrink, g); shrinkInit = Or(shrinkInit, And(g, s.initEnv[s.inOf(x)])); }
    if (t == "is crucially needed.") { witness(1); check(neg(dr), "an assumption is called crucially needed although the specification stays realizable without it: " + l[p - 1]); continue; }
    check(dr, "an assumption without which the specification becomes unrealizable is not called crucially needed: " + l[p - 1]);
    if (t.find("makes more positions winning") == 0) { witness(2); check(shrink, "an assumption is said to make more positions winning but does not: " + l[p - 1]);
      bool helps = t.find("which helps for satisfying the GR(1) robotics semantics") != std::string::npos; check(helps ? shrinkInit : neg(shrinkInit), "wrong statement about the robotics semantics: " + l[p - 1]); continue; }
    check(neg(shrink), "dropping the assumption shrinks the set of winning positions but this is not reported: " + l[p - 1]);
    if (t == "is redundant and implied by the other safety assumptions.") { witness(3); if (!safety) fail("liveness assumption called a redundant safety assumption"); check(redundant, "a safety assumption is called redundant but the others do not imply it: " + l[p - 1]); continue; }
    check(neg(redundant), "a safety assumption implied by the others is not called redundant: " + l[p - 1]);
    if (t == "is superfluous.") { witness(4); continue; }
    if (t.find("makes reaching the system goals ") == 0) { witness(5); continue; }
    fail("unexpected statement: " + l[p - 1]);
  }
  if (p != l.size()) fail("unexpected further output: " + l[p]);
}
static Reg r_("assume", CheckDef({"--analyzeAssumptions"}, 0, analyze));
