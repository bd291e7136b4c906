// C16: --analyzeSafetyLivenessInteraction
#include "machine.h"
using namespace sym;
static void interaction(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  int S = s.S(); std::vector<std::string> l = lines(r.out); size_t p = 0; int row = 0; Lit res[16][2];
  LV none(S * S, T);
  for (; p < l.size() && row < 16; p++) {
    if (l[p].empty() || l[p][0] != '|') continue; std::vector<std::string> f; std::string w; for (char c : l[p]) if (c == '|') { f.push_back(w); w = ""; } else if (c != ' ') w += c;
    if (f.size() < 7) continue; if (f[1] != "+" && f[1] != "-") continue; // columns: "", SA, LA, SG, LG, "", classical, robotics
    if (f.size() != 8) fail("malformed table row: " + l[p]); for (int k = 1; k < 5; k++) if (f[k] != "+" && f[k] != "-") fail("malformed table row: " + l[p]); for (int k = 6; k < 8; k++) if (f[k] != "yes" && f[k] != "no") fail("malformed table row: " + l[p]);
    bool b[4]; for (int k = 0; k < 4; k++) b[k] = f[k + 1] == "+"; int code = b[0] * 8 + b[1] * 4 + b[2] * 2 + b[3]; if (code != row) fail("table row out of order: " + l[p]);
    Spec d = s; if (!b[0]) d.sE = LV(s.sE.size(), T); if (!b[1]) d.lA = std::vector<LV>(1, none); if (!b[2]) d.sS = none; if (!b[3]) d.lG = std::vector<LV>(1, none);
    LV W = refWinning(d); res[row][0] = refRealizable(d, W); res[row][1] = refRealizableRobotics(d, W);
    for (int k = 0; k < 2; k++) check(f[6 + k] == "yes" ? res[row][k] : neg(res[row][k]), "wrong " + std::string(k ? "robotics" : "classical") + " result in table row " + l[p]);
    row++;
  }
  if (row != 16) fail("the table does not have 16 rows"); auto neither = [&](Lit a, bool said, const std::string &m) { check(said ? a : neg(a), m); };
  bool nonStrict = r.has("With a non-strict implication"); neither(neg(And(res[15][0], res[15][1])), nonStrict, nonStrict ? "non-strict implication analyzed although the specification is realizable" : "non-strict implication is not analyzed");
  if (nonStrict) { // an extra output bit remembers that a safety guarantee has been violated
    Spec d; d.nIn = s.nIn; d.nOut = s.nOut + 1; int D = d.S(); d.sE = LV(D * s.NI(), T); d.sS = LV(D * D, F); LV ng(D * D, F); for (auto &a : s.lA) { (void)a; d.lA.push_back(LV(D * D, F)); } for (auto &a : s.lG) { (void)a; d.lG.push_back(LV(D * D, F)); }
    for (int x = 0; x < D; x++) { int sx = x & (S - 1), fx = x / S; d.initSys.push_back(fx ? F : s.initSys[sx]); for (int i = 0; i < s.NI(); i++) d.sE[x + D * i] = s.env(sx, i);
      for (int t = 0; t < D; t++) { int st = t & (S - 1), ft = t / S; Lit bad = fx ? T : neg(s.sys(sx, st)); d.sS[x + D * t] = ft ? bad : neg(bad); ng[x + D * t] = ft ? F : T; for (size_t k = 0; k < s.lA.size(); k++) d.lA[k][x + D * t] = s.A(k, sx, st); for (size_t k = 0; k < s.lG.size(); k++) d.lG[k][x + D * t] = s.G(k, sx, st); } }
    d.lG.push_back(ng); d.initEnv = s.initEnv; LV W = refWinning(d); witness(0);
    bool c = r.has("- the specification becomes realizable in the non-robotics semantics"), q = r.has("- and the specification becomes realizable in the robotics semantics"), c2 = r.has("- nothing changes in the non-robotics semantics"), q2 = r.has("- and nothing changes in the robotics semantics"); if (c == c2 || q == q2) fail("contradictory statements about non-strict implication");
    neither(And(refRealizable(d, W), neg(res[15][0])), c, "wrong statement about the non-robotics semantics with a non-strict implication"); neither(And(refRealizableRobotics(d, W), neg(res[15][1])), q, "wrong statement about the robotics semantics with a non-strict implication"); if (c) witness(1); if (q) witness(2);
  }
  // Falsification: U[k] / V[k] = positions from which the environment / the system can force the other to violate its safety specification within k steps
  std::vector<Lit> eHere(S + 2, F), sHere(S + 2, F), eStart(S + 2, F); LV U(S, F), V(S, F);
  for (int k = 1; k <= S + 1; k++) {
    LV nu(S, F), nv(S, T); for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) { Lit all = T, ex = neg(s.env(x, i)); for (int o = 0; o < s.NO(); o++) { int t = s.st(i, o); all = And(all, Or(neg(s.sys(x, t)), U[t])); ex = Or(ex, And(s.sys(x, t), V[t])); } nu[x] = Or(nu[x], And(s.env(x, i), all)); nv[x] = And(nv[x], ex); }
    U = nu; V = nv; Lit h = T;
    for (int i = 0; i < s.NI(); i++) { Lit a = s.initEnv[i], e = neg(s.initEnv[i]); for (int o = 0; o < s.NO(); o++) { int x = s.st(i, o); a = And(a, Or(neg(s.initSys[x]), U[x])); e = Or(e, And(s.initSys[x], V[x])); eStart[k] = Or(eStart[k], AndAll({s.initEnv[i], s.initSys[x], U[x]})); } eHere[k] = Or(eHere[k], a); h = And(h, e); }
    sHere[k] = h;
  }
  std::string e1 = "the environment can falsify the system's specification within ", s1 = "the system can falsify the environment's specification within "; size_t a = r.out.find(e1), b = r.out.find(s1); bool an = r.has("the environment can't falsify the system's specification"), bn = r.has("the system can't falsify the environment's specification");
  if ((a != std::string::npos) + (b != std::string::npos) + an + bn != 1) fail("not exactly one statement about falsification");
  neither(res[10][0], b != std::string::npos || bn, "falsification is stated for the wrong player");
  if (an) check(neg(eHere[S + 1]), "the environment is said not to be able to falsify, but it is"); if (bn) check(neg(sHere[S + 1]), "the system is said not to be able to falsify, but it is");
  auto steps = [&](size_t at, const std::string &h, std::vector<Lit> &v) { char *e; long k = strtol(r.out.c_str() + at + h.size(), &e, 10); if (std::string(e).compare(0, 6, " steps") || k < 1) fail("malformed number of steps"); check(k > S + 1 ? F : v[k], "falsification within that many steps is impossible: " + std::to_string(k)); check(k > 1 ? neg(v[std::min(k - 1, (long)S + 1)]) : T, "falsification is possible in fewer steps than " + std::to_string(k)); return k; };
  if (a != std::string::npos) { long k = steps(a, e1, eHere); bool no = r.has("there is no corresponding strategy that starts from a position that satisfies all initialization constraints"); witness(3); neither(eStart[k], !no, "wrong statement about strategies that start in an initial position"); }
  if (b != std::string::npos) { steps(b, s1, sHere); witness(4); } if (bn) witness(5);
}
static Reg r_("interaction", CheckDef({"--analyzeSafetyLivenessInteraction"}, 0, interaction));
