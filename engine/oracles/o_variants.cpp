// C20 (interleaving analysis) and C23 (fast/slow semantics).
#include "machine.h"
#include <cstring>
using namespace sym;
// ---- C23: a transition needs, besides the guarantees, a safe intermediate state in which only the fast outputs have changed. ----
static Spec fastSlow(const Spec &s) {
  Spec q = s; int f = nFast(s), S = s.S(); int fastMask = ((1 << f) - 1) << s.nIn, inMask = s.NI() - 1, slowMask = (S - 1) & ~fastMask & ~inMask; LV ok;
  for (int m = 0; m < S; m++) { Lit out = F, in = F; for (int t = 0; t < S; t++) { out = Or(out, s.sys(m, t)); in = Or(in, s.sys(t, m)); } ok.push_back(And(out, in)); }
  for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) q.sS[x + S * t] = And(s.sys(x, t), ok[(t & (inMask | fastMask)) | (x & slowMask)]);
  return q;
}
// ---- C20: outputs in 'before' are chosen before the input of the step is known ----
static LV winBefore(const Spec &s, int before) { // mask of outputs
  int S = s.S(); auto pre = [&](const std::function<Lit(int, int)> &good) { LV r(S, F); for (int x = 0; x < S; x++) for (int b = 0; b < s.NO(); b++) if ((b & ~before) == 0) { Lit all = T; for (int i = 0; i < s.NI(); i++) { Lit e = F; for (int a = 0; a < s.NO(); a++) if ((a & before) == 0) { int t = s.st(i, a | b); e = Or(e, And(s.sys(x, t), good(x, t))); } all = And(all, Implies(s.env(x, i), e)); } r[x] = Or(r[x], all); } return r; };
  LV Z(S, T);
  for (int zi = 0; zi < S; zi++) { LV nz(S, T);
    for (size_t j = 0; j < s.lG.size(); j++) { LV Y(S, F);
      for (int yi = 0; yi < S; yi++) { LV ny(S, F); for (size_t i = 0; i < s.lA.size(); i++) { LV X(S, T); for (int xi = 0; xi < S; xi++) X = pre([&](int a, int b) { return Or(Or(And(s.G(j, a, b), Z[b]), Y[b]), And(neg(s.A(i, a, b)), X[b])); }); for (int k = 0; k < S; k++) ny[k] = Or(ny[k], X[k]); } Y = ny; }
      for (int k = 0; k < S; k++) nz[k] = And(nz[k], Y[k]); }
    Z = nz; }
  return Z;
}
static void interleave(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  auto real = [&](int before) { return refRealizable(s, winBefore(s, before)); };
  bool y = r.has("Starting point is a realizable specification"), n = r.has("Starting point is an unrealizable specification"); if (y == n) fail("no statement about the starting point");
  check(y ? real(0) : neg(real(0)), y ? "an unrealizable specification is called realizable" : "a realizable specification is called unrealizable"); if (n) { witness(0); return; }
  bool some = r.has("stays realizable when the values of the following"), none = r.has("becomes unrealizable when some output variable has to be set before"); if (some == none) fail("no statement about the outputs"); int set = 0;
  for (auto &l : lines(r.out)) if (l.compare(0, 2, "- ") == 0) { int b = -1; for (int i = 0; i < s.nOut; i++) if (l.substr(2) == "o" + std::to_string(i)) b = i; if (b < 0 || (set >> b & 1)) fail("unexpected list entry: " + l); set |= 1 << b; }
  if (some == !set) fail("the list of output signals does not fit the statement"); witness(set ? 1 : 2);
  check(real(set), "the specification does not stay realizable when the listed signals are set before reading the input");
  for (int b = 0; b < s.nOut; b++) if (!(set >> b & 1)) check(neg(real(set | 1 << b)), "the output o" + std::to_string(b) + " could be set before reading the input, too, but is not listed");
}
static Reg r_i("interleave", CheckDef({"--analyzeInterleaving"}, 0, interleave));
void initVariants() {
  std::map<std::string, CheckDef> base = registry();
  for (auto &k : base) { const std::string &n = k.first; bool take = n == "verdict" || n == "verdictRobotics"; for (const char *p : {"strat", "perm", "symb", "simpleSymb"}) if (n.compare(0, strlen(p), p) == 0 && n.find("Bias") == std::string::npos && n.find("Recycling") == std::string::npos && n.find("Coop") == std::string::npos && n.find("File") == std::string::npos) take = true;
    if (!take) continue; CheckDef d = k.second; d.options.push_back("--IROSfastslow"); d.format = "fs"; auto f = d.oracle; d.oracle = [f](const Spec &s, const Run &r) { f(fastSlow(s), r); }; registry()["fs_" + n] = d; }
}
