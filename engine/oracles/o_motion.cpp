#include <unistd.h>
// C21: the game with nondeterministic motion.
#include "harness.h"
#include <fstream>
using namespace sym;
static int rev(int v, int n) { int r = 0; for (int k = 0; k < n; k++) if (v >> k & 1) r |= 1 << (n - 1 - k); return r; }
size_t motionIndex(const Spec &s, unsigned a) { int M = s.nMot, C = s.nCtl; return rev(a & ((1 << M) - 1), M) | rev(a >> M & ((1 << C) - 1), C) << M | rev(a >> (M + C), M) << (M + C); }
static std::string dddmp(const Spec &s) { // the motion relation as a text mode DDDMP file
  int V = 2 * s.nMot + s.nCtl; std::ostringstream nodes, ids; int next = 2; nodes << "1 T 1 0 0\n"; for (int k = 0; k < V; k++) ids << " " << k;
  std::function<int(unsigned, int)> rec = [&](unsigned a, int v) -> int { // node for variables v.. under the assignment a to the first v ones
    bool all = true, none = true; for (unsigned k = 0; k < 1u << (V - v); k++) { bool b = s.robot.at(motionIndex(s, a | k << v)) == T; (b ? none : all) = false; } if (all) return 1; if (none) return -1;
    int t = rec(a | 1u << v, v + 1), e = rec(a, v + 1), sign = 1; if (t < 0) { t = -t; e = -e; sign = -1; } if (t == e) return sign * t; nodes << next << " " << v << " " << v << " " << t << " " << e << "\n"; return sign * next++; };
  int root = rec(0, 0); std::ostringstream o; o << ".ver DDDMP-2.0\n.mode A\n.varinfo 0\n.nnodes " << next - 1 << "\n.nvars " << V << "\n.nsuppvars " << V << "\n.ids" << ids.str() << "\n.permids" << ids.str() << "\n.nroots 1\n.rootids " << root << "\n.nodes\n" << nodes.str() << ".end\n"; return o.str();
}
static LV winMotion(const Spec &s) {
  int S = s.S(), M = s.nMot, X = s.nOut - M, C = 1 << s.nCtl, mm = (1 << M) - 1; auto mot = [&](int x) { return s.outOf(x) & mm; }; auto R = [&](int m, int c, int n) { return s.robot[m | c << M | n << (M + s.nCtl)]; };
  std::vector<LV> A; std::vector<std::vector<LV>> As; // assumptions per control
  auto asm_ = [&](size_t i, int x, int t, int c) -> Lit { if (i < s.lA.size()) return s.lA[i][x + S * t]; int m = mot(x); Lit can = F; for (int n = 0; n <= mm; n++) if (n != m) can = Or(can, R(m, c, n)); return mot(t) != m ? T : neg(can); };
  size_t nA = s.lA.size() + 1;
  auto pre = [&](const std::function<Lit(int, int, int)> &good) { LV r(S);
    for (int x = 0; x < S; x++) { Lit all = T;
      for (int i = 0; i < s.NI(); i++) { Lit some = F;
        for (int c = 0; c < C; c++) for (int o = 0; o < 1 << X; o++) { Lit any = F, ok = T; for (int n = 0; n <= mm; n++) { Lit rn = R(mot(x), c, n); any = Or(any, rn); int t = s.st(i, n | o << M); ok = And(ok, Implies(rn, And(s.sS[x + S * t + S * S * c], good(x, t, c)))); } some = Or(some, And(any, ok)); }
        all = And(all, Implies(s.env(x, i), some)); }
      r[x] = all; } return r; };
  LV Z(S, T);
  for (int zi = 0; zi < S; zi++) { LV nz(S, T);
    for (size_t j = 0; j < s.lG.size(); j++) { LV Y(S, F);
      for (int yi = 0; yi < S; yi++) { LV ny(S, F); for (size_t i = 0; i < nA; i++) { LV Q(S, T); for (int xi = 0; xi < S; xi++) Q = pre([&](int a, int b, int c) { return Or(Or(And(s.lG[j][a + S * b + S * S * c], Z[b]), Y[b]), And(neg(asm_(i, a, b, c)), Q[b])); }); for (int k = 0; k < S; k++) ny[k] = Or(ny[k], Q[k]); } Y = ny; }
      for (int k = 0; k < S; k++) nz[k] = And(nz[k], Y[k]); }
    Z = nz; }
  return Z;
}
namespace { struct Init { Init() {
  for (int rob = 0; rob < 2; rob++) for (int inter = 0; inter < 2 - rob; inter++) {
    CheckDef d({"--nonDeterministicMotion"}, 0, [rob](const Spec &s, const Run &r) { int v = needVerdict(r); witness(v); LV W = winMotion(s); Lit ref = rob ? refRealizableRobotics(s, W) : refRealizable(s, W); check(v ? ref : neg(ref), v ? "reported realizable although the system cannot win against the motion abstraction" : "reported unrealizable although the system wins against every motion outcome"); });
    if (rob) d.options.push_back("--sysInitRoboticsSemantics"); if (inter) { d.options.push_back("--interactiveStrategy"); d.stopAtVerdict = true; } d.inFiles.push_back("# symbolic\n"); d.format = "";
    CheckDef base = d; d.resolve = [base](const std::string &cex) { CheckDef c = base; std::string f = cfg.workdir + "/.motion" + std::to_string(getpid()); { std::ofstream(f) << cex; } c.inFiles[0] = dddmp(loadSpec(f)); unlink(f.c_str()); return c; };
    registry()[std::string("motion") + (rob ? "Rob" : "") + (inter ? "Inter" : "")] = d; }
} } init_; }
