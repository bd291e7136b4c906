// C12 (weakened safety assumptions) and C13 (CNF export).
#include "machine.h"
using namespace sym;
// position of a variable name: bit in the pre state, or n()+bit for the primed one; -1 if unknown
static int varBit(const Spec &s, std::string n) { int off = 0; if (!n.empty() && n[n.size() - 1] == '\'') { off = s.n(); n.erase(n.size() - 1); } for (int b = 0; b < s.n(); b++) if (n == (s.names.size() ? s.names[b] : b < s.nIn ? "i" + std::to_string(b) : "o" + std::to_string(b - s.nIn))) return b + off; return -1; }
struct Literal { int bit; bool pos; };
static bool holds(const std::vector<Literal> &c, unsigned a) { for (auto &l : c) if (((a >> l.bit & 1) != 0) == l.pos) return true; return false; }
static void weaken(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  if (!assume(refRealizable(s, refWinning(s)))) { endPath(false); return; }
  size_t a = r.out.find("# Simplified safety assumption CNF clauses:\n"), b = r.out.find("# End of list"); if (a == std::string::npos || b == std::string::npos || b < a) fail("no clause list is printed for a realizable specification");
  a = r.out.find('\n', a) + 1; std::vector<std::vector<Literal>> cl;
  for (auto &l : lines(r.out.substr(a, b - a))) { std::vector<Literal> c; std::istringstream is(l); std::string w; while (is >> w) { Literal q; q.pos = w[0] != '!'; q.bit = varBit(s, q.pos ? w : w.substr(1)); if (q.bit < 0) fail("unknown variable in clause: " + l); if (q.bit >= s.n() + s.nIn) fail("a safety assumption clause mentions a next-step output: " + l); c.push_back(q); } cl.push_back(c); }
  witness(cl.empty() ? 0 : 1);
  Spec w = s; Lit imp = T;
  for (int x = 0; x < s.S(); x++) for (int in = 0; in < s.NI(); in++) { bool ok = true; for (auto &c : cl) ok = ok && holds(c, x | in << s.n()); w.sE[x + s.S() * in] = ok ? T : F; if (!ok) imp = And(imp, neg(s.env(x, in))); }
  check(imp, "the printed clauses are not implied by the original safety assumptions");
  check(refRealizable(w, refWinning(w)), "with the printed clauses as safety assumptions the specification is not realizable");
}
void cnfOracle(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  std::map<int, int> bit; std::vector<std::vector<Literal>> cl[3]; std::vector<std::vector<std::vector<Literal>>> lv[2];
  auto cubes = [&](const std::string &t) { std::vector<std::vector<Literal>> v; std::vector<Literal> c; std::istringstream is(t); std::string w; bool open = false; while (is >> w) { char *e; long k = strtol(w.c_str(), &e, 10); if (*e) fail("not a literal: " + w); if (!k) { v.push_back(c); c.clear(); open = false; continue; } open = true; Literal q; q.pos = k > 0; if (!bit.count(labs(k))) fail("literal of an unlisted variable: " + w); q.bit = bit[labs(k)]; c.push_back(q); } if (open) fail("literal list without terminating 0: " + t); return v; };
  for (auto &l : lines(r.out)) {
    char n[64]; int a, b;
    if (sscanf(l.c_str(), "Input: %63s %d %d", n, &a, &b) == 3 || sscanf(l.c_str(), "Output: %63s %d %d", n, &a, &b) == 3) { int v = varBit(s, n); bool in = l[0] == 'I'; if (v < 0 || v >= s.n() || in != (v < s.nIn) || bit.count(a) || bit.count(b)) fail("wrong variable declaration: " + l); bit[a] = v; bit[b] = v + s.n(); }
    else if (l.compare(0, 17, "SafetyGuarantee: ") == 0) { for (auto &c : cubes(l.substr(17))) cl[2].push_back(c); }
    else if (l.compare(0, 18, "SafetyAssumption: ") == 0) { for (auto &c : cubes(l.substr(18))) cl[1].push_back(c); }
    else if (l.compare(0, 6, "Init: ") == 0) { for (auto &c : cubes(l.substr(6))) cl[0].push_back(c); }
    else if (l.compare(0, 18, "LivenessGuarantee:") == 0) lv[1].push_back(cubes(l.substr(18)));
    else if (l.compare(0, 19, "LivenessAssumption:") == 0) lv[0].push_back(cubes(l.substr(19)));
    else if (l != "") fail("unexpected line: " + l);
  }
  if ((int)bit.size() != 2 * s.n()) fail("not every variable is declared");
  if (lv[0].size() != s.lA.size() || lv[1].size() != s.lG.size()) fail("wrong number of liveness lines");
  witness(cl[1].empty() ? 0 : 1); Lit ok[3] = {T, T, T}; int S = s.S();
  for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) { bool h[3]; for (int k = 0; k < 3; k++) { h[k] = true; for (auto &c : cl[k]) h[k] = h[k] && holds(c, x | t << s.n()); }
    Lit o[3] = {And(s.initEnv[s.inOf(x)], s.initSys[x]), s.env(x, s.inOf(t)), s.sys(x, t)}; for (int k = 0; k < 3; k++) ok[k] = And(ok[k], h[k] ? o[k] : neg(o[k])); }
  check(ok[0], "the Init clauses are not equivalent to the initial constraints"); check(ok[1], "the SafetyAssumption clauses are not equivalent to the safety assumptions"); check(ok[2], "the SafetyGuarantee clauses are not equivalent to the safety guarantees");
  for (int g = 0; g < 2; g++) for (size_t i = 0; i < lv[g].size(); i++) {
    const LV &P = (g ? s.lG : s.lA)[i]; std::vector<Edge> e; std::vector<Lit> p, q;
    for (int x = 0; x < S; x++) for (int t = 0; t < S; t++) { Edge d; d.from = x; d.to = t; d.live = T; e.push_back(d); p.push_back(P[x + S * t]); bool h = false; for (auto &c : lv[g][i]) { bool all = true; for (auto &l : c) all = all && ((((x | t << s.n()) >> l.bit & 1) != 0) == l.pos); h = h || all; } q.push_back(h ? T : F); }
    std::vector<Edge> f = e; for (size_t k = 0; k < e.size(); k++) f[k].live = neg(q[k]);
    check(neg(fairPath(S, f, {p}, std::vector<Lit>(S, T))), "a liveness line is not satisfied infinitely often on a run on which the original property is");
    for (size_t k = 0; k < e.size(); k++) f[k].live = neg(p[k]);
    check(neg(fairPath(S, f, {q}, std::vector<Lit>(S, T))), "a liveness line is satisfied infinitely often on a run on which the original property is not");
  }
}
static Reg r_w("weaken", CheckDef({"--computeWeakenedSafetyAssumptions"}, 0, weaken));
static Reg r_c("cnf", CheckDef({"--computeCNFFormOfTheSpecification"}, 0, cnfOracle));
