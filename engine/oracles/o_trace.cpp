// C17 (abstract winning traces) and C18 (interesting runs)
#include "machine.h"
#include <cstring>
using namespace sym;
static std::vector<std::string> cells(const std::string &l) { std::vector<std::string> f; std::string w; for (char c : l + "|") if (c == '|') { f.push_back(w); w = ""; } else if (c != ' ') w += c; return f; }
static void traces(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  int S = s.S(); LV U(S, F), V(S, F);
  auto preE = [&](const LV &X) { LV n(S, F); for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) { Lit a = s.env(x, i); for (int o = 0; o < s.NO(); o++) a = And(a, Or(neg(s.sys(x, s.st(i, o))), X[s.st(i, o)])); n[x] = Or(n[x], a); } return n; };
  auto preS = [&](const LV &X) { LV n(S, T); for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) { Lit a = neg(s.env(x, i)); for (int o = 0; o < s.NO(); o++) a = Or(a, And(s.sys(x, s.st(i, o)), X[s.st(i, o)])); n[x] = And(n[x], a); } return n; };
  for (int k = 0; k < S; k++) { U = preE(U); V = preS(V); }
  Lit E = F, Y = T, noReply = F, noInput = T; for (int i = 0; i < s.NI(); i++) { Lit a = s.initEnv[i], e = F, any = F; for (int o = 0; o < s.NO(); o++) { int x = s.st(i, o); a = And(a, Or(neg(s.initSys[x]), U[x])); e = Or(e, And(s.initSys[x], V[x])); any = Or(any, s.initSys[x]); } E = Or(E, a); Y = And(Y, Implies(s.initEnv[i], e)); noReply = Or(noReply, And(s.initEnv[i], neg(any))); noInput = And(noInput, neg(s.initEnv[i])); }
  std::vector<std::string> l = lines(r.out); size_t p = 0;
  for (int who = 0; who < 2; who++) {
    bool env = who == 0; while (p < l.size() && l[p] == "") p++; std::string head = env ? "Abstract countertrace:" : "Abstract trace:", none = env ? "There is no strategy for the environment" : "There is no strategy for the system";
    if (p < l.size() && l[p].find(none) == 0) { p++; witness(env ? 0 : 1); check(env ? noReply : noInput, "says that there is no winning strategy from an initial position although there is one"); continue; }
    if (p >= l.size() || l[p] != head) { if (p < l.size() && (!env || l[p] != "Abstract trace:") && !(env && l[p].find("There is no strategy for the system") == 0)) fail("unexpected output: " + l[p]); witness(env ? 2 : 3); check(neg(env ? E : Y), env ? "no trace is printed although the environment can force a violation of the guarantees" : "no trace is printed although the system can force a violation of the assumptions"); continue; }
    p++; check(env ? E : Y, env ? "a trace is printed although the environment cannot force a violation of the guarantees" : "a trace is printed although the system cannot force a violation of the assumptions"); witness(env ? 4 : 5);
    std::map<std::string, std::vector<std::string>> val; size_t cols = 0;
    while (p < l.size() && l[p] != "") { std::string q = l[p++]; if (q.find_first_not_of("+-") == std::string::npos) continue; std::vector<std::string> f = cells(q); if (f.size() < 6) fail("malformed table line: " + q); std::vector<std::string> v(f.begin() + 4 - 1, f.end() - 1); while (v.size() && v[0] == "") v.erase(v.begin()); val[f[1]] = v; if (cols && v.size() != cols) fail("malformed table line: " + q); cols = v.size(); }
    if (cols < 2 || !val.count("Atomicprop./Round")) fail("malformed table"); for (size_t k = 0; k < cols; k++) if (val["Atomicprop./Round"][k] != std::to_string(k)) fail("rounds are not numbered 0, 1, ...");
    std::vector<std::vector<char>> c(cols); for (int b = 0; b < s.n(); b++) { std::string n = b < s.nIn ? "i" + std::to_string(b) : "o" + std::to_string(b - s.nIn); if (!val.count(n)) fail("the table has no row for " + n); for (size_t k = 0; k < cols; k++) { std::string w = val[n][k]; if (w != "0" && w != "1" && w != "*" && w != "X") fail("unexpected cell: " + w); c[k].push_back(w[0]); } }
    if (val.size() != (size_t)s.n() + 1) fail("unexpected rows in the table");
    auto matches = [&](size_t k, int x, int bits) { for (int b = 0; b < bits; b++) if (c[k][b] == 'X' || (c[k][b] != '*' && (c[k][b] == '1') != ((x >> b & 1) != 0))) return false; return true; };
    LV Fk(S, F); int start = -1;
    for (int k = (int)cols - 2; k >= 0; k--) {
      LV n = env ? preE(Fk) : preS(Fk);
      if (env && k == (int)cols - 2) { bool x = false; for (char q : c[k + 1]) x = x || q == 'X'; if (!x) { n = LV(S, F); for (int y = 0; y < S; y++) { Lit any = F; int cnt = 0; Lit all = T; for (int i = 0; i < s.NI(); i++) if (matches(k + 1, i, s.nIn)) { Lit a = s.env(y, i); for (int o = 0; o < s.NO(); o++) a = And(a, neg(s.sys(y, s.st(i, o)))); all = And(all, a); any = Or(any, a); cnt++; } n[y] = cnt ? all : F; } } }
      else if (!env && k == (int)cols - 2) for (char q : c[k + 1]) if (q != 'X') fail("the system's trace continues after the environment has lost");
      for (int x = 0; x < S; x++) Fk[x] = matches(k, x, s.n()) ? n[x] : F;
    }
    for (int x = 0; x < S; x++) if (matches(0, x, s.n())) { if (start >= 0) fail("the first round is not a single position"); start = x; } if (start < 0) fail("no position matches the first round");
    check(And(s.initEnv[s.inOf(start)], s.initSys[start]), "the trace does not start in an initial position");
    check(Fk[start], env ? "the environment cannot force the printed rounds and the violation at the end" : "the system cannot force the printed rounds and the violation at the end");
  }
  while (p < l.size() && l[p] == "") p++; if (p != l.size()) fail("unexpected output: " + l[p]);
}
static void run(const Spec &s, const Run &r) {
  if (r.exitCode != 0) fail("exit status " + std::to_string(r.exitCode));
  LV W = refWinning(s); Lit none = T; for (int x = 0; x < s.S(); x++) none = And(none, neg(AndAll({W[x], s.initEnv[s.inOf(x)], s.initSys[x]})));
  if (r.has("There is no position that is winning")) { witness(0); check(none, "says that there is no winning initial position although there is one"); return; }
  check(neg(none), "prints a run although there is no winning initial position"); std::vector<std::string> l = lines(r.out); size_t p = 0; while (p < l.size() && l[p].find("---") != 0) p++; p++; int prev = -1, rows = 0, eg = 0, sg = 0; bool em = false, sm = false, over = false; Lit safe = T, legal = T, egm = T, sgm = T;
  for (; p < l.size() && l[p] != ""; p++, rows++) {
    if (over) fail("the run continues after a player has lost: " + l[p]); std::vector<std::string> f = cells(l[p]); if (f.size() < 3) fail("malformed row: " + l[p]); char *e;
    if (l[p].find("safety prop. violation") != std::string::npos) fail("a violation of a safety property is announced: " + l[p]);
    int e1 = strtol(f[0].c_str(), &e, 10); bool p1 = *e == '+'; if (strcmp(e, "+") && *e) fail("malformed goal number: " + l[p]); int s1 = strtol(f[1].c_str(), &e, 10); bool p2 = *e == '+'; if (strcmp(e, "+") && *e) fail("malformed goal number: " + l[p]);
    if (e1 < 0 || e1 >= (int)s.lA.size() || s1 < 0 || s1 >= (int)s.lG.size()) fail("goal number out of range: " + l[p]);
    if (rows ? (e1 != (em ? (eg + 1) % (int)s.lA.size() : eg) || s1 != (sm ? (sg + 1) % (int)s.lG.size() : sg)) : e1 || s1) fail("the goal pursued does not follow from the previous row: " + l[p]);
    if (f[2].find(".Loses") != std::string::npos) { // the marks of this and the previous row belong to no transition
      bool en = f[2].find("Env") == 0; if (prev < 0 || rows > 100) fail("misplaced end of the run"); if (em || sm || p1 || p2) fail("a goal is marked as reached although there is no transition: " + l[p]);
      Lit noIn = T, stuck = F; for (int i = 0; i < s.NI(); i++) { Lit a = s.env(prev, i), any = F; noIn = And(noIn, neg(a)); for (int o = 0; o < s.NO(); o++) any = Or(any, s.sys(prev, s.st(i, o))); stuck = Or(stuck, And(a, neg(any))); }
      check(en ? noIn : stuck, "the run ends although the named player has an allowed move: " + l[p]); witness(en ? 1 : 2); over = true; continue; }
    if (rows && !over) {} std::string t = l[p].substr(l[p].find('|', l[p].find('|') + 1) + 1); std::istringstream is(t); std::string w; int x = 0, seen = 0; while (is >> w) { if (w == "|") continue; bool pos = w[0] != '!'; if (!pos) w = w.substr(1); for (int b = 0; b < s.n(); b++) if (w == (b < s.nIn ? "i" + std::to_string(b) : "o" + std::to_string(b - s.nIn))) { if (seen >> b & 1) fail("variable twice in row: " + l[p]); seen |= 1 << b; if (pos) x |= 1 << b; w = ""; break; } if (w != "") fail("unknown variable: " + l[p]); }
    if (seen != (1 << s.n()) - 1) fail("row does not list every variable: " + l[p]);
    if (prev < 0) check(AndAll({W[x], s.initEnv[s.inOf(x)], s.initSys[x]}), "the run does not start in a winning initial position");
    else { legal = And(legal, s.env(prev, s.inOf(x))); safe = And(safe, s.sys(prev, x)); Lit a = s.A(eg, prev, x), g = s.G(sg, prev, x); egm = And(egm, em ? a : neg(a)); sgm = And(sgm, sm ? g : neg(g)); }
    prev = x; eg = e1; sg = s1; em = p1; sm = p2;
  }
  if (!over) { witness(3); if (rows < 101) fail("the run is shorter than 101 positions although no player has lost"); if (em || sm) fail("a goal is marked as reached in the last position"); }
  check(legal, "the run has a transition that violates the safety assumptions"); check(safe, "the run has a transition that violates the safety guarantees"); check(egm, "an assumption is not marked exactly when the transition satisfies it"); check(sgm, "a guarantee is not marked exactly when the transition satisfies it");
}
static Reg r_t("traces", CheckDef({"--computeAbstractWinningTrace"}, 0, traces));
static Reg r_r("run", CheckDef({"--computeInterestingRunOfTheSystem"}, 0, run));
