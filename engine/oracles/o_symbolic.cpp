// C09: symbolic (BDD) strategies, read back as the documented controllers.
#include "machine.h"
using namespace sym;
enum { ROB = 1, REC = 2, SIMPLE = 4, COOP = 8 };
static std::function<void(const Spec &, const Run &)> symb(int f) {
  return [f](const Spec &s, const Run &r) {
    int v = needVerdict(r); LV W = refWinning(s); Lit ref = (f & ROB) ? refRealizableRobotics(s, W) : refRealizable(s, W); witness(v);
    if (f & COOP) check(v ? ref : T, "reported realizable although the system cannot win"); else check(v ? ref : neg(ref), "wrong verdict");
    if (!v) { if (r.bdds.size()) fail("a strategy is written for an unrealizable specification"); return; }
    if (r.bdds.size() != 1) fail("not exactly one BDD was written");
    BddView b; b.n = r.bdds[0]; for (size_t i = 0; i < r.bddVarNames.size(); i++) { std::string n = r.bddVarNames[i]; if (n.compare(0, 3, "in_") == 0) n = n.substr(3); b.idx[n] = i; }
    int nG = 0, nb = 0; size_t gp = r.files[0].find("# Num goals: "); if (gp == std::string::npos) fail("the header does not state the number of goals"); nG = atoi(r.files[0].c_str() + gp + 13); if (nG < (int)s.lG.size()) fail("the header states too few goals"); if (!(f & COOP) && nG != (int)s.lG.size()) fail("the header states a wrong number of goals"); while (b.find("_jx_b" + std::to_string(nb)) >= 0) nb++;
    if ((1 << nb) < nG) fail("too few goal counter bits in the written BDD");
    int S = s.S(), N = S * nG; std::vector<Edge> e; std::vector<int> ein; std::vector<std::vector<Lit>> haveMove(N, std::vector<Lit>(s.NI(), F));
    auto val = [&](std::map<std::string, int> &m, int st, const std::string &p) { for (int i = 0; i < s.nIn; i++) m["i" + std::to_string(i) + p] = st >> i & 1; for (int i = 0; i < s.nOut; i++) m["o" + std::to_string(i) + p] = st >> (s.nIn + i) & 1; };
    auto ask = [&](int x, int c, int t, int c2, int type) { std::map<std::string, int> m; val(m, x, ""); val(m, t, "'"); for (int k = 0; k < nb; k++) { m["_jx_b" + std::to_string(k)] = c >> k & 1; if (f & SIMPLE) m["_jx_b" + std::to_string(k) + "'"] = c2 >> k & 1; } if (!(f & SIMPLE)) m["strat_type"] = type; return b.at(m); };
    Lit badCounter = F;
    for (int c = 0; c < nG; c++) for (int x = 0; x < S; x++) for (int in = 0; in < s.NI(); in++) {
      if (f & SIMPLE) { for (int o = 0; o < s.NO(); o++) for (int c2 = 0; c2 < (1 << nb); c2++) { Lit l = ask(x, c, s.st(in, o), c2, 0); if (c2 >= nG) { badCounter = Or(badCounter, l); continue; } Edge g; g.from = x + S * c; g.to = s.st(in, o) + S * c2; g.live = l; e.push_back(g); ein.push_back(in); haveMove[g.from][in] = Or(haveMove[g.from][in], l); } }
      else {
        Lit go = F; for (int o = 0; o < s.NO(); o++) go = Or(go, ask(x, c, s.st(in, o), 0, 1));
        for (int o = 0; o < s.NO(); o++) for (int type = 0; type < 2; type++) { Lit l = ask(x, c, s.st(in, o), 0, type); Edge g; g.from = x + S * c; g.to = s.st(in, o) + S * (type ? (c + 1) % nG : c); g.live = type ? l : And(l, neg(go)); e.push_back(g); ein.push_back(in); haveMove[g.from][in] = Or(haveMove[g.from][in], g.live); }
      }
    }
    check(neg(badCounter), "the strategy moves to a goal number that does not exist");
    std::vector<Lit> R(N, F); for (int x = 0; x < S; x++) R[x] = AndAll({(f & REC) ? T : s.initEnv[s.inOf(x)], s.initSys[x], W[x]});
    if (f & COOP) { // the cooperative winning region is smaller: a controller starts where it is never stuck, never breaks a guarantee and never traps the environment
      std::vector<Lit> K(N, T);
      for (int it = 0; it < N; it++) {
        std::vector<Lit> nk(N, T);
        for (int k = 0; k < N; k++) { Lit anyIn = F; for (int in = 0; in < s.NI(); in++) { nk[k] = And(nk[k], Implies(s.env(k % S, in), haveMove[k][in])); anyIn = Or(anyIn, s.env(k % S, in)); } nk[k] = AndAll({K[k], nk[k], anyIn}); }
        for (size_t i = 0; i < e.size(); i++) { int x = e[i].from % S; nk[e[i].from] = And(nk[e[i].from], Implies(And(e[i].live, s.env(x, ein[i])), And(s.sys(x, e[i].to % S), K[e[i].to]))); }
        if (nk == K) break; K = nk;
      }
      for (int x = 0; x < S; x++) R[x] = And(R[x], K[x]);
      Lit ok = T; if (f & ROB) { for (int x = 0; x < S; x++) ok = And(ok, Implies(And(s.initEnv[s.inOf(x)], s.initSys[x]), R[x])); } else for (int in = 0; in < s.NI(); in++) { Lit a = F; for (int o = 0; o < s.NO(); o++) a = Or(a, R[s.st(in, o)]); ok = And(ok, Implies(s.initEnv[in], a)); } check(ok, "some admissible initial input has no usable starting state in the written strategy");
    }
    for (int k = 0; k < N; k++) { std::vector<Lit> nr = R; for (size_t i = 0; i < e.size(); i++) nr[e[i].to] = Or(nr[e[i].to], AndAll({R[e[i].from], e[i].live, (f & REC) ? T : s.env(e[i].from % S, ein[i])})); if (nr == R) break; R = nr; }
    Lit safe = T, recept = T, dead = T;
    for (size_t i = 0; i < e.size(); i++) { int x = e[i].from % S, t = e[i].to % S; safe = And(safe, Implies(AndAll({R[e[i].from], e[i].live, (f & REC) ? T : s.env(x, ein[i])}), s.sys(x, t))); e[i].live = AndAll({e[i].live, s.env(x, ein[i]), R[e[i].from]}); }
    for (int k = 0; k < N; k++) { Lit anyIn = F; for (int in = 0; in < s.NI(); in++) { recept = And(recept, Implies(And(R[k], s.env(k % S, in)), haveMove[k][in])); anyIn = Or(anyIn, s.env(k % S, in)); } dead = And(dead, Implies(R[k], anyIn)); }
    check(safe, "a reachable transition of the written strategy violates the safety guarantees");
    check(recept, "a reachable state of the written strategy has no move for an input that the safety assumptions allow");
    if (f & COOP) check(dead, "the cooperative strategy leads into a state in which the environment has no allowed input");
    if (f & REC) { Lit rec = T; for (int k = 0; k < N; k++) for (int in = 0; in < s.NI(); in++) { Lit any = F; for (int o = 0; o < s.NO(); o++) any = Or(any, And(s.sys(k % S, s.st(in, o)), W[s.st(in, o)])); rec = And(rec, Implies(And(R[k], any), haveMove[k][in])); } check(rec, "no recovery move although a guarantee-respecting move into a winning state exists"); }
    std::vector<std::vector<Lit>> inf; for (auto &A : s.lA) { std::vector<Lit> w; for (auto &g : e) w.push_back(A[g.from % S + S * (g.to % S)]); inf.push_back(w); }
    if (inf.empty()) inf.push_back(std::vector<Lit>(e.size(), T));
    for (auto &G : s.lG) { std::vector<Edge> h = e; for (auto &g : h) g.live = And(g.live, neg(G[g.from % S + S * (g.to % S)])); check(neg(fairPath(N, h, inf, std::vector<Lit>(N, T))), "the written strategy has a run that satisfies the liveness assumptions but not every liveness guarantee"); }
  };
}
namespace { struct Init { Init() {
  for (int simple = 0; simple < 2; simple++) for (int rob = 0; rob < 2; rob++) for (int rec = 0; rec < 2; rec++) {
    std::string n = std::string(simple ? "simpleSymb" : "symb"), sfx = std::string(rob ? "Rob" : "") + (rec ? "Rec" : ""); int f = (simple ? SIMPLE : 0) | (rob ? ROB : 0) | (rec ? REC : 0);
    std::vector<std::string> o; o.push_back(simple ? "--simpleSymbolicStrategy" : "--symbolicStrategy"); if (rob) o.push_back("--sysInitRoboticsSemantics"); if (rec) o.push_back("--simpleRecovery");
    auto add = [&](const std::string &k, const char *opt, int ff) { std::vector<std::string> p = o; if (opt) p.push_back(opt); registry()[n + k + sfx] = CheckDef(p, 1, symb(f | ff)); };
    add("", 0, 0); add("Bias", "--biasForAction", 0); add("Recycling", "--fixedPointRecycling", 0); add("Coop", "--cooperativeGR1Strategy", COOP);
  }
} } init_; }
