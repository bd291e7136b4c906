// C19: the interactive strategy shell, driven by an adaptive user.
#include "machine.h"
#include <cstring>
using namespace sym;
namespace {
struct Need { std::string cmd; };
std::vector<std::string> segments(const std::string &out) { // text after each prompt
  std::vector<std::string> r; for (size_t p = 0; p < out.size(); p++) { if (out[p] == '>' && p + 1 < out.size() && out[p + 1] == ' ' && (p == 0 || out[p - 1] != '-')) { r.push_back(""); p++; continue; } if (r.size()) r.back() += out[p]; }
  return r; }
struct Talk {
  const Spec &s; std::vector<std::string> resp; size_t k; bool judge; Talk(const Spec &x) : s(x), k(0), judge(false) {}
  std::string ask(const std::string &c) { if (k >= resp.size()) { if (judge) fail("the session ended before the answer to: " + c); Need n; n.cmd = c; throw n; } return resp[k++]; }
  void ck(Lit l, const std::string &m) { if (judge) check(l, m); }
  void must(bool b, const std::string &m) { if (!b) { if (judge) fail(m); Need n; n.cmd = "QUIT\n"; throw n; } }
  void wit(int i) { if (judge) witness(i); }
};
std::string bits(int v, int n) { std::string r; for (int b = 0; b < n; b++) r += v >> b & 1 ? '1' : '0'; return r; }
std::string spaced(int v, int n, int salt = 0) { std::string r; for (int b = 0; b < n; b++) r += v >> b & 1 ? (b + v + salt) % 2 ? "1\n" : "2\n" : "0\n"; return r; } // 2: read as 1
int unbits(const std::string &t) { int r = 0; for (size_t b = 0; b < t.size(); b++) if (t[b] == '1') r |= 1 << b; return r; }
bool isBits(const std::string &t, int n) { return (int)t.size() == n && t.find_first_not_of("01") == std::string::npos; }
struct Ref { LV W; Lit real; };
Ref ref(const Spec &s) { static std::map<const Spec *, Ref> c; auto it = c.find(&s); if (it != c.end()) return it->second; Ref r; r.W = refWinning(s); r.real = refRealizable(s, r.W); c[&s] = r; return r; }
Lit inter(Lit a, Lit b) { return And(a, b); }
std::string name(const Spec &s, int b) { return b < s.nIn ? "i" + std::to_string(b) : "o" + std::to_string(b - s.nIn); }

// reset and step commands, walked over the whole reachable (position, goal) graph
void walk(Talk &t) {
  const Spec &s = t.s; Ref f = ref(s); if (!decide(f.real)) { t.wit(0); return; } t.wit(1); int S = s.S();
  std::string want = "\n"; for (int b = 0; b < s.nIn; b++) want += name(s, b) + "\n"; t.must(t.ask("XPRINTINPUTS\n") == want + "\n", "XPRINTINPUTS does not list the inputs");
  want = "\n"; for (int b = s.nIn; b < s.n(); b++) want += name(s, b) + "\n"; t.must(t.ask("XPRINTOUTPUTS\n") == want + "\n", "XPRINTOUTPUTS does not list the outputs");
  t.must(t.ask("XGETNOFLIVENESSPROPERTIES\n") == "\n" + std::to_string(s.lA.size()) + "\n" + std::to_string(s.lG.size()) + "\n", "XGETNOFLIVENESSPROPERTIES answers wrong numbers");
  Lit ex = F; for (int x = 0; x < S; x++) ex = Or(ex, AndAll({s.initEnv[s.inOf(x)], s.initSys[x], f.W[x]}));
  std::string start = t.ask("XGETINIT\n"); auto parse = [&](const std::string &r, int &x, int &g) { if ((int)r.size() < s.n() + 4 || r[0] != '\n' || !isBits(r.substr(1, s.n()), s.n()) || r[s.n() + 1] != ',' || r[r.size() - 1] != '\n') return false; x = unbits(r.substr(1, s.n())); char *e; g = strtol(r.c_str() + s.n() + 2, &e, 10); return *e == '\n' && isdigit(r[s.n() + 2]) && g < (int)s.lG.size(); };
  int x0, g0; t.must(parse(start, x0, g0), "malformed answer to XGETINIT: " + start);
  if (!decide(ex)) { for (int i = 0; i < s.NI(); i++) t.must(t.ask("XMAKETRANS\n" + bits(i, s.nIn) + "\n") == "\nERROR\n", "a step is made although there is no initial position"); t.wit(2); return; }
  t.ck(AndAll({s.initEnv[s.inOf(x0)], s.initSys[x0], f.W[x0]}), "XGETINIT leads to a position that is not initial and winning"); t.wit(3);
  std::string sp = t.ask("STARTPOS\n"), w2; for (int b = 0; b < s.n(); b++) w2 += " - " + name(s, b) + ": " + (x0 >> b & 1 ? "1" : "0") + "\n"; { int x1 = 0; size_t p = 0; for (int b = 0; b < s.n(); b++) { std::string q = " - " + name(s, b) + ": "; t.must(sp.compare(p, q.size(), q) == 0 && p + q.size() + 1 < sp.size(), "malformed answer to STARTPOS"); if (sp[p + q.size()] == '1') x1 |= 1 << b; p += q.size() + 2; } t.ck(AndAll({s.initEnv[s.inOf(x1)], s.initSys[x1], f.W[x1]}), "STARTPOS leads to a position that is not initial and winning"); }
  std::map<std::pair<int, int>, int> id; std::vector<std::pair<int, int>> nodes; std::vector<std::vector<int>> path; std::vector<Edge> e; auto add = [&](int x, int g, const std::vector<int> &p) { auto k = std::make_pair(x, g); if (!id.count(k)) { id[k] = nodes.size(); nodes.push_back(k); path.push_back(p); } return id[k]; };
  int cur = -1; add(x0, g0, std::vector<int>()); std::map<std::pair<int, int>, std::string> seen;
  for (size_t n = 0; n < nodes.size(); n++) for (int i = 0; i < s.NI(); i++) {
    if (cur != (int)n) { t.must(t.ask("XGETINIT\n") == start, "XGETINIT answers differently the second time"); cur = 0; for (int j : path[n]) { std::string r = t.ask("XMAKETRANS\n" + bits(j, s.nIn) + "\n"); t.must(r == seen[std::make_pair(cur, j)], "the same step from the same position and goal leads elsewhere"); int x, g; parse(r, x, g); cur = id[std::make_pair(x, g)]; } t.must(cur == (int)n, "the same steps lead elsewhere"); }
    int x = nodes[n].first; std::string r = t.ask("XMAKETRANS\n" + bits(i, s.nIn) + "\n"); seen[std::make_pair(cur, i)] = r; if (r == "\nERROR\n") { t.wit(4); t.ck(neg(s.env(x, i)), "XMAKETRANS refuses an input that the safety assumptions allow"); continue; }
    int y, g; t.must(parse(r, y, g), "malformed answer to XMAKETRANS: " + r); t.must(s.inOf(y) == i, "XMAKETRANS answers with another input than given"); t.ck(s.env(x, i), "XMAKETRANS accepts an input that the safety assumptions forbid"); t.ck(s.sys(x, y), "XMAKETRANS violates the safety guarantees"); t.ck(f.W[y], "XMAKETRANS leaves the winning positions");
    std::vector<int> p = path[n]; p.push_back(i); Edge ed; ed.from = n; ed.to = add(y, g, p); ed.live = s.env(x, i); e.push_back(ed); cur = ed.to; }
  int N = nodes.size(); std::vector<std::vector<Lit>> inf; for (auto &A : s.lA) { std::vector<Lit> v; for (auto &q : e) v.push_back(A[nodes[q.from].first + S * nodes[q.to].first]); inf.push_back(v); } if (inf.empty()) inf.push_back(std::vector<Lit>(e.size(), T));
  for (auto &G : s.lG) { std::vector<Edge> q = e; for (auto &h : q) h.live = And(h.live, neg(G[nodes[h.from].first + S * nodes[h.to].first])); t.ck(neg(fairPath(N, q, inf, std::vector<Lit>(N, T))), "steps can go on forever with the liveness assumptions but without some liveness guarantee"); }
}
// random steps: any winning choice will do
void randomWalk(Talk &t) {
  const Spec &s = t.s; Ref f = ref(s); if (!decide(f.real)) { t.wit(0); return; } t.wit(1); Lit ex = F; for (int x = 0; x < s.S(); x++) ex = Or(ex, AndAll({s.initEnv[s.inOf(x)], s.initSys[x], f.W[x]})); if (!decide(ex)) return;
  std::string r = t.ask("XGETINIT\n"); t.must((int)r.size() > s.n() && isBits(r.substr(1, s.n()), s.n()), "malformed answer to XGETINIT"); int x = unbits(r.substr(1, s.n())), goal = 0;
  for (int k = 0; k < 6; k++) { int i = (k * 5 + k / 2) % s.NI(); r = t.ask((k == 2 ? "XMAKETRANS\n" : "XMAKETRANSRANDOM\n") + bits(i, s.nIn) + "\n"); if (r == "\nERROR\n") { t.ck(neg(s.env(x, i)), "a random step refuses an input that the safety assumptions allow"); continue; }
    t.must((int)r.size() > s.n() + 2 && isBits(r.substr(1, s.n()), s.n()), "malformed answer to XMAKETRANSRANDOM: " + r); int y = unbits(r.substr(1, s.n())); int g = atoi(r.c_str() + s.n() + 2), nG = s.lG.size(); t.must(s.inOf(y) == i && g >= 0 && g < nG, "wrong answer to XMAKETRANSRANDOM: " + r); t.ck(AndAll({s.env(x, i), s.sys(x, y), f.W[y]}), "a random step is not a safe step to a winning position");
    if (nG > 1) { if (g != goal) for (int j = goal; j != g; j = (j + 1) % nG) t.ck(s.G(j, x, y), "the goal moves on although the step does not satisfy it"); else { Lit all = T; for (int j = 0; j < nG; j++) all = And(all, s.G(j, x, y)); t.ck(Implies(s.G(goal, x, y), all), "the goal does not move on although the step satisfies it"); } }
    goal = g; x = y; }
}
std::string listOf(const std::string &r, const std::string &head) { size_t p = r.find(head); if (p == std::string::npos) return "?"; p += head.size(); return r.substr(p, r.find('\n', p) - p); }
bool inList(const std::string &l, int i) { if (l == "none") return false; std::istringstream is(l); std::string w; while (std::getline(is, w, ',')) if (atoi(w.c_str()) == i && w.find_first_of("0123456789") != std::string::npos) return true; return false; }
const char *LA = "- The transition is a goal transition for the following liveness assumptions: ", *LG = "- The transition is a goal transition for the following liveness guarantees: ", *LS = "- The transition is a possible transition in a strategy for the following goals: ";
void lists(Talk &t, const std::string &r, int x, int y) { const Spec &s = t.s; std::string a = listOf(r, LA), g = listOf(r, LG), st = listOf(r, LS); t.must(a != "?" && g != "?" && st != "?", "malformed answer: " + r);
  for (size_t i = 0; i < s.lA.size(); i++) t.ck(inList(a, i) ? s.A(i, x, y) : neg(s.A(i, x, y)), "the liveness assumptions satisfied by a transition are listed wrongly"); for (size_t i = 0; i < s.lG.size(); i++) t.ck(inList(g, i) ? s.G(i, x, y) : neg(s.G(i, x, y)), "the liveness guarantees satisfied by a transition are listed wrongly"); }
void move(Talk &t, int g) {
  const Spec &s = t.s; Ref f = ref(s); if (!decide(f.real)) { t.wit(0); if (g > (int)s.lG.size()) return; std::string r = t.ask("SETPOS\n" + spaced(0, s.n())); r = t.ask("MOVE\n" + std::to_string(g) + "\n" + (g < (int)s.lG.size() ? spaced(0, s.nIn) : "")); if (g == (int)s.lG.size()) t.must(r.find("Number too large") != std::string::npos, "MOVE accepts a goal that does not exist"); return; } t.wit(1); if (g >= (int)s.lG.size()) return; int S = s.S(); std::vector<Edge> e; std::vector<int> to;
  for (int x = 0; x < S; x++) for (int i = 0; i < s.NI(); i++) {
    t.ask("SETPOS\n" + spaced(x, s.n())); Lit anyIn = F; for (int j = 0; j < s.NI(); j++) anyIn = Or(anyIn, s.env(x, j)); bool some = decide(anyIn); std::string r = t.ask("MOVE\n" + std::to_string(g) + "\n" + (some ? spaced(i, s.nIn, x) : "")); bool none = r.find("There is no allowed next input") != std::string::npos; t.must(none == !some, "MOVE misjudges whether there is an allowed input"); if (none) { t.wit(2); continue; }
    bool ill = r.find("illegal next input") != std::string::npos; t.ck(ill ? neg(s.env(x, i)) : s.env(x, i), "MOVE misjudges whether an input is allowed"); bool err = r.find("Error: Input not allowed here") != std::string::npos; Lit ok = And(f.W[x], s.env(x, i)); if (err) { t.ck(neg(ok), "MOVE refuses an allowed input in a winning position"); continue; }
    int y = i; for (int b = s.nIn; b < s.n(); b++) { size_t p = r.find(" - " + name(s, b) + "' = "); t.must(p != std::string::npos, "MOVE does not show the value of every output"); char c = r[p + 7 + name(s, b).size()]; t.must(c == '0' || c == '1', "malformed answer to MOVE"); if (c == '1') y |= 1 << b; }
    t.wit(3); t.ck(Implies(ok, And(s.sys(x, y), f.W[y])), "MOVE leads out of the winning positions or violates the safety guarantees"); lists(t, r, x, y); Edge q; q.from = x; q.to = y; q.live = ok; e.push_back(q);
    int j = (x + i) % s.NI(); std::string r2 = t.ask("XMAKETRANS\n" + bits(j, s.nIn) + "\n"); t.ck(r2 == "\nERROR\n" ? neg(s.env(y, j)) : s.env(y, j), "the position after MOVE is not the one shown"); if (r2 != "\nERROR\n") { t.must((int)r2.size() > s.n() && isBits(r2.substr(1, s.n()), s.n()), "malformed answer to XMAKETRANS"); int z = unbits(r2.substr(1, s.n())); t.ck(Implies(f.W[y], s.inOf(z) == j ? And(s.sys(y, z), f.W[z]) : F), "the step after MOVE is not a safe step to a winning position"); } }
  std::vector<std::vector<Lit>> inf; for (auto &A : s.lA) { std::vector<Lit> v; for (auto &q : e) v.push_back(A[q.from + S * q.to]); inf.push_back(v); } std::vector<Edge> q = e; for (auto &h : q) h.live = And(h.live, neg(s.G(g, h.from, h.to))); t.ck(neg(fairPath(S, q, inf, std::vector<Lit>(S, T))), "MOVE for one goal can go on forever with the liveness assumptions but without the goal");
}
void checkTrans(Talk &t, int x) {
  const Spec &s = t.s; Ref f = ref(s); bool R = decide(f.real); t.wit(R); if (x >= s.S()) return;
  for (int y = 0; y < s.S(); y++) { std::string r = t.ask("CHECKTRANS\n" + spaced(x, s.n()) + spaced(y, s.n())); auto has = [&](const char *w) { return r.find(w) != std::string::npos; };
    bool w = has("- The pre-position is winning."), nw = has("- The pre-position is not winning."), va = has("VIOLATES the SAFETY ASSUMPTIONS"), sa = has("SATISFIES the SAFETY ASSUMPTIONS"), vg = has("VIOLATES the SAFETY GUARANTEES"), sg = has("SATISFIES the SAFETY GUARANTEES"); t.must(w != nw && va != sa && vg != sg, "malformed answer to CHECKTRANS: " + r);
    t.ck(w == R ? f.W[x] : neg(f.W[x]), "CHECKTRANS misjudges whether a position is winning"); t.ck(sa ? s.env(x, s.inOf(y)) : neg(s.env(x, s.inOf(y))), "CHECKTRANS misjudges the safety assumptions"); t.ck(sg ? s.sys(x, y) : neg(s.sys(x, y)), "CHECKTRANS misjudges the safety guarantees"); lists(t, r, x, y);
    std::string st = listOf(r, LS); if (R) for (size_t i = 0; i < s.lG.size(); i++) if (inList(st, i)) t.ck(Implies(And(f.W[x], s.env(x, s.inOf(y))), And(s.sys(x, y), f.W[y])), "CHECKTRANS lists an unsafe or losing transition as a strategy move"); }
}
bool fits(int v, int n, int forced, int from) { for (int b = 0; b < n; b++) { int d = forced % 3; forced /= 3; if (d < 2 && (v >> (b + from) & 1) != d) return false; } return true; }
std::string pat(int n, int forced) { std::string r; for (int b = 0; b < n; b++) { r += "01."[forced % 3]; forced /= 3; } return r; }
int letters(Talk &t, const std::string &l) { t.must((int)l.size() == t.s.n() && l.find_first_not_of("aAgGsS01") == std::string::npos, "malformed valuation: " + l); int v = 0; for (size_t b = 0; b < l.size(); b++) if (strchr("AGS1", l[b])) v |= 1 << b; return v; }
// which bits are implied by the successive restrictions A, B, C
void mustness(Talk &t, const std::string &l, const LV &A, const LV *B, const LV *C, char cb, char cc) {
  for (size_t b = 0; b < l.size(); b++) { auto implied = [&](const LV &X) { Lit one = T, zero = T; for (size_t v = 0; v < X.size(); v++) (v >> b & 1 ? zero : one) = And(v >> b & 1 ? zero : one, neg(X[v])); return Or(one, zero); }; char c = tolower(l[b]); Lit ia = implied(A), ib = B ? implied(*B) : F, ic = C ? implied(*C) : F, want = c == 'a' ? ia : c == cb ? And(neg(ia), ib) : c == cc ? AndAll({neg(ia), neg(ib), ic}) : AndAll({neg(ia), neg(ib), neg(ic)}); t.ck(want, std::string("the letter ") + l[b] + " does not tell why the value is forced"); } }
void completeInit(Talk &t, int forced) {
  const Spec &s = t.s; Ref f = ref(s); bool R = decide(f.real); t.wit(R); int p3 = 1; for (int b = 0; b < s.n(); b++) p3 *= 3; if (forced >= p3) return; LV A, B, C; Lit eA = T, eB = T, eC = T;
  for (int x = 0; x < s.S(); x++) { Lit a = fits(x, s.n(), forced, 0) ? s.initEnv[s.inOf(x)] : F, b = And(a, R ? s.initSys[x] : neg(f.W[x])), c = And(b, R ? f.W[x] : s.initSys[x]); A.push_back(a); B.push_back(b); C.push_back(c); eA = And(eA, neg(a)); eB = And(eB, neg(b)); eC = And(eC, neg(c)); }
  std::string r = t.ask("XCOMPLETEINIT\n" + pat(s.n(), forced) + "\n"); std::vector<std::string> l = lines(r); t.must(l.size() >= 2 && l[0] == "", "malformed answer to XCOMPLETEINIT: " + r); bool free = forced == p3 - 1;
  if (l[1] == "FAILASSUMPTIONS") { t.wit(2); t.ck(eA, "XCOMPLETEINIT says FAILASSUMPTIONS although an admissible initial position exists"); return; } t.ck(neg(eA), "XCOMPLETEINIT does not say FAILASSUMPTIONS although no admissible initial position exists");
  if (l[1] == "FORCEDNONWINNING") { t.wit(3); t.ck(R ? And(neg(eB), eC) : free ? F : eB, "XCOMPLETEINIT says FORCEDNONWINNING although a suitable position exists"); return; }
  if (l[1] == "FAILGUARANTEES") { t.wit(4); t.must(l.size() >= 3, "malformed answer to XCOMPLETEINIT"); int v = letters(t, l[2]); if (R) { t.ck(eB, "XCOMPLETEINIT says FAILGUARANTEES although a suitable position exists"); t.ck(A[v], "XCOMPLETEINIT shows a position that is not admissible"); } else { t.ck(free ? eC : And(neg(eB), eC), "XCOMPLETEINIT says FAILGUARANTEES although a suitable position exists"); t.ck(A[v], "XCOMPLETEINIT shows a position that is not admissible"); } return; }
  t.wit(5); int v = letters(t, l[1]); t.ck(C[v], "XCOMPLETEINIT shows a position that is not initial and winning"); mustness(t, l[1], A, &B, &C, R ? 'g' : 's', R ? 's' : 'g');
}
void stratTrans(Talk &t, int k) {
  const Spec &s = t.s; Ref f = ref(s); bool R = decide(f.real); t.wit(R); int p3 = 1; for (int b = 0; b < s.n(); b++) p3 *= 3; if (k >= p3 * s.S()) return; int x = k % s.S(), forced = k / s.S(), nA = s.lA.size(), nG = s.lG.size(); LV A, B; Lit eA = T, eB = T; int fo = forced, p = 1; for (int b = 0; b < s.nIn; b++) { fo /= 3; p *= 3; } bool freeIn = forced % p == p - 1, freeOut = fo == p3 / p - 1;
  for (int y = 0; y < s.S(); y++) { Lit a = fits(y, s.n(), forced, 0) ? s.env(x, s.inOf(y)) : F, b = And(a, s.sys(x, y)); A.push_back(a); B.push_back(b); eA = And(eA, neg(a)); eB = And(eB, neg(b)); }
  for (int a = 0; a < nA; a++) for (int g = 0; g < nG; g++) { if (nA * nG > 2 && (a + g) % 2) continue;
    std::string r = t.ask("XSTRATEGYTRANSITION\n" + bits(x, s.n()) + pat(s.n(), forced) + "\n" + std::to_string(a) + "\n" + std::to_string(g) + "\n"); std::vector<std::string> l = lines(r); t.must(l.size() >= 2 && l[0] == "", "malformed answer to XSTRATEGYTRANSITION: " + r);
    if (l[1] == "FAILASSUMPTIONS") { t.wit(2); t.ck(eA, "XSTRATEGYTRANSITION says FAILASSUMPTIONS although a move is allowed"); continue; } t.ck(neg(eA), "XSTRATEGYTRANSITION does not say FAILASSUMPTIONS although no move is allowed");
    if (l[1] == "FORCEDNONWINNING") { t.wit(3); t.ck(R ? And(neg(eB), freeOut ? neg(f.W[x]) : T) : freeIn ? f.W[x] : T, "XSTRATEGYTRANSITION says FORCEDNONWINNING although the winning player can move"); continue; }
    if (l[1] == "FAILGUARANTEES") { t.wit(4); t.must(l.size() >= 5, "malformed answer to XSTRATEGYTRANSITION"); int v = letters(t, l[2]); t.ck(A[v], "XSTRATEGYTRANSITION shows a move that is not allowed"); Lit any = F; for (int y = 0; y < s.S(); y++) if (R || s.inOf(y) == s.inOf(v)) any = Or(any, B[y]); t.ck(neg(any), "XSTRATEGYTRANSITION says FAILGUARANTEES although the guarantees allow a move"); t.must(l[3] == std::to_string(a) && l[4] == std::to_string(g), "XSTRATEGYTRANSITION changes the goals without a move"); continue; }
    t.wit(5); t.must(l.size() >= 4, "malformed answer to XSTRATEGYTRANSITION"); int v = letters(t, l[1]); t.ck(B[v], "XSTRATEGYTRANSITION shows a move that violates the assumptions, the guarantees or the forced values"); t.ck(R ? Implies(f.W[x], f.W[v]) : Implies(f.W[v], f.W[x]), "XSTRATEGYTRANSITION leaves the positions that the winning player wins"); int a2 = atoi(l[2].c_str()), g2 = atoi(l[3].c_str());
    auto moved = [&](int n, int from, int to, Lit hit, const char *m) { Lit w = T; if (n > 1) w = to == (from + 1) % n ? hit : to == from ? neg(hit) : F; else if (to != from) w = F; t.ck(w, m); }; moved(nA, a, a2, s.A(a, x, v), "XSTRATEGYTRANSITION answers with the wrong assumption number"); moved(nG, g, g2, s.G(g, x, v), "XSTRATEGYTRANSITION answers with the wrong guarantee number"); mustness(t, l[1].substr(0, 0), A, 0, 0, 'g', 's');
    for (size_t b = 0; b < l[1].size(); b++) { Lit one = T, zero = T; for (int y = 0; y < s.S(); y++) (y >> b & 1 ? zero : one) = And(y >> b & 1 ? zero : one, neg(A[y])); t.ck(Eq(Or(one, zero), tolower(l[1][b]) == 'a' ? T : F), "XSTRATEGYTRANSITION: the letters a, A do not tell which values the assumptions force"); } }
}
// the moves of XSTRATEGYTRANSITION, followed forever by the player that wins
void stratWalk(Talk &t) {
  const Spec &s = t.s; Ref f = ref(s); bool R = decide(f.real); t.wit(R); int S = s.S(), nA = s.lA.size(), nG = s.lG.size(), M = R ? nG : nA; std::vector<Edge> e; std::string dots(s.nIn, '.'), odots(s.nOut, '.');
  auto cmd = [&](int x, const std::string &fo, int m) { return lines(t.ask("XSTRATEGYTRANSITION\n" + bits(x, s.n()) + fo + "\n" + std::to_string(R ? 0 : m) + "\n" + std::to_string(R ? m : 0) + "\n")); };
  for (int x = 0; x < S; x++) for (int m = 0; m < M; m++) {
    if (R) { for (int i = 0; i < s.NI(); i++) { auto l = cmd(x, bits(i, s.nIn) + odots, m); t.must(l.size() >= 2, "malformed answer to XSTRATEGYTRANSITION"); if (l[1] == "FAILASSUMPTIONS") { t.ck(neg(s.env(x, i)), "XSTRATEGYTRANSITION refuses an allowed input"); continue; } if (l[1] == "FORCEDNONWINNING" || l[1] == "FAILGUARANTEES") { t.ck(neg(f.W[x]), "XSTRATEGYTRANSITION has no move in a winning position"); continue; } t.must(l.size() >= 4, "malformed answer"); int y = letters(t, l[1]), m2 = atoi(l[3].c_str()); t.must(s.inOf(y) == i && m2 >= 0 && m2 < M, "wrong answer to XSTRATEGYTRANSITION"); Edge q; q.from = x * M + m; q.to = y * M + m2; q.live = And(f.W[x], s.env(x, i)); t.ck(Implies(q.live, And(s.sys(x, y), f.W[y])), "XSTRATEGYTRANSITION leaves the winning positions"); e.push_back(q); } continue; }
    Lit L = neg(f.W[x]); auto l = cmd(x, dots + odots, m); t.must(l.size() >= 2, "malformed answer to XSTRATEGYTRANSITION"); if (l[1] == "FAILASSUMPTIONS" || l[1] == "FORCEDNONWINNING") { t.ck(neg(L), "XSTRATEGYTRANSITION has no move for the environment in a position that it wins"); continue; } t.must(l.size() >= 4, "malformed answer"); int i = s.inOf(letters(t, l[1] == "FAILGUARANTEES" ? l[2] : l[1])); t.ck(Implies(L, s.env(x, i)), "XSTRATEGYTRANSITION: the environment's move violates the safety assumptions");
    for (int o = 0; o < s.NO(); o++) { l = cmd(x, bits(i, s.nIn) + bits(o, s.nOut), m); t.must(l.size() >= 2, "malformed answer to XSTRATEGYTRANSITION"); int y = s.st(i, o); if (l[1] == "FAILGUARANTEES") { t.ck(Implies(L, neg(s.sys(x, y))), "XSTRATEGYTRANSITION says that an allowed reaction fails the guarantees"); continue; } if (l[1] == "FAILASSUMPTIONS" || l[1] == "FORCEDNONWINNING") { t.ck(neg(L), "XSTRATEGYTRANSITION: the environment's move depends on the system's reaction"); continue; } t.must(l.size() >= 4, "malformed answer"); t.must(letters(t, l[1]) == y, "XSTRATEGYTRANSITION changes a forced value"); int m2 = atoi(l[2].c_str()); t.must(m2 >= 0 && m2 < M, "wrong assumption number"); t.ck(Implies(L, And(s.sys(x, y), neg(f.W[y]))), "XSTRATEGYTRANSITION: the environment gives up a position that it wins"); Edge q; q.from = x * M + m; q.to = y * M + m2; q.live = L; e.push_back(q); } }
  int N = S * M; auto tab = [&](const LV &X) { std::vector<Lit> v; for (auto &q : e) v.push_back(X[q.from / M + S * (q.to / M)]); return v; }; std::vector<Lit> all(N, T); std::vector<std::vector<Lit>> A, G; for (auto &X : s.lA) A.push_back(tab(X)); for (auto &X : s.lG) G.push_back(tab(X)); auto without = [&](const std::vector<Lit> &v) { std::vector<Edge> q = e; for (size_t k = 0; k < q.size(); k++) q[k].live = And(q[k].live, neg(v[k])); return q; };
  if (R) { for (auto &g : G) t.ck(neg(fairPath(N, without(g), A, all)), "the moves can go on forever with the liveness assumptions but without some liveness guarantee"); }
  else { for (auto &a : A) t.ck(neg(fairPath(N, without(a), {std::vector<Lit>(e.size(), T)}, all)), "the environment's moves can go on forever without some liveness assumption"); t.ck(neg(fairPath(N, e, G, all)), "the environment's moves let the system satisfy all liveness guarantees"); }
}
typedef std::function<void(Talk &)> Logic;
CheckDef def(const Logic &f) {
  CheckDef d({"--interactiveStrategy"}, 0, [f](const Spec &s, const Run &r) { Talk t(s); t.judge = true; t.resp = segments(r.out); if (t.resp.size()) t.resp.pop_back(); int v = needVerdict(r); Lit real = ref(s).real; check(v ? real : neg(real), "wrong verdict"); if (r.exitCode) fail("the session ends with exit status " + std::to_string(r.exitCode)); f(t); });
  d.session = [f](const Spec &s, const std::string &out) { static size_t last = 0; Talk t(s); t.resp = segments(out); if (t.resp.size() == last) return std::string(); last = t.resp.size(); t.resp.pop_back(); try { f(t); return std::string("QUIT\n"); } catch (Need &n) { return n.cmd; } }; return d;
}
void variants(const std::string &n, int k, const std::function<void(Talk &, int)> &f) { CheckDef d = def([f](Talk &t) { f(t, 0); }); for (int v = 0; v < k; v++) d.variants.push_back(def([f, v](Talk &t) { f(t, v); })); registry()[n] = d; }
struct Init { Init() { registry()["interStep"] = def(walk); registry()["interRandom"] = def(randomWalk); registry()["interFollow"] = def(stratWalk); variants("interMove", 3, move); variants("interCheck", 8, checkTrans); variants("interComplete", 27, completeInit); variants("interTrans", 36, stratTrans); } } init_;
}
