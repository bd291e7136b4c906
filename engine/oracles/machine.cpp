#include "machine.h"
#include <cstring>
using namespace sym;
static int parseValuation(const Spec &s, const std::string &t, bool &inputsOnly) { // "i0:0, o0:1"
  size_t p = 0; int st = 0; inputsOnly = false;
  for (int b = 0; b < s.n(); b++) {
    if (b == s.nIn && p == t.size() && b > 0) { inputsOnly = true; return st; }
    std::string n = (b ? ", " : "") + (b < s.nIn ? "i" + std::to_string(b) : "o" + std::to_string(b - s.nIn)) + ":";
    if (t.compare(p, n.size(), n)) fail("malformed state valuation: " + t);
    p += n.size(); if (p >= t.size() || (t[p] != '0' && t[p] != '1')) fail("malformed state valuation: " + t);
    if (t[p] == '1') st |= 1 << b; p++;
  }
  while (t.compare(p, 3, ", _") == 0) { p = t.find(':', p); if (p == std::string::npos || p + 1 >= t.size() || (t[p + 1] != '0' && t[p + 1] != '1')) fail("malformed state valuation: " + t); p += 2; } // helper bits of the implementation
  if (p != t.size()) fail("malformed state valuation: " + t);
  return st;
}
static std::vector<int> parseSucc(const std::string &t, size_t p) {
  std::vector<int> r; if (p >= t.size()) return r;
  while (true) { if (!isdigit(t[p])) fail("malformed successor list: " + t); char *e; r.push_back(strtol(t.c_str() + p, &e, 10)); p = e - t.c_str(); if (p == t.size()) return r; if (t.compare(p, 2, ", ")) fail("malformed successor list: " + t); p += 2; }
}
static void add(Machine &m, const Node &n) { if (m.byId.count(n.id)) fail("state number printed twice: " + std::to_string(n.id)); m.byId[n.id] = m.nodes.size(); m.nodes.push_back(n); }
Machine parseText(const Spec &s, const std::string &out) {
  Machine m; std::vector<std::string> l = lines(out); size_t i = 0;
  while (i < l.size()) {
    if (l[i] == "") { i++; continue; }
    Node n; char rest[512]; bool cs = false;
    if (sscanf(l[i].c_str(), "State %d with rank (%d,%d) -> <%511[^>]>", &n.id, &n.rank, &n.rank2, rest) == 4) cs = true;
    else if (sscanf(l[i].c_str(), "State %d with rank %d -> <%511[^>]>", &n.id, &n.rank, rest) != 3) fail("unexpected output line: " + l[i]);
    if (l[i][l[i].size() - 1] != '>') fail("unexpected output line: " + l[i]);
    bool in; n.state = parseValuation(s, rest, in); n.deadlock = in;
    if (++i >= l.size()) fail("state without successor line");
    std::string w = "\tWith successors : ", no = "\tWith no successors.";
    if (l[i] == no) { if (!cs) fail("unexpected line: " + l[i]); n.deadlock = true; i++; }
    else { if (l[i].compare(0, w.size(), w)) fail("unexpected line: " + l[i]); n.succ = parseSucc(l[i], w.size()); if (n.deadlock) fail("state without output values has successors"); i++; }
    add(m, n);
  }
  wellFormed(m); return m;
}
Machine parsePermissive(const Spec &s, const std::string &out) {
  Machine m; std::vector<std::string> l = lines(out); size_t i = 0;
  while (i < l.size()) {
    Node n; if (l[i] == "") { i++; continue; }
    if (sscanf(l[i].c_str(), "State %d with rank %d", &n.id, &n.rank) != 2) fail("unexpected output line: " + l[i]);
    if (++i >= l.size()) fail("truncated output"); bool in; n.state = parseValuation(s, l[i], in); if (in) fail("truncated valuation"); i++;
    while (i < l.size() && l[i] != "") { std::vector<int> v = parseSucc(l[i], 0); if (v.size() != 1) fail("unexpected successor line: " + l[i]); n.succ.push_back(v[0]); i++; }
    add(m, n);
  }
  wellFormed(m); return m;
}
// ---- strict JSON ----
namespace {
struct J { enum { Num, Str, Arr, Obj } k; long num = 0; std::string str; std::vector<J> arr; std::vector<std::pair<std::string, J>> obj;
  const J *get(const std::string &n) const { const J *r = 0; for (auto &p : obj) if (p.first == n) { if (r) fail("duplicate JSON key " + n); r = &p.second; } if (!r) fail("missing JSON key " + n); return r; } };
struct JP { const std::string &t; size_t p; JP(const std::string &x) : t(x), p(0) {}
  void ws() { while (p < t.size() && strchr(" \t\r\n", t[p])) p++; }
  void bad(const std::string &w) { fail("output is not valid JSON (" + w + " at offset " + std::to_string(p) + "): " + t); }
  char c() { ws(); if (p >= t.size()) bad("premature end"); return t[p]; }
  J val() {
    J j; char x = c();
    if (x == '{') { j.k = J::Obj; p++; if (c() == '}') { p++; return j; } while (true) { if (c() != '"') bad("expected key"); J k = val(); if (c() != ':') bad("expected ':'"); p++; J v = val(); for (auto &o : j.obj) if (o.first == k.str) bad("duplicate key"); j.obj.push_back(std::make_pair(k.str, v)); if (c() == ',') { p++; continue; } if (c() == '}') { p++; return j; } bad("expected , or }"); } }
    if (x == '[') { j.k = J::Arr; p++; if (c() == ']') { p++; return j; } while (true) { j.arr.push_back(val()); if (c() == ',') { p++; continue; } if (c() == ']') { p++; return j; } bad("expected , or ]"); } }
    if (x == '"') { j.k = J::Str; p++; while (p < t.size() && t[p] != '"') { if ((unsigned char)t[p] < 32 || t[p] == '\\') bad("unsupported character in string"); j.str += t[p++]; } if (p >= t.size()) bad("unterminated string"); p++; return j; }
    if (isdigit(x) || x == '-') { j.k = J::Num; char *e; j.num = strtol(t.c_str() + p, &e, 10); p = e - t.c_str(); return j; }
    bad("unexpected character"); return j;
  } };
}
Machine parseJson(const Spec &s, const std::string &out) {
  JP q(out); J j = q.val(); q.ws(); if (q.p != out.size()) q.bad("trailing characters");
  if (j.k != J::Obj) fail("JSON output is not an object");
  const J *v = j.get("variables"); if (v->k != J::Arr) fail("JSON 'variables' is not a list"); std::vector<int> bit; std::vector<bool> seen(s.n());
  for (auto &x : v->arr) { int b = -1; for (int i = 0; i < s.n(); i++) if (x.str == (i < s.nIn ? "i" + std::to_string(i) : "o" + std::to_string(i - s.nIn))) b = i; if (x.k == J::Str && x.str[0] == '_') { bit.push_back(-1); continue; } if (x.k != J::Str || b < 0 || seen[b]) fail("JSON 'variables' does not list every variable once"); seen[b] = true; bit.push_back(b); }
  for (bool b : seen) if (!b) fail("JSON 'variables' does not list every variable once");
  const J *nodes = j.get("nodes"); if (nodes->k != J::Obj) fail("JSON 'nodes' is not an object"); Machine m;
  for (auto &k : nodes->obj) {
    Node n; char *e; n.id = strtol(k.first.c_str(), &e, 10); if (*e || k.first.empty()) fail("JSON node name is not a number");
    const J *r = k.second.get("rank"), *st = k.second.get("state"), *tr = k.second.get("trans"); if (r->k != J::Num || st->k != J::Arr || tr->k != J::Arr) fail("JSON node has wrong types");
    n.rank = r->num; n.state = 0; if (st->arr.size() != bit.size()) fail("JSON state vector has the wrong length");
    for (size_t i = 0; i < bit.size(); i++) { if (st->arr[i].k != J::Num || (st->arr[i].num & ~1L)) fail("JSON state value is not 0/1"); if (st->arr[i].num && bit[i] >= 0) n.state |= 1 << bit[i]; }
    for (auto &x : tr->arr) { if (x.k != J::Num) fail("JSON successor is not a number"); n.succ.push_back(x.num); }
    add(m, n);
  }
  wellFormed(m); return m;
}
void wellFormed(const Machine &m) { for (auto &n : m.nodes) for (int t : n.succ) if (!m.has(t)) fail("successor " + std::to_string(t) + " of state " + std::to_string(n.id) + " is not listed"); }
Lit fairPath(int n, const std::vector<Edge> &e, const std::vector<std::vector<Lit>> &inf, const std::vector<Lit> &start) {
  std::vector<Lit> Z(n, T);
  for (int it = 0; it <= n; it++) {
    std::vector<Lit> nz = Z;
    for (auto &A : inf) { // least fixed point: reach an A-edge into Z along live edges within Z
      std::vector<Lit> Y(n, F);
      for (int k = 0; k < n; k++) { std::vector<Lit> ny = Y; for (size_t x = 0; x < e.size(); x++) ny[e[x].from] = Or(ny[e[x].from], AndAll({e[x].live, Z[e[x].to], Or(A[x], Y[e[x].to])})); if (ny == Y) break; Y = ny; }
      for (int i = 0; i < n; i++) nz[i] = And(nz[i], Y[i]);
    }
    if (nz == Z) break; Z = nz;
  }
  // reachability from start along live edges (the caller passes all nodes as start when every node counts)
  std::vector<Lit> R = start; for (int k = 0; k < n; k++) { std::vector<Lit> nr = R; for (auto &x : e) nr[x.to] = Or(nr[x.to], And(R[x.from], x.live)); if (nr == R) break; R = nr; }
  Lit r = F; for (int i = 0; i < n; i++) r = Or(r, And(Z[i], R[i])); return r;
}
void checkController(const Spec &s, const Machine &m, const MachineMode &mode) {
  int n = m.nodes.size();
  // initial coverage
  Lit ok = T; LV W; if (mode.recovery || mode.permissive) W = refWinning(s);
  auto present = [&](int st) { for (auto &x : m.nodes) if (x.state == st && x.rank == 0) return true; return false; };
  if (mode.permissive) { for (int st = 0; st < s.S(); st++) if (!present(st)) ok = And(ok, neg(W[st])); }
  else if (mode.recovery && !mode.cost) { for (int st = 0; st < s.S(); st++) if (!present(st)) ok = And(ok, neg(And(s.initSys[st], W[st]))); }
  else if (mode.robotics) { for (int st = 0; st < s.S(); st++) if (!present(st)) ok = And(ok, neg(And(s.initSys[st], s.initEnv[s.inOf(st)]))); }
  check(ok, "an admissible starting state is missing from the printed machine");
  ok = T;
  for (int in = 0; in < s.NI(); in++) { Lit any = F; for (int o = 0; o < s.NO(); o++) if (present(s.st(in, o))) any = Or(any, s.initSys[s.st(in, o)]); ok = And(ok, Implies(s.initEnv[in], any)); }
  if (!mode.permissive && !(mode.robotics && !mode.cost)) check(mode.robotics ? T : ok, "some admissible initial input has no starting state");
  Lit safe = T, recept = T, det = T, legal = T, rec = T, dead = T; std::vector<Edge> e;
  for (int i = 0; i < n; i++) {
    const Node &x = m.nodes[i]; std::vector<int> cnt(s.NI()); Lit anyIn = F;
    for (int t : x.succ) { const Node &y = m.n(t); int in = s.inOf(y.state); cnt[in]++; Edge g; g.from = i; g.to = m.byId.at(t); g.live = s.env(x.state, in); e.push_back(g);
      safe = And(safe, s.sys(x.state, y.state)); if (!mode.recovery) legal = And(legal, g.live); }
    for (int in = 0; in < s.NI(); in++) {
      anyIn = Or(anyIn, s.env(x.state, in));
      if (!cnt[in]) { recept = And(recept, neg(s.env(x.state, in)));
        if (mode.recovery && !mode.cost) for (int o = 0; o < s.NO(); o++) rec = And(rec, neg(And(s.sys(x.state, s.st(in, o)), W[s.st(in, o)]))); }
      if (cnt[in] > 1 && !mode.permissive) det = F;
    }
    if (mode.cooperative) dead = And(dead, anyIn);
  }
  check(safe, "the machine has a transition that violates the safety guarantees");
  check(legal, "the machine lists a transition for an input that the safety assumptions forbid");
  check(recept, "some state has no successor for an input that the safety assumptions allow");
  check(det, "some state has two successors for the same input");
  check(rec, "no recovery successor although a guarantee-respecting move into a winning state exists");
  check(dead, "the cooperative strategy leads into a state in which the environment has no allowed input");
  std::vector<std::vector<Lit>> inf; for (auto &A : s.lA) { std::vector<Lit> v; for (auto &g : e) { int a = m.nodes[g.from].state, b = m.nodes[g.to].state; v.push_back(A[a + s.S() * b]); } inf.push_back(v); }
  if (inf.empty()) inf.push_back(std::vector<Lit>(e.size(), T));
  for (auto &G : s.lG) { std::vector<Edge> f = e; for (auto &g : f) g.live = And(g.live, neg(G[m.nodes[g.from].state + s.S() * m.nodes[g.to].state]));
    check(neg(fairPath(n, f, inf, std::vector<Lit>(n, T))), "the machine has a run that satisfies the liveness assumptions but not every liveness guarantee"); }
}
