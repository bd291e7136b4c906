#include "spec.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
using namespace sym;
static Lit fr(int mode, const std::string &n) { return mode == 0 ? T : fresh(n); }
Spec symbolicSpec(const Shape &h) {
  Spec s; s.nIn = h.nIn; s.nOut = h.nOut + h.nMot; s.nMot = h.nMot; s.nCtl = h.nCtl; int S = s.S();
  for (int i = 0; i < s.NI(); i++) s.initEnv.push_back(fr(h.initEnv, "initEnv_" + std::to_string(i)));
  for (int i = 0; i < S; i++) s.initSys.push_back(fr(h.initSys, "initSys_" + std::to_string(i)));
  // mode 0: TRUE, 1: symbolic over the pre-state, 2: fully symbolic, 3: symbolic over the post-state,
  // seed >= 10: a fixed pseudo-random relation (the seed picks it) in which a few entries are symbolic
  auto comp = [&](int mode, int posts, const std::string &n, int density) {
    LV v(S * posts, T); LV row; unsigned long r = mode * 2654435761ul + 12345; for (char c : n) r = r * 131 + c;
    if (mode >= 10 && density >= 50) density = density - 25 + (mode * 7 % 4) * 15;
    auto rnd = [&]() { r = r * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)(r >> 33); };
    if (mode == 1 || mode == 3) for (int i = 0; i < (mode == 3 ? posts : S); i++) row.push_back(fresh(n + "_" + std::to_string(i)));
    for (int p = 0; p < posts; p++) for (int i = 0; i < S; i++) { Lit &l = v[i + S * p];
      if (mode == 0) l = T; else if (mode == 1) l = row[i]; else if (mode == 3) l = row[p]; else if (mode == 2) l = fresh(n + "_" + std::to_string(i) + "_" + std::to_string(p)); else l = (int)(rnd() % 100) < density ? T : F; }
    if (mode >= 10) { std::vector<int> pre; if (density < 50) { for (int i = 0; i < S; i++) pre.push_back((int)(rnd() % 100) < density); for (int p = 0; p < posts; p++) for (int i = 0; i < S; i++) v[i + S * p] = pre[i] ? T : F; }
      for (int k = 0; k < (mode >= 100 ? mode / 100 * 2 : 5); k++) { int e = rnd() % v.size(); if (v[e] == T || v[e] == F) v[e] = fresh(n + "_" + std::to_string(e)); } }
    return v;
  };
  for (int k = 0; k < h.parts; k++) s.parts.push_back(comp(h.sE, s.NI(), "safetyEnv" + std::to_string(k), 80));
  if (h.parts) { s.sE = LV(S * s.NI(), T); for (auto &q : s.parts) for (size_t i = 0; i < q.size(); i++) s.sE[i] = And(s.sE[i], q[i]); } else s.sE = comp(h.sE, s.NI(), "safetyEnv", 80);
  s.sS = comp(h.sS, S << s.nCtl, "safetySys", s.nOut == 1 ? 65 : 50);
  s.noA = h.nA == 0; s.noG = h.nG == 0; if (s.noA) s.lA.push_back(LV(S * S, T)); if (s.noG) s.lG.push_back(LV(S * S, T)); // no lines: one trivial property
  for (int i = 0; i < h.nA; i++) { if (!s.nMot) { s.lA.push_back(comp(h.lA, S, "liveA" + std::to_string(i), 35)); continue; } LV v = comp(h.lA, s.NI(), "liveA" + std::to_string(i), 35), w; for (int t = 0; t < S; t++) for (int x = 0; x < S; x++) w.push_back(v[x + S * s.inOf(t)]); s.lA.push_back(w); }
  for (int i = 0; i < h.nG; i++) s.lG.push_back(comp(h.lG, S << s.nCtl, "liveG" + std::to_string(i), 35));
  if (s.nMot) { unsigned long r = h.robot * 7919 + 17; for (size_t i = 0; i < (size_t)1 << (2 * s.nMot + s.nCtl); i++) { r = r * 6364136223846793005ul + 1442695040888963407ul; s.robot.push_back(h.robot == 0 ? T : h.robot == 2 || (r >> 60) < 4 ? fresh("robot_" + std::to_string(i)) : (r >> 40) % 100 < 55 ? T : F); } }
  return s;
}
static void dv(FILE *f, const char *n, const LV &v) { fprintf(f, "%s ", n); for (Lit l : v) fputc(modelValue(l) ? '1' : '0', f); fputc('\n', f); }
void dumpSpec(FILE *f, const Spec &s) {
  fprintf(f, "vars %d %d\n", s.nIn, s.nOut);
  dv(f, "initEnv", s.initEnv); dv(f, "initSys", s.initSys); dv(f, "sE", s.sE); dv(f, "sS", s.sS); for (auto &q : s.parts) dv(f, "part", q);
  if (s.nMot) { fprintf(f, "motion %d %d\n", s.nMot, s.nCtl); dv(f, "robot", s.robot); }
  fprintf(f, "none %d %d\n", s.noA, s.noG);
  for (auto &l : s.lA) dv(f, "lA", l); for (auto &l : s.lG) dv(f, "lG", l);
}
Spec loadSpec(const std::string &file) {
  Spec s; std::ifstream in(file.c_str()); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k, b; is >> k; if (k == "" || k[0] == '#') continue;
    if (k == "vars") { is >> s.nIn >> s.nOut; continue; }
    if (k == "none") { is >> s.noA >> s.noG; continue; }
    if (k == "motion") { is >> s.nMot >> s.nCtl; continue; }
    LV v; is >> b; for (char c : b) v.push_back(c == '1' ? T : F);
    if (k == "initEnv") s.initEnv = v; else if (k == "robot") s.robot = v; else if (k == "initSys") s.initSys = v; else if (k == "sE") s.sE = v; else if (k == "sS") s.sS = v; else if (k == "part") s.parts.push_back(v); else if (k == "lA") s.lA.push_back(v); else if (k == "lG") s.lG.push_back(v);
  }
  return s;
}
std::string textFormat;
bool estFormat() { return textFormat.compare(0, 3, "est") == 0; }
std::string outName(int k) { return (textFormat == "estmm" ? k % 2 ? "max_o" : "min_o" : "o") + std::to_string(k); }
int nUnobs(int nIn) { return nIn >= 4 ? 2 : 1; } int nCtlIn(int nIn) { return nIn >= 3 ? 1 : 0; }
int nFast(const Spec &s) { return (s.nOut + 1) / 2; }
static std::string declarations(int nIn, int nOut, int nMot = 0, int nCtl = 0) {
  std::ostringstream o;
  if (estFormat()) { o << "[UNOBSERVABLE_INPUT]\n"; for (int i = 0; i < nIn; i++) { if (i == nUnobs(nIn)) o << "[OBSERVABLE_INPUT]\n"; if (i && i == nIn - nCtlIn(nIn)) o << "[CONTROLLABLE_INPUT]\n"; o << "i" << i << "\n"; } o << "[OUTPUT]\n"; for (int i = 0; i < nOut; i++) o << outName(i) << "\n"; return o.str(); }
  o << "[INPUT]\n"; for (int i = 0; i < nIn; i++) o << "i" << i << "\n"; bool fs = textFormat == "fs"; Spec q; q.nOut = nOut; int f = nFast(q);
  if (nMot) { o << "\n[MOTION STATE OUTPUT]\n"; for (int i = 0; i < nOut; i++) { if (i == nMot) o << "[OTHER OUTPUT]\n"; o << "o" << i << "\n"; } o << "[MOTION CONTROLLER OUTPUT]\n"; for (int i = 0; i < nCtl; i++) o << "c" << i << "\n"; return o.str(); }
  o << (fs ? "\n[OUTPUT_F]\n" : "\n[OUTPUT]\n"); for (int i = 0; i < nOut; i++) { if (fs && i == f) o << "\n[OUTPUT_S]\n"; o << "o" << i << "\n"; }
  return o.str();
}
static std::string bitName(const Spec &s, int b, bool pre) { if (b >= s.n() && !pre) return "c" + std::to_string(b - s.n()) + "'"; std::string r = b < s.nIn ? "i" + std::to_string(b) : outName(b - s.nIn); return pre ? r : r + "'"; }
// table over bits (pre bits then post bits) -> prefix formula (Shannon expansion)
static std::string formula(const Spec &s, const LV &v, int bits) {
  std::function<std::string(size_t, int)> rec = [&](size_t base, int b) -> std::string {
    // v restricted: bits >= b fixed by base; expand bit b-1
    bool all = true, none = true; for (size_t i = 0; i < ((size_t)1 << b); i++) { if (v[base + i] == T) none = false; else all = false; }
    if (all) return "1"; if (none) return "0";
    std::string n = (b - 1 < s.n()) ? bitName(s, b - 1, true) : bitName(s, b - 1 - s.n(), false);
    return "| & " + n + " " + rec(base + ((size_t)1 << (b - 1)), b - 1) + " & ! " + n + " " + rec(base, b - 1);
  };
  return rec(0, bits);
}
std::string specText(const Spec &s) {
  std::ostringstream o; o << declarations(s.nIn, s.nOut, s.nMot, s.nCtl);
  o << "\n[ENV_INIT]\n" << formula(s, s.initEnv, s.nIn) << "\n\n[SYS_INIT]\n" << formula(s, s.initSys, s.n());
  o << "\n\n[ENV_TRANS]\n"; if (s.parts.empty()) o << formula(s, s.sE, s.n() + s.nIn); for (size_t k = 0; k < s.parts.size(); k++) o << (k ? "\n" : "") << partHeader(k) << formula(s, s.parts[k], s.n() + s.nIn);
  o << "\n\n[SYS_TRANS]\n" << formula(s, s.sS, 2 * s.n() + s.nCtl) << "\n"; if (estFormat()) return o.str();
  o << "\n[ENV_LIVENESS]\n"; if (!s.noA) for (auto &l : s.lA) o << formula(s, l, s.nMot ? s.n() + s.nIn : 2 * s.n()) << "\n";
  o << "\n[SYS_LIVENESS]\n"; if (!s.noG) for (auto &l : s.lG) o << formula(s, l, 2 * s.n() + s.nCtl) << "\n";
  return o.str();
}
std::string partHeader(int k) { return k == 0 ? "## first part\n" : k == 2 ? "# just a comment\n" : ""; }
std::string skeletonText(int nIn, int nOut, int nA, int nG, int parts, int nMot, int nCtl) {
  std::ostringstream o; o << declarations(nIn, nOut, nMot, nCtl);
  o << "\n[ENV_INIT]\n1\n\n[SYS_INIT]\n1\n\n[ENV_TRANS]\n"; if (!parts) o << "1\n"; for (int k = 0; k < parts; k++) o << partHeader(k) << "1\n"; o << "\n[SYS_TRANS]\n1\n"; if (estFormat()) return o.str(); o << "\n[ENV_LIVENESS]\n"; for (int i = 0; i < nA; i++) o << "1\n"; o << "\n[SYS_LIVENESS]\n"; for (int i = 0; i < nG; i++) o << "1\n"; return o.str();
}
// environment's controllable predecessor of "good transitions": exists in' with env(s,in') such that for all out': !sys(s,t) or bad(s,t)
static LV cpreEnv(const Spec &s, const std::function<Lit(int, int)> &bad) {
  LV r(s.S());
  for (int x = 0; x < s.S(); x++) { Lit e = F; for (int i = 0; i < s.NI(); i++) { Lit a = s.env(x, i); for (int o = 0; o < s.NO(); o++) { int t = s.st(i, o); a = And(a, Or(neg(s.sys(x, t)), bad(x, t))); } e = Or(e, a); } r[x] = e; }
  return r;
}
static LV cpreSys(const Spec &s, const std::function<Lit(int, int)> &good) {
  LV r(s.S());
  for (int x = 0; x < s.S(); x++) { Lit a = T; for (int i = 0; i < s.NI(); i++) { Lit e = F; for (int o = 0; o < s.NO(); o++) { int t = s.st(i, o); e = Or(e, And(s.sys(x, t), good(x, t))); } a = And(a, Implies(s.env(x, i), e)); } r[x] = a; }
  return r;
}
LV refWinning(const Spec &s) {
  int S = s.S(); LV Z(S, T);
  for (int zi = 0; zi < S; zi++) {
    LV nz(S, T);
    for (size_t j = 0; j < s.lG.size(); j++) {
      LV Y(S, F);
      for (int yi = 0; yi < S; yi++) {
        LV ny(S, F);
        for (size_t i = 0; i < s.lA.size(); i++) {
          LV X(S, T);
          for (int xi = 0; xi < S; xi++) X = cpreSys(s, [&](int a, int b) { return Or(Or(And(s.G(j, a, b), Z[b]), Y[b]), And(neg(s.A(i, a, b)), X[b])); });
          for (int k = 0; k < S; k++) ny[k] = Or(ny[k], X[k]);
        }
        Y = ny;
      }
      for (int k = 0; k < S; k++) nz[k] = And(nz[k], Y[k]);
    }
    Z = nz;
  }
  return Z;
}
LV refEnvWinning(const Spec &s) {
  // mu Z. \/_j nu Y. /\_i mu X. pre_env( (!G_j \/ Z') /\ Y' /\ (A_i \/ X') )
  int S = s.S(); LV Z(S, F);
  for (int zi = 0; zi < S; zi++) {
    LV nz(S, F);
    for (size_t j = 0; j < s.lG.size(); j++) {
      LV Y(S, T);
      for (int yi = 0; yi < S; yi++) {
        LV ny(S, T);
        for (size_t i = 0; i < s.lA.size(); i++) {
          LV X(S, F);
          for (int xi = 0; xi < S; xi++) X = cpreEnv(s, [&](int a, int b) { return And(And(Or(neg(s.G(j, a, b)), Z[b]), Y[b]), Or(s.A(i, a, b), X[b])); });
          for (int k = 0; k < S; k++) ny[k] = And(ny[k], X[k]);
        }
        Y = ny;
      }
      for (int k = 0; k < S; k++) nz[k] = Or(nz[k], Y[k]);
    }
    Z = nz;
  }
  return Z;
}
Lit refRealizable(const Spec &s, const LV &W) {
  Lit r = T; for (int i = 0; i < s.NI(); i++) { Lit e = F; for (int o = 0; o < s.NO(); o++) e = Or(e, And(s.initSys[s.st(i, o)], W[s.st(i, o)])); r = And(r, Implies(s.initEnv[i], e)); } return r;
}
Lit refRealizableRobotics(const Spec &s, const LV &W) {
  Lit r = T; for (int x = 0; x < s.S(); x++) r = And(r, Implies(And(s.initEnv[s.inOf(x)], s.initSys[x]), W[x])); return r;
}
