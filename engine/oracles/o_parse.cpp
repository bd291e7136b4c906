// C25 / C26: reading specification text. The text consists of symbolic tokens (or lines), decided when the program reads them.
#include "machine.h"
#include "gr1context.hpp"
#include <sys/resource.h>
#include <unistd.h>
#include <sys/wait.h>
#include <errno.h>
#include <algorithm>
using namespace sym;
void cnfOracle(const Spec &s, const Run &r);
typedef std::vector<std::string> SV;
// ---- symbolic text: positions 0..L-1, each one element of an alphabet; the last element of the alphabet is "end of text" ----
static SV alphabet; static int L = 0; static std::vector<std::vector<Lit>> tokBits; static size_t readPos = 0; static bool eager = false, lineMode = false; static bool touched = false, probing = false;
static int tokAt(int k) { if (k >= L) return (int)alphabet.size() - 1; int v = 0; for (size_t b = 0; b < tokBits[k].size(); b++) if (decide(tokBits[k][b])) v |= 1 << b; return v; }
static bool isEnd(int v) { return v == (int)alphabet.size() - 1; }
bool symEager() { return eager; }
std::string symExpand(char) { touched = true; if (probing) return ""; int v = tokAt(readPos); if (isEnd(v)) return ""; readPos++; return lineMode ? alphabet[v] + "\n" : alphabet[v] + " "; }
static std::string modelText() { std::string t; for (int k = 0; k < L; k++) { int v = 0; for (size_t b = 0; b < tokBits[k].size(); b++) if (modelValue(tokBits[k][b])) v |= 1 << b; if (v >= (int)alphabet.size() - 1) break; t += alphabet[v] + (lineMode ? "\n" : " "); } return t; }
// ---- reference reader: what doc/input_formats.md says ----
struct Bad {};
struct RefFile {
  SV in, out; int sec = -1; std::vector<std::pair<int, std::string>> body; // (section, line)
  std::vector<std::pair<std::string, int>> vars; // in order of declaration, with kind 0 input / 1 output
};
// names: bit positions (pre 0..n-1, post n..2n-1); kinds: 0 pre in, 1 pre out, 2 post in, 3 post out
struct Ctx { SV name; std::vector<int> bit, kind; int n; };
typedef std::vector<bool> Fn;
struct Toks { std::function<std::string(size_t)> at; size_t p = 0; };  // at(k) == "" : end
static bool number(const std::string &w, unsigned long &v) { if (w.empty() || w.size() > 9) return false; v = 0; for (char c : w) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } return true; }
static Fn formula(const Ctx &c, Toks &t, unsigned allowed, std::vector<Fn> *mem) {
  std::string w = t.at(t.p++); size_t N = (size_t)1 << (2 * c.n);
  if (w == "") throw Bad();
  if (w == "0" || w == "1") return Fn(N, w == "1");
  if (w == "!") { Fn a = formula(c, t, allowed, mem); a.flip(); return a; }
  if (w == "|" || w == "&" || w == "^") { Fn a = formula(c, t, allowed, mem), b = formula(c, t, allowed, mem); for (size_t i = 0; i < N; i++) a[i] = w == "|" ? a[i] || b[i] : w == "&" ? a[i] && b[i] : a[i] != b[i]; return a; }
  if (w == "$") { unsigned long n; if (!number(t.at(t.p++), n) || n == 0) throw Bad(); std::vector<Fn> m; for (unsigned long i = 0; i < n; i++) m.push_back(formula(c, t, allowed, &m)); return m.back(); }
  if (w == "?") { unsigned long n; if (!number(t.at(t.p++), n) || !mem || n >= mem->size()) throw Bad(); return (*mem)[n]; }
  for (size_t i = 0; i < c.name.size(); i++) if (c.name[i] == w) { if (!(allowed >> c.kind[i] & 1)) throw Bad(); Fn a(N); for (size_t k = 0; k < N; k++) a[k] = k >> c.bit[i] & 1; return a; }
  throw Bad();
}
static const char *sections[] = {"[INPUT]", "[OUTPUT]", "[ENV_INIT]", "[SYS_INIT]", "[ENV_TRANS]", "[SYS_TRANS]", "[ENV_LIVENESS]", "[SYS_LIVENESS]"};
static const unsigned allowedKinds[] = {0, 0, 1, 3, 7, 15, 15, 15};
static std::string trim(const std::string &l) { size_t a = l.find_first_not_of(" \t\r\n\v\f"), b = l.find_last_not_of(" \t\r\n\v\f"); return a == std::string::npos ? "" : l.substr(a, b - a + 1); }
// Reads a whole file. sym: an element of a line that equals "\1" stands for the symbolic tokens.
struct RefResult { Spec s; std::vector<int> pos; /* variable number in declaration order -> spec bit */ int nVars; };
static RefResult readFile(const std::function<bool(std::string &)> &nextLine) {
  RefResult R; std::vector<std::pair<std::string, int>> vars; int sec = -1; Spec &s = R.s; std::string raw; s.lA.clear(); s.lG.clear();
  // formulas are kept as functions over the variables declared so far (bits in declaration order: pre 2k, post 2k+1)
  struct Line { int sec; std::vector<bool> f; int nv; }; std::vector<Line> body;
  while (nextLine(raw)) {
    std::string l = trim(raw); if (l == "" || l[0] == '#') continue;
    if (l[0] == '[') { sec = -1; for (int k = 0; k < 8; k++) if (l == sections[k]) sec = k; if (sec < 0) throw Bad(); continue; }
    if (sec < 0) throw Bad();
    if (sec < 2) { vars.push_back(std::make_pair(l, sec)); continue; }
    Ctx c; c.n = vars.size(); for (int p = 0; p < 2; p++) for (size_t k = 0; k < vars.size(); k++) { c.name.push_back(vars[k].first + (p ? "'" : "")); c.kind.push_back(vars[k].second + 2 * p); c.bit.push_back(2 * k + p); }
    // declared names may clash; reading then takes the first one, but the file is rejected at its end anyway
    Toks t; SV w; size_t symAt = (size_t)-1; { std::istringstream is(l); std::string x; while (is >> x) { if (x == "\1") { symAt = w.size(); break; } w.push_back(x); } }
    t.at = [&](size_t k) -> std::string { if (k < w.size()) return w[k]; if (symAt == (size_t)-1) return ""; for (size_t j = symAt; j <= k; j++) if (isEnd(tokAt(j - symAt))) return ""; int v = tokAt(k - symAt); return isEnd(v) ? "" : alphabet[v]; };
    Line b; b.sec = sec; b.nv = vars.size(); b.f = formula(c, t, allowedKinds[sec], nullptr); if (t.at(t.p) != "") throw Bad(); body.push_back(b);
  }
  { std::vector<std::string> all; for (auto &v : vars) { all.push_back(v.first); all.push_back(v.first + "'"); } std::sort(all.begin(), all.end()); if (std::unique(all.begin(), all.end()) != all.end()) throw Bad(); }
  s.nIn = s.nOut = 0; for (auto &v : vars) (v.second ? s.nOut : s.nIn)++;
  R.nVars = vars.size(); int ni = 0, no = 0; for (auto &v : vars) R.pos.push_back(v.second ? s.nIn + no++ : ni++);
  s.names.resize(s.n()); for (size_t k = 0; k < vars.size(); k++) s.names[R.pos[k]] = vars[k].first;
  size_t N = (size_t)1 << (2 * s.n()); auto idx = [&](const Line &b, size_t a) { size_t r = 0; for (int k = 0; k < b.nv; k++) { if (a >> R.pos[k] & 1) r |= (size_t)1 << (2 * k); if (a >> (R.pos[k] + s.n()) & 1) r |= (size_t)2 << (2 * k); } return r; };
  s.initEnv.assign(s.NI(), T); s.initSys.assign(s.S(), T); s.sE.assign((size_t)s.S() * s.NI(), T); s.sS.assign(N, T);
  for (auto &b : body) {
    if (b.sec == 2) for (int i = 0; i < s.NI(); i++) { if (!b.f[idx(b, i)]) s.initEnv[i] = F; }
    else if (b.sec == 3) { for (int i = 0; i < s.S(); i++) if (!b.f[idx(b, i)]) s.initSys[i] = F; }
    else if (b.sec == 4) { for (int x = 0; x < s.S(); x++) for (int i = 0; i < s.NI(); i++) if (!b.f[idx(b, x | (size_t)i << s.n())]) s.sE[x + s.S() * i] = F; }
    else if (b.sec == 5) { for (size_t i = 0; i < N; i++) if (!b.f[idx(b, i)]) s.sS[i] = F; }
    else { LV v(N); for (size_t i = 0; i < N; i++) v[i] = b.f[idx(b, i)] ? T : F; (b.sec == 6 ? s.lA : s.lG).push_back(v); }
  }
  if (s.lA.empty()) s.lA.push_back(LV(N, T)); if (s.lG.empty()) s.lG.push_back(LV(N, T));
  return R;
}
// ---- comparison with what the program has read ----
static void same(const Spec &s, const BF &f, const std::vector<int> &bdd, const LV &want, int bits, const char *what) {
  for (size_t a = 0; a < ((size_t)1 << bdd.size()); a++) { unsigned as = 0; for (size_t b = 0; b < bdd.size(); b++) if (a >> b & 1) as |= 1u << bdd[b]; size_t i = bits == 1 ? a & (s.NI() - 1) : bits == 2 ? a & (s.S() - 1) : bits == 3 ? (a & ((size_t)s.S() * s.NI() - 1)) : a; check(Eq(sym::at(f.node, as), want[i]), std::string(what) + " differs from the documented meaning of the text"); }
}
static void compare(SlugsVariableManager *m, const RefResult &R) {
  const Spec &s = R.s; GR1Context *c = dynamic_cast<GR1Context *>(m);
  if ((int)m->variables.size() != 2 * s.n()) fail("wrong number of variables");
  std::vector<int> bdd(2 * s.n(), -1);
  for (int b = 0; b < s.n(); b++) for (int p = 0; p < 2; p++) { std::string n = s.names[b] + (p ? "'" : ""); VariableType want = b < s.nIn ? (p ? PostInput : PreInput) : (p ? PostOutput : PreOutput); for (size_t k = 0; k < m->variables.size(); k++) if (m->variableNames[k] == n) { if (m->variableTypes[k] != want) fail("variable " + n + " has a wrong kind"); bdd[b + p * s.n()] = Cudd_NodeReadIndex(m->variables[k].node); } if (bdd[b + p * s.n()] < 0) fail("variable " + n + " is missing"); }
  same(s, c->initEnv, bdd, s.initEnv, 1, "the initial assumption"); same(s, c->initSys, bdd, s.initSys, 2, "the initial guarantee"); same(s, c->safetyEnv, bdd, s.sE, 3, "the safety assumption"); same(s, c->safetySys, bdd, s.sS, 4, "the safety guarantee");
  if (c->livenessAssumptions.size() != s.lA.size() || c->livenessGuarantees.size() != s.lG.size()) fail("wrong number of liveness properties");
  for (size_t k = 0; k < s.lA.size(); k++) same(s, c->livenessAssumptions[k], bdd, s.lA[k], 4, "a liveness assumption");
  for (size_t k = 0; k < s.lG.size(); k++) same(s, c->livenessGuarantees[k], bdd, s.lG[k], 4, "a liveness guarantee");
}
static bool refRead(const std::string &file, bool symbolic, RefResult &R) {
  try {
    if (symbolic && lineMode) { size_t p = 0, k = 0; R = readFile([&](std::string &l) { while (p < file.size()) { if (file[p] == 2) { int v = tokAt(k); if (isEnd(v)) { p++; continue; } k++; l = alphabet[v]; return true; } size_t e = file.find('\n', p); if (e == std::string::npos) e = file.size(); l = file.substr(p, e - p); p = e + 1; return true; } return false; }); }
    else { std::istringstream is(file); R = readFile([&](std::string &l) { return (bool)std::getline(is, l); }); }
    return true;
  } catch (Bad &) { return false; }
}
enum { MEANING = 1, MALFORMED = 2 };
static void accepted(SlugsVariableManager *m, const std::string &file, int mode) { // the program has read the text and goes on
  RefResult R; bool ok = refRead(file, true, R); witness(ok ? 1 : 0);
  if (!ok) { if (mode & MALFORMED) fail("malformed text is accepted"); endPath(true); }
  if (m && (mode & MEANING)) compare(m, R); endPath(true);
}
static void rejected(const Run &r, const std::string &file, int mode) {
  RefResult R; bool ok = refRead(file, true, R); witness(ok ? 1 : 0); bool crash = r.exitCode >= 128;
  if (ok) { if (mode & MEANING) fail(crash ? "the program crashes on a well-formed text" : "a well-formed text is rejected"); endPath(true); }
  if (mode & MALFORMED) { if (crash) fail("the program crashes on malformed text: " + r.exception); if (r.exitCode == 0 || verdict(r) >= 0) fail("malformed text is not rejected"); }
  endPath(true);
}
static void addParse(const std::string &name, const SV &alpha, const std::string &file, bool lines_, int mode) {
  CheckDef d; d.options.push_back("--computeCNFFormOfTheSpecification");
  d.explore = [=](int len) {
    alphabet = alpha; alphabet.push_back(""); L = len; lineMode = lines_; int bits = 1; while ((1 << bits) < (int)alphabet.size()) bits++;
    for (int k = 0; k < L; k++) { std::vector<Lit> b; for (int j = 0; j < bits; j++) b.push_back(fresh("tok" + std::to_string(k) + "_" + std::to_string(j))); tokBits.push_back(b); }
    symMemFiles()["@in"] = file;
    dumpHook = [=](FILE *f) { std::string t; for (char c : file) { if (c == 1 || c == 2) t += modelText(); else t += c; } fprintf(f, "TEXT\n%s", t.c_str()); };
    { struct rlimit l; l.rlim_cur = l.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &l); }
    eager = false; fflush(stdout); pid_t pp = fork(); if (pp == 0) { probing = true; touched = false; std::vector<std::string> a = {"@in"}; onParsed = [](SlugsVariableManager *) { _exit(touched ? 0 : 1); }; runSlugs(a, "", nullptr); _exit(touched ? 0 : 1); }
    int st; while (waitpid(pp, &st, 0) < 0 && errno == EINTR) {} if (WIFEXITED(st) && WEXITSTATUS(st) == 1) eager = true; // the program does not read the line through a string stream: decide it when it is read from the file
    sym::explore([&]() {
      for (auto &b : tokBits) { Lit bad = F; for (int v = alphabet.size(); v < (1 << bits); v++) { Lit e = T; for (int j = 0; j < bits; j++) e = And(e, (v >> j & 1) ? b[j] : neg(b[j])); bad = Or(bad, e); } if (!assume(neg(bad))) endPath(false); }
      onParsed = [&](SlugsVariableManager *m) { accepted(m, file, mode); };
      crashHook = [&]() { Run r; r.exitCode = 134; r.exception = "signal"; rejected(r, file, mode); };
      std::vector<std::string> a = {"@in"}; Run r = runSlugs(a, "", nullptr);
      if (verdict(r) >= 0 || r.exitCode == 0) accepted(nullptr, file, mode); rejected(r, file, mode);
    });
  };
  d.replay = [=](const std::string &cex, const Run &r) {
    RefResult R; std::string t = cex.substr(cex.find("\nTEXT\n") + 6); bool ok = refRead(t, false, R); bool crash = r.exitCode >= 128;
    if (ok && r.exitCode != 0 && (mode & MEANING)) fail(crash ? "the program crashes on a well-formed text" : "a well-formed text is rejected");
    if (!ok && r.exitCode == 0 && (mode & MALFORMED)) fail("malformed text is accepted"); if (!ok && crash && (mode & MALFORMED)) fail("the program crashes on malformed text");
    if (ok && r.exitCode == 0 && (mode & MEANING) && cex.compare(0, 13, "# path sample") != 0) cnfOracle(R.s, r);
  };
  registry()[name] = d;
}
namespace { struct Init { Init() {
  for (int mode = 1; mode <= 2; mode++) {
    std::string p = mode == 1 ? "read" : "reject";
    SV all = {"|", "&", "^", "!", "1", "0", "i0", "o0'", "$", "?", "2"}; if (mode == 2) { all.push_back("i0'"); all.push_back("q"); all.push_back("1x"); all.push_back("-1"); }
    SV buf = {"$", "?", "0", "1", "2", "!", "&", "i0", "o0'"};
    SV vars = {"i0", "o0", "i0'", "o0'", "q", "i0''", "o", "!", "&", "# c", "[INPUT]"};
    const char *names[] = {"", "", "EnvInit", "SysInit", "EnvTrans", "SysTrans", "EnvLive", "SysLive"};
    std::string decl = "[INPUT]\ni0\n[OUTPUT]\no0\n";
    for (int k = 2; k < 8; k++) { std::string f = decl + sections[k] + "\n\1\n"; addParse(p + names[k], vars, f, false, mode); }
    addParse(p + "Formula", all, decl + "[SYS_TRANS]\n\1\n", false, mode);
    addParse(p + "Buffer", buf, decl + "[SYS_TRANS]\n$ \1\n", false, mode);
    SV ls; for (auto s : sections) ls.push_back(s); for (auto s : {"[FOO]", "[INPUT", "# i0", "", "i0", "o0", "i0'", "! i0", "  o0 ", "& i0 o0", "1"}) ls.push_back(s);
    addParse(p + "File", ls, decl + "\2", true, mode); addParse(p + "FileBare", ls, "\2", true, mode); addParse(p + "FileTail", ls, decl + "\2[SYS_LIVENESS]\no0'\n[ENV_LIVENESS]\n! i0", true, mode);
    SV late = buf; late.push_back("3"); late.push_back("4"); addParse(p + "BufferLate", late, decl + "[SYS_TRANS]\n$ 4 i0 ^ ? 0 o0' & ? 1 i0' \1\n", false, mode); addParse(p + "BufferNested", late, decl + "[ENV_LIVENESS]\n| $ 3 i0 $ 2 o0' ! ? 0 \1\n", false, mode);
    SV wide = {"&", "^", "!", "i0", "i1", "o0", "o1", "i1'", "o1'", "i0'"}; addParse(p + "FormulaWide", wide, "[OUTPUT]\no0\n[INPUT]\ni0\ni1\n[OUTPUT]\no1\n[SYS_TRANS]\n\1\n", false, mode);
    SV deep = {"&", "|", "^", "!", "i0", "o0'"}; addParse(p + "FormulaDeep", deep, decl + "[SYS_LIVENESS]\n\1\n", false, mode); addParse(p + "FormulaTail", deep, decl + "[SYS_TRANS]\n& | ^ i0 o0' ! i0' \1\n", false, mode);
    SV live = {"[ENV_LIVENESS]", "[SYS_LIVENESS]", "[SYS_TRANS]", "! i0", "o0", "# c"}; addParse(p + "FileDeep", live, decl + "[SYS_LIVENESS]\n\2", true, mode);
  }
} } init_; }
