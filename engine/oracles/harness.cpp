#include "harness.h"
#include "fn.h"
#include "gr1context.hpp"
#include <fstream>
#include <sstream>
#include <boost/algorithm/string.hpp>
#include "extensionAnalyzeAssumptions.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <fstream>
#include <cstring>
#include <iostream>
#include "symstream.h"
#undef ofstream
#undef ifstream
#undef istringstream
using namespace sym;
std::map<std::string, CheckDef> &registry() { static std::map<std::string, CheckDef> r; return r; }
static const Spec *toInject = nullptr; std::function<void(SlugsVariableManager *)> onParsed;
static std::vector<int> varIdx; // spec bit -> variable index of the program's BDD manager
static int findVar(SlugsVariableManager *m, const std::string &n) {
  for (size_t i = 0; i < m->variableNames.size(); i++) if (m->variableNames[i] == n) return (int)Cudd_NodeReadIndex(m->variables[i].node);
  fprintf(stderr, "variable %s not found\n", n.c_str()); abort();
}
static BF makeBF(SlugsVariableManager *m, const LV &v) { // bits of the index in spec order: pre bits, post bits
  int nv = nvars(); int bits = 0; while (((size_t)1 << bits) < v.size()) bits++;
  Tab t((size_t)1 << nv);
  for (size_t i = 0; i < t.size(); i++) { size_t j = 0; for (int b = 0; b < bits; b++) if (i >> varIdx[b] & 1) j |= (size_t)1 << b; t[i] = v[j]; }
  return BFBdd(&m->mgr, mk(t));
}
static void inject(SlugsVariableManager *m) {
  const Spec &s = *toInject; varIdx.clear();
  for (int p = 0; p < 2; p++) { std::string q = p ? "'" : ""; for (int i = 0; i < s.nIn; i++) varIdx.push_back(findVar(m, "i" + std::to_string(i) + q)); for (int i = 0; i < s.nOut; i++) varIdx.push_back(findVar(m, outName(i) + q)); } for (int i = 0; i < s.nCtl; i++) varIdx.push_back(findVar(m, "c" + std::to_string(i) + "'"));
  GR1Context *c = dynamic_cast<GR1Context *>(m); if (!c) abort();
  c->initEnv = makeBF(m, s.initEnv); c->initSys = makeBF(m, s.initSys); c->safetyEnv = makeBF(m, s.sE); c->safetySys = makeBF(m, s.sS);
  if (s.noA && (s.nMot || estFormat()) && c->livenessAssumptions.empty()) c->livenessAssumptions.resize(1); if (s.noG && (s.nMot || estFormat()) && c->livenessGuarantees.empty()) c->livenessGuarantees.resize(1);
  if (c->livenessAssumptions.size() != s.lA.size() || c->livenessGuarantees.size() != s.lG.size()) { fprintf(stderr, "harness: liveness count mismatch\n"); abort(); }
  if (XAnalyzeAssumptions<GR1Context> *x = dynamic_cast<XAnalyzeAssumptions<GR1Context> *>(c)) for (size_t i = 0; i < x->safetyEnvParts.size(); i++) x->safetyEnvParts[i] = makeBF(m, s.parts.empty() ? s.sE : s.parts[i]);
  for (size_t i = 0; i < s.lA.size(); i++) c->livenessAssumptions[i] = makeBF(m, s.lA[i]);
  for (size_t i = 0; i < s.lG.size(); i++) c->livenessGuarantees[i] = makeBF(m, s.lG[i]);
}
extern "C" void __real__ZN20SlugsVariableManager26computeVariableInformationEv(SlugsVariableManager *m);
extern "C" void __wrap__ZN20SlugsVariableManager26computeVariableInformationEv(SlugsVariableManager *m) {
  __real__ZN20SlugsVariableManager26computeVariableInformationEv(m);
  if (onParsed) { auto f = onParsed; onParsed = nullptr; f(m); }
  if (toInject) { inject(m); toInject = nullptr; }
}
std::map<std::string, std::string> &symMemFiles() { static std::map<std::string, std::string> m; return m; }
static std::map<FILE *, std::pair<std::string, std::pair<char **, size_t *>>> memOpen;
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" int __real_fclose(FILE *);
extern "C" FILE *__wrap_fopen(const char *n, const char *m) {
  if (strncmp(n, "@out", 4)) return __real_fopen(n, m);
  if (m[0] == 'r') { auto it = symMemFiles().find(n); if (it == symMemFiles().end()) return NULL; return fmemopen((void *)it->second.data(), it->second.size(), "r"); }
  char **b = new char *; size_t *s = new size_t; FILE *f = open_memstream(b, s); memOpen[f] = std::make_pair(std::string(n), std::make_pair(b, s)); return f;
}
extern "C" int __wrap_fclose(FILE *f) {
  auto it = memOpen.find(f); if (it == memOpen.end()) return __real_fclose(f);
  int r = __real_fclose(f); symMemFiles()[it->second.first] = std::string(*it->second.second.first, *it->second.second.second); free(*it->second.second.first); memOpen.erase(it); return r;
}
// A stream buffer that can end the path when the verdict line has been printed.
static std::function<void(const std::string &)> onVerdict;
struct TrigBuf : std::stringbuf {
  void scan() { if (!onVerdict) return; std::string t = str(); if (t.find("realizable") != std::string::npos && t[t.size() - 1] == '\n') { auto f = onVerdict; onVerdict = nullptr; f(t); } }
  std::streamsize xsputn(const char *s, std::streamsize n) { std::streamsize r = std::stringbuf::xsputn(s, n); scan(); return r; }
  int overflow(int c) { int r = std::stringbuf::overflow(c); scan(); return r; }
  int sync() { scan(); return std::stringbuf::sync(); }
};
// Standard input that is produced on demand from the output so far.
static std::function<std::string(const std::string &)> nextInput; static std::string sessionLog; static TrigBuf *curOut = nullptr;
struct InBuf : std::streambuf { std::string b; int underflow() { std::string t = nextInput ? nextInput(curOut ? curOut->str() : "") : std::string(); if (t.empty()) return EOF; b = t; sessionLog += t; setg(&b[0], &b[0], &b[0] + b.size()); return (unsigned char)b[0]; } };
int slugs_main(int argc, const char **args);
Run runSlugs(const std::vector<std::string> &args, const std::string &input, const Spec *inj) {
  std::vector<const char *> a; a.push_back("slugs"); for (auto &s : args) a.push_back(s.c_str());
  static TrigBuf ob, eb; ob.str(""); eb.str(""); static std::istringstream i; i.clear(); i.str(input);
  std::streambuf *so = std::cout.rdbuf(&ob), *se = std::cerr.rdbuf(&eb), *si = std::cin.rdbuf(i.rdbuf()); InBuf ib; sessionLog = input; curOut = &ob; if (nextInput) std::cin.rdbuf(&ib); std::cin.clear();
  toInject = inj; Run r; storedBdds.clear();
  try { r.exitCode = slugs_main(a.size(), a.data()); }
  catch (std::exception &x) { r.exitCode = 134; r.exception = x.what(); }
  catch (...) { r.exitCode = 134; r.exception = "unknown exception"; }
  std::cout.rdbuf(so); std::cerr.rdbuf(se); std::cin.rdbuf(si);
  r.in = sessionLog; r.out = ob.str(); r.err = eb.str(); toInject = nullptr;
  for (auto &s : storedBdds) r.bdds.push_back(s.node);
  return r;
}
int verdict(const Run &r) {
  bool u = r.has("is unrealizable"), p = r.has("is realizable");
  return u == p ? -1 : p ? 1 : 0;
}
static double nowReal() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
static Shape parseShape(const std::string &t) { // e.g. i1o1a1g1:E2S2e2s2A2G2
  Shape h; h.tag = t; size_t p = 0; bool mode = false;
  while (p < t.size()) { char c = t[p++]; if (c == ':') { mode = true; continue; } int v = 0; while (p < t.size() && isdigit(t[p])) v = v * 10 + (t[p++] - '0');
    if (!mode) { if (c == 'i') h.nIn = v; if (c == 'o') h.nOut = v; if (c == 'a') h.nA = v; if (c == 'g') h.nG = v; if (c == 'p') h.parts = v; if (c == 'm') h.nMot = v; if (c == 'c') h.nCtl = v; }
    else { if (c == 'E') h.initEnv = v; if (c == 'S') h.initSys = v; if (c == 'e') h.sE = v; if (c == 's') h.sS = v; if (c == 'A') h.lA = v; if (c == 'G') h.lG = v; if (c == 'R') h.robot = v; } }
  return h;
}
int BddView::find(const std::string &v) const { auto it = idx.find(v); return it == idx.end() ? -1 : it->second; }
Lit BddView::at(const std::map<std::string, int> &m) const { unsigned a = 0; for (auto &k : m) { int i = find(k.first); if (i < 0) fail("the written BDD has no variable " + k.first); if (k.second) a |= 1u << i; } return sym::at(n, a); }
// The header comment "# Variable names:" lists "#\t<index>: <name>" by position in the program's variable list = BDD variable index.
static void loadNames(const std::string &t, Run &r) {
  bool on = false; for (auto &l : lines(t)) { if (l.find("# Variable names:") == 0) { on = true; continue; } if (!on) continue; int k; char b[256]; if (sscanf(l.c_str(), "#\t%d: %255s", &k, b) == 2) { if ((int)r.bddVarNames.size() <= k) r.bddVarNames.resize(k + 1); r.bddVarNames[k] = b; } else on = false; }
}
// Text-mode DDDMP BDD ("id var-info index T E"), complement edges as negative ids.
static void loadDddmp(const std::string &t, Run &r) {
  loadNames(t, r); bool nodes = false; std::map<long, DdNodeP> n; long root = 0; bool any = false; std::vector<long> ids; static DdManager *m = nullptr; if (!m) m = Cudd_Init(0, 0, 0, 0, 0);
  for (size_t i = 0; i < r.bddVarNames.size(); i++) Cudd_bddIthVar(m, i);
  for (auto &l : lines(t)) {
    std::istringstream is(l); std::string k; is >> k; if (k == ".rootids") is >> root; if (k == ".ids") { long v; while (is >> v) ids.push_back(v); } if (k == ".nodes") { nodes = true; any = true; continue; } if (k == ".end") nodes = false;
    if (!nodes || k == "") continue;
    long id = atol(k.c_str()); std::vector<std::string> f; std::string w; while (is >> w) f.push_back(w); if (f.size() < 3) continue; std::string info = f.size() > 3 ? f[0] : ""; long T_ = atol(f[f.size() - 2].c_str()), E_ = atol(f[f.size() - 1].c_str()), idx = atol(f[f.size() - 3].c_str());
    if (info == "T" || (T_ == 0 && E_ == 0)) { n[id] = Cudd_ReadOne(m); continue; } if (idx < (long)ids.size()) idx = ids[idx];
    DdNodeP v = Cudd_bddIthVar(m, idx), a = n[labs(T_)], b = n[labs(E_)]; if (T_ < 0) a = Cudd_Not(a); if (E_ < 0) b = Cudd_Not(b);
    n[id] = Cudd_bddIte(m, v, a, b);
  }
  if (any && n.count(labs(root))) r.bdds.push_back(root < 0 ? Cudd_Not(n[labs(root)]) : n[labs(root)]);
}
static std::string slurp(const std::string &f) { std::ifstream i(f.c_str()); std::ostringstream o; o << i.rdbuf(); return o.str(); }
std::vector<std::string> lines(const std::string &t) { std::vector<std::string> r; std::istringstream i(t); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
void fail(const std::string &m) { possible(T); violation(m); }
int needVerdict(const Run &r) { int v = verdict(r); if (r.exitCode != 0 || v < 0) fail("no (unique) verdict printed for a well-formed specification, exit status " + std::to_string(r.exitCode)); return v; }
static void evaluate(const CheckDef &d, const Spec &s, const Run &r) {
  if (r.exitCode >= 128) fail("the program crashed, threw an uncaught exception or did not terminate (exit status " + std::to_string(r.exitCode) + ") " + r.exception);
  d.oracle(s, r);
}
void initVariants(); void initOptionVerdicts();
static std::string oneLine(const std::string &t) { std::string r; for (char c : t) r += c == '\n' ? std::string("\\n") : std::string(1, c); return r; }
static std::string manyLines(const std::string &t) { std::string r; for (size_t k = 0; k < t.size(); k++) if (t[k] == '\\' && k + 1 < t.size()) { r += '\n'; k++; } else r += t[k]; return r; }
static std::string header(const std::string &cex, const std::string &k) { std::string h = "\n# " + k + ": "; size_t p = cex.find(h); if (p == std::string::npos) return ""; p += h.size(); return cex.substr(p, cex.find('\n', p) - p); }
static CheckDef getCheck(const std::string &name, const std::string &cex) {
  if (!registry().count(name)) { fprintf(stderr, "unknown check %s\n", name.c_str()); exit(2); }
  CheckDef d = registry()[name]; if (d.variants.size() && header(cex, "variant") != "") { int k = atoi(header(cex, "variant").c_str()); CheckDef v = d.variants.at(k); d = v; }
  if (d.resolve && cex != "") d = d.resolve(cex); if (d.session) d.input = manyLines(header(cex, "stdin")); return d;
}
int main(int argc, char **argv) {
  initVariants(); initOptionVerdicts();
  std::map<std::string, std::string> o; for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  if (o.count("--describe")) { // machine readable: options, number of output files; input files are written to DIR
    CheckDef d = getCheck(o["--describe"], o.count("--cex") ? slurp(o["--cex"]) : ""); printf("%d %zu", d.outFiles, d.inFiles.size()); for (auto &p : d.options) printf(" %s", p.c_str()); printf("\n");
    if (o.count("--dir")) { std::ofstream(o["--dir"] + "/stdin") << d.input; for (size_t i = 0; i < d.inFiles.size(); i++) std::ofstream(o["--dir"] + "/in_" + std::to_string(i)) << d.inFiles[i]; }
    return 0; }
  if (o.count("--list")) { for (auto &k : registry()) { printf("%s", k.first.c_str()); for (auto &p : k.second.options) printf(" %s", p.c_str()); printf("\n"); } return 0; }
  cfg.workdir = o.count("--workdir") ? o["--workdir"] : "."; cfg.jobs = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8;
  if (o.count("--timeout")) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); cfg.deadline = t.tv_sec + atof(o["--timeout"].c_str()); }
  cfg.maxOps = o.count("--maxops") ? atoll(o["--maxops"].c_str()) : 2000000;
  if (o.count("--samples")) cfg.samples = atoi(o["--samples"].c_str());
  if (o.count("--cross")) { cfg.crossDir = cfg.workdir; cfg.crossEvery = atoi(o["--cross"].c_str()); }
  std::string cexFile = o.count("--text") ? o["--text"] : o.count("--replay") ? o["--replay"] : ""; CheckDef d = getCheck(o["--check"], cexFile == "" ? "" : slurp(cexFile)); textFormat = d.format;
  if (o.count("--text") && d.explore) { std::string x = slurp(o["--text"]); printf("%s", x.substr(x.find("\nTEXT\n") + 6).c_str()); return 0; }
  if (o.count("--text")) { printf("%s", specText(loadSpec(o["--text"])).c_str()); return 0; }
  if (o.count("--replay")) { // concrete spec + output of the real binary
    concreteMode = true; if (d.replay) { Run r; r.out = slurp(o["--stdout"]); r.err = slurp(o["--stderr"]); r.exitCode = atoi(o["--exit"].c_str()); d.replay(slurp(o["--replay"]), r); printf("NOT-REPRODUCED\n"); return 0; } Spec s = loadSpec(o["--replay"]); Run r; r.out = slurp(o["--stdout"]); r.err = slurp(o["--stderr"]); r.exitCode = atoi(o["--exit"].c_str());
    for (int i = 0; i < d.outFiles; i++) { r.files.push_back(slurp(o["--out" + std::to_string(i)])); loadDddmp(r.files.back(), r); }
    r.in = d.input; evaluate(d, s, r); printf("NOT-REPRODUCED\n"); return 0;
  }
  double t0 = nowReal(); if (d.explore) d.explore(atoi(o["--shape"].c_str() + 1)); else {
  Shape h = parseShape(o["--shape"]);
  Spec s = symbolicSpec(h);
  std::vector<CheckDef> vs = d.variants; if (vs.empty()) vs.push_back(d); int chosen = 0; std::vector<Lit> vb; for (int k = 1; k < (int)vs.size(); k *= 2) vb.push_back(fresh("variant_" + std::to_string(vb.size())));
  std::vector<std::vector<std::string>> args; for (size_t v = 0; v < vs.size(); v++) {
    textFormat = vs[v].format; std::string file = cfg.workdir + "/skeleton" + (textFormat == "" ? "" : "_" + textFormat) + ".slugsin"; { std::ofstream f(file.c_str()); f << skeletonText(s.nIn, s.nOut, s.noA ? 0 : h.nA, s.noG ? 0 : h.nG, h.parts, s.nMot, s.nCtl); }
    std::vector<std::string> a = vs[v].options; a.push_back(file); for (size_t i = 0; i < vs[v].inFiles.size(); i++) { std::string n = cfg.workdir + "/in_" + std::to_string(v) + "_" + std::to_string(i); std::ofstream(n) << (vs[v].inFiles[i] == "# symbolic\n" ? ".hook " + std::to_string(2 * s.nMot + s.nCtl) + "\n" : vs[v].inFiles[i]); a.push_back(n); } args.push_back(a); }
  dumpHook = [&](FILE *f) { if (d.variants.size()) fprintf(f, "# variant: %d\n", chosen); if (vs[chosen].session) fprintf(f, "# stdin: %s\n", oneLine(sessionLog).c_str()); dumpSpec(f, s); };
  sym::explore([&]() {
    if (vs.size() > 1) { Lit ok = F; for (size_t v = 0; v < vs.size(); v++) { Lit e = T; for (size_t b = 0; b < vb.size(); b++) e = And(e, (v >> b & 1) ? vb[b] : neg(vb[b])); ok = Or(ok, e); } if (!assume(ok)) endPath(false); chosen = 0; for (size_t b = 0; b < vb.size(); b++) if (decide(vb[b])) chosen |= 1 << b; }
    CheckDef &d = vs[chosen]; textFormat = d.format; nextInput = nullptr; loadHook = [&](unsigned a) { return s.robot.at(motionIndex(s, a)); }; if (d.session) nextInput = [&](const std::string &t) { return d.session(s, t); };
    std::vector<std::string> a = args[chosen], of; for (int i = 0; i < d.outFiles; i++) { of.push_back("@out" + std::to_string(i)); a.push_back(of.back()); }
    if (d.stopAtVerdict) onVerdict = [&](const std::string &t) { Run r; r.err = t; r.files.resize(d.outFiles); evaluate(d, s, r); endPath(true); };
    Run r = runSlugs(a, d.input, &s);
    for (auto &f : of) { r.files.push_back(symMemFiles()[f]); loadNames(r.files.back(), r); }
    evaluate(d, s, r);
  }); }
  Stats st = stats();
  printf("{\"check\":\"%s\",\"shape\":\"%s\",\"inputs\":%zu,\"paths\":%lu,\"infeasible\":%lu,\"decisions\":%lu,\"forks\":%lu,\"sat_queries\":%lu,\"assertions\":%lu,\"solver_s\":%.2f,\"wall_s\":%.2f,\"max_depth\":%lu,\"incomplete\":%lu,\"violated\":%d,\"timeout\":%d,\"witnesses\":[", o["--check"].c_str(), o["--shape"].c_str(), nofInputs(), st.paths, st.infeasible, st.decisions, st.forks, st.satQueries, st.asserts, st.solverTime, nowReal() - t0, st.maxDepth, st.incomplete, violated() ? 1 : 0, outOfTime() ? 1 : 0);
  for (int i = 0; i < 8; i++) printf("%s%lu", i ? "," : "", st.witnesses[i]); printf("]}\n");
  return violated() ? 1 : st.incomplete ? 3 : 0;
}
