#include <unistd.h>
// C32: option combinations. (1) which combinations are accepted, over symbolic argument lists; (2) the verdict each one gives.
#include "harness.h"
#include <set>
#include <fstream>
#include <algorithm>
using namespace sym;
#include "combos.inc"
typedef std::vector<std::string> SV; typedef std::set<std::string> SS;
static const char *allOptions[] = {"--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--jsonOutput", "--sysInitRoboticsSemantics", "--computeWeakenedSafetyAssumptions", "--biasForAction", "--computeCNFFormOfTheSpecification", "--counterStrategy", "--simpleRecovery", "--fixedPointRecycling", "--interactiveStrategy", "--IROSfastslow", "--analyzeInterleaving", "--analyzeInitialPositions", "--restrictToReachableStates", "--analyzeAssumptions", "--analyzeSafetyLivenessInteraction", "--computeInterestingRunOfTheSystem", "--computeAbstractWinningTrace", "--extractExplicitPermissiveStrategy", "--computeIncompleteInformationEstimator", "--nonDeterministicMotion", "--twoDimensionalCost", "--cooperativeGR1Strategy"};
static const int nOptions = sizeof allOptions / sizeof *allOptions;
static SV split(const std::string &t) { SV r; std::istringstream is(t); std::string w; while (is >> w) r.push_back(w); return r; }
static SS theSet(const SV &a) { return SS(a.begin(), a.end()); }
static bool supported(const SV &args) { SS s = theSet(args); std::string j; for (auto &x : s) j += (j.empty() ? "" : " ") + x; for (auto c : supportedCombinations) if (j == c) return true; return false; }
static bool tellsVerdict(const SS &s) { for (auto o : {"--computeWeakenedSafetyAssumptions", "--computeCNFFormOfTheSpecification", "--analyzeInterleaving", "--analyzeInitialPositions", "--analyzeAssumptions", "--analyzeSafetyLivenessInteraction", "--computeInterestingRunOfTheSystem", "--computeAbstractWinningTrace", "--computeIncompleteInformationEstimator"}) if (s.count(o)) return false; return true; }
static std::string body = "[ENV_INIT]\n! i0\n[SYS_INIT]\n! o0\n[ENV_TRANS]\n1\n[SYS_TRANS]\n| ! o0' i0'\n[ENV_LIVENESS]\ni0\n[SYS_LIVENESS]\no0\n";
static std::string specFor(const SS &s) {
  if (s.count("--IROSfastslow")) return "[INPUT]\ni0\n[OUTPUT_F]\no0\n[OUTPUT_S]\no1\n" + body;
  if (s.count("--nonDeterministicMotion")) return "[INPUT]\ni0\n[MOTION STATE OUTPUT]\no0\n[MOTION CONTROLLER OUTPUT]\nc0\n[ENV_INIT]\n! i0\n[SYS_TRANS]\n1\n[SYS_LIVENESS]\no0\n";
  if (s.count("--computeIncompleteInformationEstimator")) return "[OBSERVABLE_INPUT]\ni0\n[UNOBSERVABLE_INPUT]\nu0\n[CONTROLLABLE_INPUT]\nc0\n[OUTPUT]\no0\n[ENV_INIT]\n! i0\n[ENV_TRANS]\n1\n";
  return "[INPUT]\ni0\n[OUTPUT]\no0\n" + body;
}
// a text mode DDDMP file with the constant TRUE
std::string dddmpTrue() { return ".ver DDDMP-2.0\n.mode A\n.varinfo 0\n.nnodes 1\n.nvars 0\n.nsuppvars 0\n.ids\n.permids\n.nroots 1\n.rootids 1\n.nodes\n1 T 1 0 0\n.end\n"; }
static CheckDef commandFor(const SV &args) {
  SS s = theSet(args); CheckDef d; d.options = args; if (s.count("--twoDimensionalCost")) d.inFiles.push_back("1 1 <\n"); if (s.count("--nonDeterministicMotion")) d.inFiles.push_back(dddmpTrue());
  d.outFiles = s.count("--symbolicStrategy") || s.count("--simpleSymbolicStrategy") ? 1 : 0; if (s.count("--IROSfastslow")) d.format = "fs"; return d;
}
static void judge(const SV &args, const Run &r) {
  bool known = true; for (auto &a : args) if (std::find(allOptions, allOptions + nOptions, a) == allOptions + nOptions) known = false; bool ok = known && supported(args); witness(ok ? 1 : 0); std::string t; for (auto &a : args) t += (t.empty() ? "" : " ") + a;
  if (r.exitCode >= 128) fail("the program crashes with the options " + t + " " + r.exception);
  if (ok) { if (r.exitCode != 0) fail("the supported option combination is rejected: " + t); if (tellsVerdict(theSet(args)) && verdict(r) < 0) fail("no verdict with the options " + t); }
  else { if (r.exitCode == 0) fail("the unsupported option combination is accepted: " + t); if (verdict(r) >= 0 || r.out.find_first_not_of(" \n") != std::string::npos) fail("results are printed for the unsupported option combination " + t); }
}
static std::function<void(const SV &)> runWith(SV &cur) {
  return [&cur](const SV &args) {
    cur = args; CheckDef d = commandFor(args); std::string base = cfg.workdir + "/p" + std::to_string(getpid()); SV a = args, files; files.push_back(base + "_spec"); std::ofstream(files.back()) << specFor(theSet(args));
    for (size_t k = 0; k < d.inFiles.size(); k++) { files.push_back(base + "_in" + std::to_string(k)); std::ofstream(files.back()) << d.inFiles[k]; }
    for (auto &f : files) a.push_back(f); for (int k = 0; k < d.outFiles; k++) a.push_back("@out" + std::to_string(k));
    Run r = runSlugs(a, "", nullptr); for (auto &f : files) unlink(f.c_str()); judge(args, r); endPath(true);
  };
}
static void addSet(const std::string &name, std::function<void(int, const std::function<void(const SV &)> &)> choose) {
  CheckDef d; d.explore = [=](int len) {
    static SV cur; dumpHook = [](FILE *f) { std::string t; for (auto &a : cur) t += (t.empty() ? "" : " ") + a; fprintf(f, "# options: %s\n\nTEXT\n%s", t.c_str(), specFor(theSet(cur)).c_str()); };
    auto run = runWith(cur); choose(len, run);
  };
  auto opts = [](const std::string &cex) { size_t p = cex.find("\n# options: "); p += 12; return split(cex.substr(p, cex.find('\n', p) - p)); };
  d.resolve = [opts, d](const std::string &cex) { CheckDef c = commandFor(opts(cex)); c.format = ""; c.explore = d.explore; SV a = opts(cex); c.replay = [a](const std::string &, const Run &r) { judge(a, r); }; return c; };
  d.replay = [](const std::string &, const Run &) {};
  registry()[name] = d;
}
static int number(const std::vector<Lit> &b, int n) { Lit ok = F; for (int v = 0; v < n; v++) { Lit e = T; for (size_t j = 0; j < b.size(); j++) e = And(e, (v >> j & 1) ? b[j] : neg(b[j])); ok = Or(ok, e); } if (!assume(ok)) endPath(false); int v = 0; for (size_t j = 0; j < b.size(); j++) if (decide(b[j])) v |= 1 << j; return v; }
static std::vector<Lit> bits(const std::string &n, int values) { std::vector<Lit> r; for (int k = 1; k < values; k *= 2) r.push_back(fresh(n + std::to_string(r.size()))); return r; }
namespace { struct Init { Init() {
  addSet("optionSequence", [](int len, const std::function<void(const SV &)> &run) { // every argument list of up to len words
    std::vector<std::vector<Lit>> t; for (int k = 0; k < len; k++) t.push_back(bits("word" + std::to_string(k) + "_", nOptions + 3));
    explore([&]() { SV a; for (auto &b : t) { int v = number(b, nOptions + 3); if (v < nOptions) a.push_back(allOptions[v]); else if (v == nOptions) a.push_back("--noSuchOption"); else if (v == nOptions + 1) a.push_back("-"); else break; } run(a); }); });
  addSet("optionSubset", [](int len, const std::function<void(const SV &)> &run) { // every set of up to len options
    std::vector<Lit> b; for (int k = 0; k < nOptions; k++) b.push_back(fresh(allOptions[k]));
    explore([&]() { SV a; for (int k = 0; k < nOptions; k++) if ((int)a.size() < len) { if (decide(b[k])) a.push_back(allOptions[k]); } else if (!assume(neg(b[k]))) endPath(false); run(a); }); });
  addSet("optionNear", [](int len, const std::function<void(const SV &)> &run) { // every set that differs from a supported one in up to len options
    int n = sizeof supportedCombinations / sizeof *supportedCombinations; std::vector<Lit> c = bits("combination_", n); std::vector<std::vector<Lit>> t; for (int k = 0; k < len; k++) t.push_back(bits("toggle" + std::to_string(k) + "_", nOptions + 1));
    explore([&, n]() { SS s = theSet(split(supportedCombinations[number(c, n)])); int last = -1; for (auto &b : t) { int v = number(b, nOptions + 1); if (v <= last) endPath(false); if (v == nOptions) break; last = v; if (s.count(allOptions[v])) s.erase(allOptions[v]); else s.insert(allOptions[v]); } run(SV(s.begin(), s.end())); }); });
} } init_; }
// (2): one variant per supported combination that states a verdict
void initOptionVerdicts() {
  std::map<std::string, CheckDef> base = registry(); CheckDef all, fs, dual;
  for (auto c : supportedCombinations) { SV a = split(c); SS s = theSet(a); if (!tellsVerdict(s) || s.count("--nonDeterministicMotion")) continue;
    bool rob = s.count("--sysInitRoboticsSemantics"), coop = s.count("--cooperativeGR1Strategy"); CheckDef d = commandFor(a); d.stopAtVerdict = true; std::string what = c;
    CheckDef v = s.count("--counterStrategy") ? base[rob ? "counterVerdictRobotics" : "counterVerdict"] : base[std::string(d.format == "fs" ? "fs_" : "") + (rob ? "verdictRobotics" : "verdict")]; auto o = v.oracle;
    d.oracle = coop ? std::function<void(const Spec &, const Run &)>([rob](const Spec &q, const Run &r) { int v = needVerdict(r); LV W = refWinning(q); witness(v); check(v ? (rob ? refRealizableRobotics(q, W) : refRealizable(q, W)) : T, "reported realizable although the system cannot win"); }) : o;
    all.variants.push_back(d); if (d.format == "fs") fs.variants.push_back(d); }
  registry()["optionVerdict"] = all; registry()["optionVerdictFastSlow"] = fs;
}
