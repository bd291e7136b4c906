#include "machine.h"
using namespace sym;
enum { ROB = 1, REC = 2, JSON = 4, PERM = 8, COOP = 16, FILEOUT = 32, COST = 64 };
static std::function<void(const Spec &, const Run &)> strat(int f) {
  return [f](const Spec &s, const Run &r) {
    int v = needVerdict(r); LV W = refWinning(s); Lit ref = (f & ROB) ? refRealizableRobotics(s, W) : refRealizable(s, W);
    const std::string &o = (f & FILEOUT) ? r.files[0] : r.out;
    witness(v);
    if (f & COOP) check(v ? ref : T, "reported realizable although the system cannot win"); else check(v ? ref : neg(ref), "wrong verdict");
    if (!v) { if (o.find_first_not_of(" \n\t") != std::string::npos) fail("a strategy is printed for an unrealizable specification"); return; }
    Machine m = (f & JSON) ? parseJson(s, o) : (f & PERM) ? parsePermissive(s, o) : parseText(s, o);
    if (m.nodes.size()) witness(2); for (auto &n : m.nodes) { if (n.succ.size() > 1) { witness(3); break; } }
    MachineMode q; q.robotics = f & ROB; q.recovery = f & REC; q.permissive = f & PERM; q.cooperative = f & COOP; q.cost = f & COST;
    checkController(s, m, q);
  };
}
static void reg(const std::string &n, int f, std::vector<std::string> o) {
  if (f & ROB) o.push_back("--sysInitRoboticsSemantics"); if (f & REC) o.push_back("--simpleRecovery"); if (f & JSON) o.push_back("--jsonOutput");
  o.push_back((f & PERM) ? "--extractExplicitPermissiveStrategy" : "--explicitStrategy"); if (f & COOP) o.push_back("--cooperativeGR1Strategy");
  registry()[n] = CheckDef(o, (f & FILEOUT) ? 1 : 0, strat(f));
}
namespace { struct Init { Init() {
  for (int rob = 0; rob < 2; rob++) for (int rec = 0; rec < 2; rec++) for (int js = 0; js < 2; js++) {
    std::string sfx = std::string(rob ? "Rob" : "") + (rec ? "Rec" : "") + (js ? "Json" : ""); int f = (rob ? ROB : 0) | (rec ? REC : 0) | (js ? JSON : 0);
    reg("strat" + sfx, f, {}); reg("stratBias" + sfx, f, {"--biasForAction"}); reg("stratRecycling" + sfx, f, {"--fixedPointRecycling"}); reg("stratCoop" + sfx, f | COOP, {});
  }
  for (int rob = 0; rob < 2; rob++) { std::string sfx = rob ? "Rob" : ""; int f = rob ? ROB : 0; reg("perm" + sfx, f | PERM, {}); reg("permBias" + sfx, f | PERM, {"--biasForAction"}); reg("permRecycling" + sfx, f | PERM, {"--fixedPointRecycling"}); }
  // C22: the cost file is a further input file
  static const char *files[] = {"1 1 <\n", "1 2 >\n1.5 o0'\n", "0 1 <\n# comment\n1 & o0 ! o0'\n3 & ! o0 o0'\n", "2 0 >\n1 ^ o0 o0'\n"};
  for (int k = 0; k < 4; k++) { std::string n = std::string("cost") + char('A' + k);
    for (int rob = 0; rob < 2; rob++) for (int rec = 0; rec < 2; rec++) for (int js = 0; js < 2; js++) { std::string sfx = std::string(rob ? "Rob" : "") + (rec ? "Rec" : "") + (js ? "Json" : ""); reg(n + sfx, COST | (rob ? ROB : 0) | (rec ? REC : 0) | (js ? JSON : 0), {"--twoDimensionalCost"}); registry()[n + sfx].inFiles.push_back(files[k]); }
    for (int rob = 0; rob < 2; rob++) { CheckDef d({"--twoDimensionalCost"}, 0, [rob](const Spec &s, const Run &r) { int v = needVerdict(r); witness(v); LV W = refWinning(s); Lit ref = rob ? refRealizableRobotics(s, W) : refRealizable(s, W); check(v ? ref : neg(ref), "the verdict differs from the one without costs"); }, "", {files[k]}); if (rob) d.options.push_back("--sysInitRoboticsSemantics"); registry()[n + "Verdict" + (rob ? "Rob" : "")] = d; } }
  reg("stratFile", FILEOUT, {}); reg("stratFileJson", FILEOUT | JSON, {}); reg("permFile", FILEOUT | PERM, {});
} } init_; }
