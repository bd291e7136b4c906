#include "harness.h"
using namespace sym;
static void plain(const Spec &s, const Run &r) {
  int v = needVerdict(r); LV W = refWinning(s); Lit ref = refRealizable(s, W);
  witness(v);
  check(v ? ref : neg(ref), v ? "reported realizable although the system cannot win" : "reported unrealizable although the system wins");
}
static void robotics(const Spec &s, const Run &r) {
  int v = needVerdict(r); LV W = refWinning(s); Lit ref = refRealizableRobotics(s, W);
  witness(v);
  check(v ? ref : neg(ref), v ? "reported realizable although some allowed initial position is losing" : "reported unrealizable although every allowed initial position is winning");
}
// The environment-side game is solved by the dual reference computation.
static void counter(const Spec &s, const Run &r) {
  int v = needVerdict(r); LV E = refEnvWinning(s); LV W; for (Lit l : E) W.push_back(neg(l)); Lit ref = refRealizable(s, W);
  witness(v);
  check(v ? ref : neg(ref), v ? "counterstrategy mode reports realizable although the environment wins" : "counterstrategy mode reports unrealizable although the environment cannot win");
}
static void counterRobotics(const Spec &s, const Run &r) {
  int v = needVerdict(r); LV E = refEnvWinning(s); LV W; for (Lit l : E) W.push_back(neg(l)); Lit ref = refRealizableRobotics(s, W);
  witness(v);
  check(v ? ref : neg(ref), v ? "counterstrategy mode reports realizable although the environment wins from an initial position" : "counterstrategy mode reports unrealizable although the environment wins from no initial position");
}
#define R2(name, fn, ...) static Reg r_##name(#name, CheckDef({__VA_ARGS__}, 0, fn));
static Reg r_v("verdict", CheckDef(std::vector<std::string>(), 0, plain));
R2(verdictRobotics, robotics, "--sysInitRoboticsSemantics")
R2(verdictRecycling, plain, "--fixedPointRecycling")
R2(verdictRecyclingRobotics, robotics, "--fixedPointRecycling", "--sysInitRoboticsSemantics")
R2(verdictBias, plain, "--biasForAction")
R2(verdictBiasRobotics, robotics, "--biasForAction", "--sysInitRoboticsSemantics")
namespace { struct Init { Init() {
  CheckDef a({"--counterStrategy"}, 0, counter), b({"--counterStrategy", "--sysInitRoboticsSemantics"}, 0, counterRobotics);
  registry()["counterVerdictFull"] = a; registry()["counterVerdictRoboticsFull"] = b; a.stopAtVerdict = b.stopAtVerdict = true; registry()["counterVerdict"] = a; registry()["counterVerdictRobotics"] = b;
} } init_; }
