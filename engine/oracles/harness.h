#ifndef HARNESS_H
#define HARNESS_H
#include "spec.h"
#include "fn.h"
#include <sstream>
#include <map>
// What one run of the real program produced.
struct BddFile { std::string file; sym::Tab t; };   // table over the program's BDD variables (index bit = variable)
struct Run {
  std::string out, err; int exitCode = 0; std::string exception;
  std::vector<std::string> files;                    // contents of the output files
  std::string in;                                    // what was fed to stdin
  std::vector<DdNodeP> bdds;                         // BDDs the program wrote (symbolic run)
  std::vector<std::string> bddVarNames;              // names by BDD variable index
  bool has(const std::string &s) const { return out.find(s) != std::string::npos || err.find(s) != std::string::npos; } };
struct CheckDef {
  std::vector<std::string> options;                 // slugs command line options
  int outFiles;                                     // number of output (scratch) file names passed after the specification
  std::function<void(const Spec &, const Run &)> oracle;
  std::string input;                                // text fed to stdin
  bool stopAtVerdict = false;                       // the symbolic run ends as soon as the verdict line is printed
  std::vector<std::string> inFiles;                 // contents of further input files (passed before the output files)
  std::function<void(int)> explore;                 // text checks: explores all texts up to a length
  std::function<void(const std::string &, const Run &)> replay; // text checks: judges a concrete run
  std::vector<CheckDef> variants;                   // the exploration chooses one of these (recorded in the counterexample)
  std::function<std::string(const Spec &, const std::string &)> session; // produces the next piece of stdin from the output so far ("": end of input)
  std::function<CheckDef(const std::string &)> resolve; // the concrete command for a recorded counterexample
  std::string format;                               // text format of the specification (see textFormat)
  CheckDef() : outFiles(0) {}
  CheckDef(std::vector<std::string> o, int n, std::function<void(const Spec &, const Run &)> f, std::string in = "", std::vector<std::string> inf = std::vector<std::string>()) : options(o), outFiles(n), oracle(f), input(in), inFiles(inf) {}
};
std::map<std::string, CheckDef> &registry();
struct Reg { Reg(const std::string &n, CheckDef d) { registry()[n] = d; } };
Run runSlugs(const std::vector<std::string> &args, const std::string &input, const Spec *inject);
int verdict(const Run &r);                          // 1 realizable, 0 unrealizable, -1 none/contradictory
int needVerdict(const Run &r);                      // the same; a missing verdict is a violation
class SlugsVariableManager;
extern std::function<void(SlugsVariableManager *)> onParsed; // called right after the program's parsing
std::map<std::string, std::string> &symMemFiles();
size_t motionIndex(const Spec &s, unsigned fileAssignment); // C21: the BDD file lists the bits of each group in reverse order
void fail(const std::string &msg);                  // unconditional violation on this path
std::vector<std::string> lines(const std::string &);
// Evaluate the k-th stored BDD: literal under an assignment given by variable name (unlisted variables: must not matter)
struct BddView { DdNodeP n; std::map<std::string, int> idx; int find(const std::string &v) const; Lit at(const std::map<std::string, int> &) const; };
#endif
