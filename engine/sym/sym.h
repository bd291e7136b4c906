// Symbolic execution core: AIG literals, SAT-decided forking, symbolic Boolean functions.
#ifndef SYM_H
#define SYM_H
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
namespace sym {
typedef uint32_t Lit;                 // AIG literal: node*2 + complement
const Lit F = 0, T = 1;               // node 0 is constant FALSE
inline Lit neg(Lit a) { return a ^ 1; }
Lit fresh(const std::string &name);   // a new symbolic Boolean input
Lit And(Lit a, Lit b);
inline Lit Or(Lit a, Lit b) { return neg(And(neg(a), neg(b))); }
Lit Xor(Lit a, Lit b);
inline Lit Eq(Lit a, Lit b) { return neg(Xor(a, b)); }
inline Lit Implies(Lit a, Lit b) { return Or(neg(a), b); }
Lit Ite(Lit c, Lit t, Lit e);
Lit AndAll(const std::vector<Lit> &v);
Lit OrAll(const std::vector<Lit> &v);
Lit resolve(Lit a);                   // simplify with what the path condition already fixes
bool decide(Lit a);                   // solver decides; forks the process if both outcomes are possible
bool assume(Lit a);                   // add to path condition; false if infeasible (path must end)
bool possible(Lit a);                 // satisfiable together with the path condition?
bool modelValue(Lit a);               // value in the model of the last possible()==true
size_t nofInputs();
const std::string &inputName(size_t i);
bool inputModel(size_t i);            // value of the i-th input in the last model

// --- Exploration ---
struct Shared;                        // statistics shared by all path processes
extern Shared *sh;
struct Config {
  int jobs = 8; int maxCex = 12; int samples = 0; double deadline = 0; uint64_t maxPaths = 0; uint64_t maxOps = 0; std::string workdir = "."; std::string crossDir; int crossEvery = 0;
};
extern Config cfg;
extern bool concreteMode;             // replay: no solver, every literal must be constant
struct Stats { uint64_t paths, decisions, forks, satQueries, asserts, witnesses[64]; double solverTime; uint64_t infeasible; uint64_t maxDepth; uint64_t incomplete; };
Stats stats();
void witness(int i);                  // vacuity witness: counts paths where an event was reached
uint64_t ops();
void countOp();                       // called by modelled library functions (runaway path detection)
// Runs body on every feasible path. Returns when all paths are done.
void explore(std::function<void()> body);
// Report a violation: model values of the last possible() call are dumped.
void violation(const std::string &msg);
// Check an assertion on this path: violated if the path condition allows !a.
void check(Lit a, const std::string &msg);
struct PathEnd { int why; };
void endPath(bool ok);                // terminates the path process
extern std::function<void(FILE *)> dumpHook;   // writes the concrete counterexample
extern std::function<void()> crashHook;         // called when the program crashes with a signal
bool violated();
bool outOfTime();
}
#endif
