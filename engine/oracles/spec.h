// A GR(1) specification whose components are symbolic truth tables, and reference game semantics over it.
#ifndef SPEC_H
#define SPEC_H
#include "sym.h"
#include <string>
#include <vector>
#include <map>
using sym::Lit;
typedef std::vector<Lit> LV;
struct Spec {
  int nIn = 1, nOut = 1; bool noA = false, noG = false; // no liveness lines in the text
  std::vector<std::string> names; // declared names (empty: i0, i1, ..., o0, ...)
  LV initEnv;                 // [in]
  LV initSys;                 // [state]
  LV sE;                      // [state + S*in']
  std::vector<LV> parts;      // the safety assumptions one by one (their conjunction is sE); empty: one line
  LV sS;                      // [state + S*state']
  int nMot = 0, nCtl = 0;     // motion game (C21): the first nMot outputs are the motion state; nCtl control outputs chosen in each step
  LV robot;                   // [motion + control<<nMot + motion'<<(nMot+nCtl)]; sS and lG are then indexed [state + S*state' + S*S*control]
  std::vector<LV> lA, lG;     // [state + S*state']
  int n() const { return nIn + nOut; }
  int S() const { return 1 << n(); }
  int NI() const { return 1 << nIn; }
  int NO() const { return 1 << nOut; }
  int st(int in, int out) const { return in | out << nIn; }
  int inOf(int s) const { return s & (NI() - 1); }
  int outOf(int s) const { return s >> nIn; }
  Lit env(int s, int in) const { return sE[s + S() * in]; }
  Lit sys(int s, int t) const { return sS[s + S() * t]; }
  Lit A(int i, int s, int t) const { return lA[i][s + S() * t]; }
  Lit G(int i, int s, int t) const { return lG[i][s + S() * t]; }
};
// How much of each component is symbolic. 0: constant TRUE, 1: symbolic over the pre-state, 2: fully symbolic,
struct Shape { int nIn = 1, nOut = 1, nA = 1, nG = 1, parts = 0, nMot = 0, nCtl = 0, robot = 2; std::string tag; int initEnv = 2, initSys = 2, sE = 2, sS = 2, lA = 2, lG = 2; };
Spec symbolicSpec(const Shape &sh);
void dumpSpec(FILE *f, const Spec &s);               // concrete values from the last model
Spec loadSpec(const std::string &file);              // concrete literals
std::string specText(const Spec &s);                 // slugs input text (concrete)
std::string skeletonText(int nIn, int nOut, int nA, int nG, int parts = 0, int nMot = 0, int nCtl = 0);
std::string partHeader(int k);                       // comment line naming the k-th safety assumption
extern std::string textFormat;                       // "": plain slugs input; "fs": outputs split into fast and slow ones
std::string outName(int k);                          // declared name of the k-th output
bool estFormat();                                    // "est", "estmm": estimator specification (estmm: outputs named min_.../max_...)
int nUnobs(int nIn); int nCtlIn(int nIn);            // estimator inputs: first unobservable, then observable, last controllable ones
int nFast(const Spec &s);                            // number of fast outputs (the first ones) in format "fs"
// reference semantics -------------------------------------------------------
LV refWinning(const Spec &s);                        // states from which the system player wins the GR(1) game
LV refEnvWinning(const Spec &s);                     // the same by the dual computation, for the environment player
Lit refRealizable(const Spec &s, const LV &W);
Lit refRealizableRobotics(const Spec &s, const LV &W);
#endif
