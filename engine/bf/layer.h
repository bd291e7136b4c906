// The same driver source is built twice: over the symbolic engine (libcudd replaced by its model) and, with -DREAL, over the
// unmodified library and the real libcudd, where it replays a concrete counterexample.
#ifndef LAYER_H
#define LAYER_H
#include <string>
#include <vector>
#include <map>
#include <functional>
#ifdef REAL
#include <cudd.h>
#include <cuddInt.h>
namespace sym {
typedef int Lit; const Lit F = 0, T = 1;
inline Lit neg(Lit a) { return !a; } inline Lit And(Lit a, Lit b) { return a && b; } inline Lit Or(Lit a, Lit b) { return a || b; } inline Lit Xor(Lit a, Lit b) { return a != b; } inline Lit Eq(Lit a, Lit b) { return a == b; } inline Lit Implies(Lit a, Lit b) { return !a || b; }
typedef std::vector<Lit> Tab;
Lit fresh(const std::string &name);
inline bool decide(Lit a) { return a; }
void check(Lit a, const std::string &msg);
inline void witness(int) {}
}
#else
#include "fn.h"
#endif
#include "BF.h"
#ifdef REAL
typedef DdNode *NodeRef;
#else
typedef DdNodeP NodeRef;
#endif
BF fromTable(BFManager &m, const sym::Tab &t);   // index bit = variable index
sym::Tab toTable(const BF &f, int n);
long refs(NodeRef f);                          // reference count of the node
void refEvents(std::vector<std::string> &);      // misuse of dead nodes seen since the last call
int choose(const std::string &name, int n);      // structural choice
void broken(const std::string &msg);             // unconditional violation
struct Task { std::string name; std::function<void(int, int)> body; };
std::vector<Task> &tasks();
struct TaskReg { TaskReg(const std::string &n, std::function<void(int, int)> b) { Task t; t.name = n; t.body = b; tasks().push_back(t); } };
#endif
