// Symbolic Boolean functions (truth tables of AIG literals), interned.
#ifndef SYM_FN_H
#define SYM_FN_H
#include "sym.h"
#include "cudd.h"
namespace sym {
typedef std::vector<Lit> Tab;          // size 2^nv; bit i of the index is variable i
DdNodeP mk(const Tab &t);              // any power-of-two size up to the manager's
Tab tab(DdNodeP f);                    // full table over all variables created so far (resolved)
int nvars();
Lit at(DdNodeP f, unsigned assignment);
Lit equalLit(DdNodeP a, DdNodeP b);
struct Stored { std::string file; DdNodeP node; std::vector<std::string> names; std::vector<int> ids; };
extern std::vector<Stored> storedBdds;
extern std::function<Lit(unsigned)> loadHook; // content of the symbolic BDD file: value by assignment to the file's variables // what the program wrote through dddmp
void clampTables();
// reference counts as libcudd keeps them (only when tracked)
extern bool trackRefs; extern std::vector<std::string> refMisuse; long refCountOf(DdNodeP f); int refKey(DdNodeP f);
}
#endif
