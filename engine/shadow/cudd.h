// Symbolic stand-in for libcudd's interface: a DdNodeP is a Boolean function over the
// manager's variables whose truth-table entries are symbolic (AIG literals).
#ifndef CUDD_H_
#define CUDD_H_
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <type_traits>
#include <functional>
#include <cmath>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include "sym.h"
struct SymNodeView { unsigned int index; unsigned int ref; };
struct DdNodeP {
  int id;                 // 0 = NULL, -1 = (DdNode*)-1, otherwise interned function
  DdNodeP() : id(0) {}
  DdNodeP(const DdNodeP &o) : id(o.id) {}
  DdNodeP &operator=(const DdNodeP &o) { id = o.id; return *this; }
  DdNodeP(std::nullptr_t) : id(0) {}
  template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> DdNodeP(I v) : id(fromAddress((size_t)v)) {}
  static int fromAddress(size_t a);
  explicit operator size_t() const;       // canonical ROBDD address (concretises)
  explicit operator long() const { return (long)(size_t)*this; }
  explicit operator bool() const { return id != 0; }
  explicit operator void *() const { return (void *)(size_t)*this; }
  explicit operator const void *() const { return (const void *)(size_t)*this; }
  const SymNodeView *operator->() const;
};
bool symNodeEq(DdNodeP a, DdNodeP b);
inline bool operator==(const DdNodeP &a, const DdNodeP &b) { return symNodeEq(a, b); }
inline bool operator!=(const DdNodeP &a, const DdNodeP &b) { return !symNodeEq(a, b); }
inline bool operator<(const DdNodeP &a, const DdNodeP &b) { return (size_t)a < (size_t)b; }
inline bool operator>(const DdNodeP &a, const DdNodeP &b) { return b < a; }
inline bool operator<=(const DdNodeP &a, const DdNodeP &b) { return !(b < a); }
inline bool operator>=(const DdNodeP &a, const DdNodeP &b) { return !(a < b); }
namespace std { template <> struct hash<DdNodeP> { size_t operator()(const DdNodeP &n) const { return (size_t)n; } }; }
std::ostream &operator<<(std::ostream &o, const DdNodeP &n);
struct DdManager { DdNodeP one; int nvars; long liveRefs; };
typedef unsigned int DdHalfWord;
#define CUDD_CONST_INDEX ((unsigned)0x7fffffff)
#define CUDD_MAXINDEX 0x7fffffff
#define CUDD_OUT_OF_MEM -1
#define CUDD_UNIQUE_SLOTS 256
#define CUDD_CACHE_SLOTS 262144
#define CUDD_TRUE 1
#define CUDD_FALSE 0
enum Cudd_ReorderingType { CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_WINDOW2, CUDD_REORDER_WINDOW3, CUDD_REORDER_WINDOW4, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_LINEAR, CUDD_REORDER_EXACT };
DdManager *Cudd_Init(unsigned, unsigned, unsigned, unsigned, size_t);
void Cudd_Quit(DdManager *);
int Cudd_CheckZeroRef(DdManager *);
inline void Cudd_AutodynEnable(DdManager *, Cudd_ReorderingType) {}
inline void Cudd_AutodynDisable(DdManager *) {}
inline void Cudd_SetMaxGrowth(DdManager *, double) {}
inline void Cudd_SetMinHit(DdManager *, unsigned) {}
inline int Cudd_PrintInfo(DdManager *, FILE *) { return 1; }
inline int Cudd_ReduceHeap(DdManager *, Cudd_ReorderingType, int) { return 1; }
inline int Cudd_ReadSize(DdManager *m) { return m->nvars; }
void Cudd_Ref(DdNodeP);
void Cudd_RecursiveDeref(DdManager *, DdNodeP);
inline void Cudd_IterDerefBdd(DdManager *m, DdNodeP n) { Cudd_RecursiveDeref(m, n); }
void Cudd_Deref(DdNodeP);
DdNodeP Cudd_ReadOne(DdManager *);
DdNodeP Cudd_ReadLogicZero(DdManager *);
DdNodeP Cudd_Not(DdNodeP);
DdNodeP Cudd_NotCond(DdNodeP, int);
DdNodeP Cudd_Regular(DdNodeP);
DdNodeP Cudd_Complement(DdNodeP);
int Cudd_IsComplement(DdNodeP);
int Cudd_IsConstant(DdNodeP);
inline int Cudd_IsConstantInt(DdNodeP n) { return Cudd_IsConstant(n); }
DdNodeP Cudd_T(DdNodeP);
DdNodeP Cudd_E(DdNodeP);
unsigned int Cudd_NodeReadIndex(DdNodeP);
inline int Cudd_ReadPerm(DdManager *, int i) { return i; }
inline int Cudd_ReadInvPerm(DdManager *, int i) { return i; }
DdNodeP Cudd_bddNewVar(DdManager *);
DdNodeP Cudd_bddIthVar(DdManager *, int);
DdNodeP Cudd_bddAnd(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddOr(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddNand(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddNor(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddXor(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddXnor(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddIte(DdManager *, DdNodeP, DdNodeP, DdNodeP);
int Cudd_bddLeq(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddExistAbstract(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddUnivAbstract(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddAndAbstract(DdManager *, DdNodeP, DdNodeP, DdNodeP);
DdNodeP Cudd_bddXorExistAbstract(DdManager *, DdNodeP, DdNodeP, DdNodeP);
DdNodeP Cudd_bddSwapVariables(DdManager *, DdNodeP, DdNodeP *, DdNodeP *, int);
DdNodeP Cudd_bddPermute(DdManager *, DdNodeP, int *);
DdNodeP Cudd_bddCompose(DdManager *, DdNodeP, DdNodeP, int);
DdNodeP Cudd_bddVectorCompose(DdManager *, DdNodeP, DdNodeP *);
DdNodeP Cudd_Cofactor(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddRestrict(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddConstrain(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddLICompaction(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddMinimize(DdManager *, DdNodeP, DdNodeP);
DdNodeP Cudd_bddComputeCube(DdManager *, DdNodeP *, int *, int);
DdNodeP Cudd_Support(DdManager *, DdNodeP);
int Cudd_DagSize(DdNodeP);
double Cudd_CountPathsToNonZero(DdNodeP);
double Cudd_CountMinterm(DdManager *, DdNodeP, int);
#endif
