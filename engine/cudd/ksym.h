// CUDD's own headers over symbolic node handles. A handle stands for a node of the (canonical) diagram of a Boolean function
// whose truth table consists of symbolic bits; reading a node's variable, complement mark, or comparing two handles asks the solver.
#ifndef KSYM_H
#define KSYM_H
#include "config.h"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cassert>
#undef EPD_BIG_ENDIAN
struct DdNode;
struct DdNodeP {
  long id;                                        // 0 = NULL
  DdNodeP() = default;
  DdNodeP(long i) : id(i) {} DdNodeP(int i) : id(i) {} DdNodeP(std::nullptr_t) : id(0) {}
  explicit DdNodeP(void *p) : id((long)p) {} explicit DdNodeP(uintptr_t p) : id((long)p) {}
  DdNode *operator->() const;
  explicit operator bool() const { return id != 0; }
  operator void *() const { return (void *)id; }
  explicit operator long() const { return id; } explicit operator uintptr_t() const { return (uintptr_t)id; }
};
bool kEqual(DdNodeP a, DdNodeP b); bool kAbove(DdNodeP a, DdNodeP b); bool kCompl(DdNodeP a); DdNodeP kNot(DdNodeP a); DdNodeP kRegular(DdNodeP a); DdNodeP kChild(long node, bool t); unsigned kIndex(long node); unsigned kRef(long node); void kAddRef(long node, int d);
inline bool operator==(DdNodeP a, DdNodeP b) { return kEqual(a, b); } inline bool operator!=(DdNodeP a, DdNodeP b) { return !kEqual(a, b); }
inline bool operator==(DdNodeP a, long b) { return b == 0 ? a.id == 0 : kEqual(a, DdNodeP(b)); } inline bool operator!=(DdNodeP a, long b) { return !(a == b); }
inline bool operator>(DdNodeP a, DdNodeP b) { return kAbove(a, b); } inline bool operator<(DdNodeP a, DdNodeP b) { return kAbove(b, a); }
inline bool operator>=(DdNodeP a, DdNodeP b) { return !kAbove(b, a); } inline bool operator<=(DdNodeP a, DdNodeP b) { return !kAbove(a, b); }
struct IndexP { long n; operator unsigned() const { return kIndex(n); } };
struct RefP { long n; operator unsigned() const { return kRef(n); } void operator+=(unsigned d) { kAddRef(n, d); } void operator-=(unsigned d) { kAddRef(n, -(int)d); } unsigned operator++(int) { kAddRef(n, 1); return 1; } unsigned operator--(int) { kAddRef(n, -1); return 1; } void operator++() { kAddRef(n, 1); } void operator--() { kAddRef(n, -1); } };
struct ChildP { long n; bool t; operator DdNodeP() const { return kChild(n, t); } DdNode *operator->() const { return kChild(n, t).operator->(); } };
inline bool operator==(ChildP a, DdNodeP b) { return kEqual(a, b); } inline bool operator==(DdNodeP a, ChildP b) { return kEqual(a, b); } inline bool operator==(ChildP a, ChildP b) { return kEqual(a, b); }
inline bool operator!=(ChildP a, DdNodeP b) { return !kEqual(a, b); } inline bool operator!=(DdNodeP a, ChildP b) { return !kEqual(a, b); } inline bool operator!=(ChildP a, ChildP b) { return !kEqual(a, b); }
struct DdNode { IndexP index; RefP ref; DdNodeP next; struct { double value; struct { ChildP T, E; } kids; } type; };
#include "util.h"
#undef fail
#include "cuddInt.h"
#undef Cudd_Not
#undef Cudd_NotCond
#undef Cudd_Regular
#undef Cudd_Complement
#undef Cudd_IsComplement
#define Cudd_Not(n) kNot(n)
#define Cudd_NotCond(n, c) ((c) ? kNot(n) : DdNodeP(n))
#define Cudd_Regular(n) kRegular(n)
#define Cudd_Complement(n) kNot(kRegular(n))
#define Cudd_IsComplement(n) ((int)kCompl(n))
// the increment macros test for saturation; counts are ghost state here
#undef cuddSatInc
#undef cuddSatDec
inline void kSatInc(RefP &r) { r += 1; } inline void kSatDec(RefP &r) { r -= 1; } template<class I> inline void kSatInc(I &r) { r++; } template<class I> inline void kSatDec(I &r) { r--; }
#define cuddSatInc(x) kSatInc(x)
#define cuddSatDec(x) kSatDec(x)
#endif
