#ifndef CUDD_INT_H_
#define CUDD_INT_H_
#include "cudd.h"
#define cuddT(n) Cudd_T(n)
#define cuddE(n) Cudd_E(n)
#define cuddI(m, i) ((int)(i))
#define cuddIZ(m, i) ((int)(i))
#define DD_ONE(m) Cudd_ReadOne(m)
#define cuddRef(n) Cudd_Ref(n)
#define cuddDeref(n) Cudd_Deref(n)
#define cuddIsConstant(n) Cudd_IsConstant(n)
#define cuddIsConstantInt(n) Cudd_IsConstant(n)
#endif
