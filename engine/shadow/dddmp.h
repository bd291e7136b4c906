#ifndef _DDDMP
#define _DDDMP
#include "cudd.h"
#define DDDMP_FAILURE 0
#define DDDMP_SUCCESS 1
enum Dddmp_VarMatchType { DDDMP_VAR_MATCHIDS, DDDMP_VAR_MATCHPERMIDS, DDDMP_VAR_MATCHAUXIDS, DDDMP_VAR_MATCHNAMES, DDDMP_VAR_COMPOSEIDS };
enum Dddmp_VarInfoType { DDDMP_VARIDS, DDDMP_VARPERMIDS, DDDMP_VARAUXIDS, DDDMP_VARNAMES, DDDMP_VARDEFAULT };
#define DDDMP_MODE_TEXT 'A'
#define DDDMP_MODE_BINARY 'B'
#define DDDMP_MODE_DEFAULT 'D'
DdNodeP Dddmp_cuddBddLoad(DdManager *, Dddmp_VarMatchType, char **, int *, int *, int, char *, FILE *);
int Dddmp_cuddBddStore(DdManager *, char *, DdNodeP, char **, int *, int, Dddmp_VarInfoType, char *, FILE *);
#endif
