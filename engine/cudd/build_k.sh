#!/bin/bash
# build_k.sh OUTDIR : CUDD's recursive kernels over the symbolic engine (OUTDIR/symk) and a driver over the real library (OUTDIR/realk)
set -e
ENG=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; R=${REPO:-/repo}; C=$R/lib/cudd-3.0.0
mkdir -p $OUT/k $OUT/kc; cd $OUT/k
X="python3 $ENG/cudd/xform.py"
$X $C/cudd/cudd.h cudd.h; $X $C/cudd/cuddInt.h cuddInt0.h
python3 - <<'P'
import re
s = open("cuddInt0.h").read()
s, n = re.subn(r"struct\s+DdNode\s*\{.*?\n\};", "", s, count=1, flags=re.S); assert n == 1
s, m = re.subn(r"struct\s+DdChildren\s*\{.*?\n\};", "", s, count=1, flags=re.S)
open("cuddInt.h", "w").write(s)
P
if [ -f $C/config.h ]; then cp $C/config.h .; else cp $ENG/cudd_config.h config.h; fi
rec() { f=$1; shift; $X $C/cudd/$f.c $f.cpp "$@"; }
rec cuddBddIte cuddBddAndRecur cuddBddXorRecur cuddBddIteRecur cuddBddIntersectRecur Cudd_bddLeq
rec cuddBddAbs cuddBddExistAbstractRecur cuddBddXorExistAbstractRecur cuddBddBooleanDiffRecur
rec cuddAndAbs cuddBddAndAbstractRecur
rec cuddCompose cuddBddComposeRecur cuddBddPermuteRecur cuddBddVarMapRecur
rec cuddGenCof cuddBddConstrainRecur cuddBddRestrictRecur
INC="-I. -I$C/cudd -I$C/mtr -I$C/epd -I$C/st -I$C/util -I$ENG/cudd -I$ENG/sym"
pids=(); run() { "$@" & pids+=($!); }
for f in cuddBddIte cuddBddAbs cuddAndAbs cuddCompose cuddGenCof; do run g++ -std=c++17 -O1 -w -fpermissive -DNDEBUG -ffunction-sections $INC -c $f.cpp -o $f.o; done
run g++ -std=c++17 -O1 -w -fpermissive -DNDEBUG $INC -c $ENG/cudd/kernels.cpp -o kernels.o
run g++ -std=c++11 -O2 -w -I$ENG/sym -c $ENG/sym/sym.cpp -o sym.o
(cd $OUT/kc; gcc $R/src/BFAbstractionLibrary/compilerOptionGenerator.c -o options; OPT=$(./options); ls $C/{cudd,mtr,epd,st,util}/*.c | grep -v -e testextra -e testcudd -e testmtr -e testst -e cpu_stats | xargs -P8 -n4 gcc -O1 -w $OPT -DNDEBUG -DHAVE_CONFIG_H -I$OUT/k/cfg -I$C -I$C/cudd -I$C/mtr -I$C/epd -I$C/st -I$C/util -c; gcc -O1 -w $OPT -DHAVE_CONFIG_H -I$OUT/k/cfg -I$C -I$C/cudd -I$C/mtr -I$C/epd -I$C/st -I$C/util -c $ENG/cudd/realk.c -o realk.o; gcc -o ../realk *.o -lm) & pids+=($!)
mkdir -p cfg; cp config.h cfg/
for p in "${pids[@]}"; do wait $p || exit 1; done
g++ -Wl,--gc-sections -o ../symk *.o /usr/lib/libminisat.a -lz -lpthread
