#!/bin/bash
# build_real.sh OUTDIR : compiles the unmodified sources of /repo (slugs and CUDD) into OUTDIR/slugs
set -e
OUT=$1; R=${REPO:-/repo}; C=$R/lib/cudd-3.0.0; ENG=$(cd "$(dirname "$0")" && pwd)
mkdir -p $OUT/o $OUT/inc; cd $OUT
[ -f $C/config.h ] || cp $ENG/cudd_config.h $OUT/inc/config.h
INC="-I$R/src -I$R/src/BFAbstractionLibrary -I$C -I$C/cudd -I$C/mtr -I$C/epd -I$C/st -I$C/util -I$C/dddmp -I$OUT/inc"
gcc $R/src/BFAbstractionLibrary/compilerOptionGenerator.c -o options && OPT=$(./options)
(cd o; ls $C/{cudd,mtr,epd,st,util,dddmp}/*.c | grep -v -e testextra -e testcudd -e testmtr -e testst -e cpu_stats -e testdddmp | xargs -P8 -n4 gcc -O1 -w $OPT -DUSE_CUDD -DNDEBUG $INC -c) & p1=$!
(cd o; ls -S $R/src/*.cpp $R/src/BFAbstractionLibrary/*.cpp | xargs -P8 -n1 g++ -std=c++11 -O0 -w $OPT -DUSE_CUDD -DNDEBUG $INC -c) & p2=$!
wait $p1; wait $p2
g++ -o slugs o/*.o
