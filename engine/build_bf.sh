#!/bin/bash
# build_bf.sh OUTDIR : the wrapper driver over the symbolic engine (OUTDIR/symbf) and over the unmodified library (OUTDIR/realbf)
set -e
ENG=$(cd "$(dirname "$0")" && pwd); OUT=$1; R=${REPO:-/repo}; C=$R/lib/cudd-3.0.0
mkdir -p $OUT/src $OUT/s $OUT/r $OUT/c $OUT/inc; cd $OUT
[ -f $C/config.h ] || cp $ENG/cudd_config.h $OUT/inc/config.h
for f in $R/src/BFAbstractionLibrary/*.cpp $R/src/BFAbstractionLibrary/*.h; do
  sed -E -e 's/\b(struct[[:space:]]+)?DdNode[[:space:]]*\*/DdNodeP /g' -e 's/reinterpret_cast<[[:space:]]*(size_t|uintptr_t|std::size_t|DdNodeP )[[:space:]]*>/static_cast<\1>/g' $f > src/$(basename $f)
done
INC="-I$R/src/BFAbstractionLibrary -I$C -I$C/cudd -I$C/mtr -I$C/epd -I$C/st -I$C/util -I$C/dddmp -I$OUT/inc"
gcc $R/src/BFAbstractionLibrary/compilerOptionGenerator.c -o options && OPT=$(./options)
S="g++ -std=c++11 -O1 -w -fno-access-control -DUSE_CUDD -DNDEBUG -D_GLIBCXX_ASSERTIONS -I$ENG/bf -I$ENG/shadow -I$ENG/sym -I$OUT/src"
Q="g++ -std=c++11 -O0 -w -fno-access-control -DREAL $OPT -DUSE_CUDD -DNDEBUG -I$ENG/bf $INC"
pids=(); run() { "$@" & pids+=($!); }
(cd c; ls $C/{cudd,mtr,epd,st,util,dddmp}/*.c | grep -v -e testextra -e testcudd -e testmtr -e testst -e cpu_stats -e testdddmp | xargs -P8 -n4 gcc -O1 -w $OPT -DUSE_CUDD -DNDEBUG $INC -c) & pids+=($!)
for f in src/*.cpp; do b=$(basename $f .cpp); [ $b = bddDump ] && continue; run $S -c $f -o s/m_$b.o; run $Q -c $R/src/BFAbstractionLibrary/$b.cpp -o r/$b.o; done
for f in $ENG/sym/fn.cpp $ENG/sym/sym.cpp $ENG/bf/layer_sym.cpp $ENG/bf/o_*.cpp; do run $S -c $f -o s/h_$(basename $f .cpp).o; done
for f in $ENG/bf/layer_real.cpp $ENG/bf/o_*.cpp; do run $Q -c $f -o r/h_$(basename $f .cpp).o; done
for p in "${pids[@]}"; do wait $p || exit 1; done
g++ -o symbf s/*.o /usr/lib/libminisat.a -lz -lpthread
W=""; for f in Ref RecursiveDeref bddAnd bddOr bddXor bddExistAbstract bddUnivAbstract bddRestrict bddLICompaction bddLeq bddAndAbstract; do W="$W -Wl,--wrap=Cudd_$f"; done
g++ -o realbf r/*.o c/*.o $W
