#!/bin/bash
# build.sh OUTDIR : transforms /repo's current sources and builds the symbolic slugs in OUTDIR
set -e
ENG=$(cd "$(dirname "$0")" && pwd); OUT=$1; REPO=${REPO:-/repo}
mkdir -p $OUT/src/BFAbstractionLibrary
for f in $REPO/src/*.cpp $REPO/src/*.hpp $REPO/src/BFAbstractionLibrary/*.cpp $REPO/src/BFAbstractionLibrary/*.h; do
  r=${f#$REPO/src/}
  sed -E -e 's/\b(struct[[:space:]]+)?DdNode[[:space:]]*\*/DdNodeP /g' -e 's/reinterpret_cast<[[:space:]]*(size_t|uintptr_t|std::size_t|DdNodeP )[[:space:]]*>/static_cast<\1>/g' $f > $OUT/src/$r
done
CXX="g++ -std=c++11 -O1 -w -fno-access-control -DUSE_CUDD -DNDEBUG -D_GLIBCXX_ASSERTIONS -I$ENG/shadow -I$ENG/sym -I$ENG/oracles -I$OUT/src -I$OUT/src/BFAbstractionLibrary"
cd $OUT
pids=()
run() { "$@" & pids+=($!); }
run $CXX -O0 -include $ENG/shadow/symstream.h -Dmain=slugs_main -c src/main.cpp -o main.o
for f in $OUT/src/*.cpp $OUT/src/BFAbstractionLibrary/*.cpp; do
  b=$(basename $f .cpp); [ $b = main ] && continue; [ $b = bddDump ] && continue
  run $CXX -include $ENG/shadow/symstream.h -c $f -o m_$b.o
done
for f in $ENG/sym/*.cpp $ENG/oracles/*.cpp; do b=$(basename $f .cpp); run ${CXX/-O1/-O2} -c $f -o h_$b.o; done
for p in "${pids[@]}"; do wait $p || exit 1; done
g++ -o symslugs *.o -Wl,--wrap=_ZN20SlugsVariableManager26computeVariableInformationEv -Wl,--wrap=fopen -Wl,--wrap=fclose /usr/lib/libminisat.a -lz -lpthread
