#!/bin/bash
# replay.sh CONTRACT SCENARIO SEED CASE: run one concrete case against the real code of /repo
d=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d)
fl=$(sed -n 's|^// FLAGS:||p' "$d/contracts/$1.cpp"); lb=$(sed -n 's|^// LIBS:||p' "$d/contracts/$1.cpp")
g++ -O1 -g -DVERIF_RT -D_GLIBCXX_ASSERTIONS -std=c++14 -I/repo/src -I/usr/include/eigen3 -I"$d/contracts" -DUSE_NLOPT -w $fl "$d/contracts/$1.cpp" "$d/rt/verif_rt.cpp" -o "$t/h" -lnlopt -lboost_filesystem -lboost_system -lboost_thread -lpthread $lb && (cd "$t" && VERIF_SHOW=1 ./h "$2" "$3" "$4" 1 5)
rc=$?
rm -rf "$t"
exit $rc
