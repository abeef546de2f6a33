#!/bin/bash
# compiles demo.cpp beside this file against the sources in the working directory and runs it in a scratch folder
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
fl=$(sed -n 's|^// FLAGS:||p' "$d/demo.cpp")
g++ -std=c++14 -O1 -w -I"$PWD/src" -I/usr/include/eigen3 -DUSE_NLOPT $fl "$d/demo.cpp" -o "$t/demo" -lnlopt -lboost_filesystem -lboost_system -lboost_thread -lpthread $(sed -n 's|^// LIBS:||p' "$d/demo.cpp") && (cd "$t" && timeout 250 ./demo)
rc=$?
rm -rf "$t"
exit $rc
