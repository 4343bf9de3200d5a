#!/bin/bash
# Builds demo.cpp on top of the sources in the current directory (the tree), and runs it.
# Everything is written to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
tree=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'find "$work" -delete' EXIT
mkdir -p "$work/cfg/obake"
sed -e 's/@obake_VERSION@/0.7.0/; s/@obake_VERSION_MAJOR@/0/; s/@obake_VERSION_MINOR@/7/; s/@obake_VERSION_PATCH@/0/' \
    -e 's/@[A-Z_a-z]*@//g' "$tree/config.hpp.in" > "$work/cfg/obake/config.hpp"
flags="-std=c++20 -O1 -g0 -w -I$work/cfg -I$tree/include -I$here/standin $(cat "$here/flags" 2>/dev/null)"
i=0
for f in $(find "$tree/src" -name '*.cpp' ! -name 'libbacktrace*' | sort) "$here/demo.cpp"; do
    i=$((i + 1))
    echo "g++ $flags -c '$f' -o '$work/$i.o'"
done | xargs -P 8 -I{} bash -c '{}' || { echo "the demonstration does not build"; exit 3; }
g++ $flags "$work"/*.o -o "$work/demo" -ltbb -lboost_serialization -lfmt -lgmpxx -lgmp -ldl -lpthread || exit 3
cd "$work" && timeout 120 ./demo
