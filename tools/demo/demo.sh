#!/bin/bash
# exit 0: the property holds on this input; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
cp -r src include "$t/" || exit 9
cp "$here/defines.hpp" "$t/include/defines.hpp"
objs=""
for s in @SRCS@; do
  o="$t/$(echo "$s" | tr '/.' '__').o"; objs="$objs $o"
  g++ -std=c++17 -O1 -w -fno-access-control @FLAGS@ -I"$here" -I"$t/include" -c "$t/src/$s.cpp" -o "$o" &
done
g++ -std=c++17 -O1 -w -fno-access-control @FLAGS@ -I"$here" -I"$t/include" -c "$here/demo.cpp" -o "$t/demo.o" &
wait
g++ @FLAGS@ "$t/demo.o" $objs -o "$t/demo" @LIBS@ || exit 9
cd "$t" && timeout 120 ./demo
