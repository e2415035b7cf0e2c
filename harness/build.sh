#!/bin/bash
# Builds the driver from /repo's CURRENT working tree (or $DISIR_SRC) into $1. Incremental and offline.
set -e
SRC=${DISIR_SRC:-/repo}
B=${1:?usage: build.sh BUILDDIR}
H=$(cd "$(dirname "$0")" && pwd)
export CC=gcc CXX=g++
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
# variables nobody initialised hold a pattern, so that reading one shows
SAN="-fno-omit-frame-pointer -fsanitize=address -ftrivial-auto-var-init=pattern"
( if [ ! -f "$B/driver.o" ] || [ -n "$(find "$H" -newer "$B/driver.o" -print -quit)" ] || [ -n "$(find "$SRC/include" -newer "$B/driver.o" -print -quit)" ]; then
    g++ -std=gnu++17 -O0 -w -I"$H" -I"$SRC/include" -I"$H/../harness" -c "$H/driver.cc" -o "$B/driver.o.tmp" && mv "$B/driver.o.tmp" "$B/driver.o"
  fi ) & DP=$!
cmake -S "$SRC" -B "$B" -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=None \
  "-DCMAKE_C_FLAGS=-g1 -O1 -w $SAN" "-DCMAKE_CXX_FLAGS=-g1 -O1 -w $SAN -include string" \
  -DCMAKE_PROJECT_disir_INCLUDE="$H/cmake/project_include.cmake" > "$B/cmake.log" 2>&1 || { cat "$B/cmake.log" >&2; exit 2; }
ninja -C "$B" disir_static > "$B/ninja.log" 2>&1 || { tail -40 "$B/ninja.log" >&2; wait $DP; exit 2; }
wait $DP
if [ ! -f "$B/driver" ] || [ "$B/driver.o" -nt "$B/driver" ] || [ "$B/lib/libdisir_static.a" -nt "$B/driver" ]; then
  g++ -fsanitize=address "$B/driver.o" -o "$B/driver.tmp" -rdynamic -Wl,--whole-archive "$B/lib/libdisir_static.a" -Wl,--no-whole-archive -larchive -ldl
  mv "$B/driver.tmp" "$B/driver"
fi
