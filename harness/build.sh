#!/bin/bash
# usage: build.sh <repo> <output directory> [asan]   builds <output directory>/oracle from the sources of <repo>
set -u
R=$1; O=$2; V=${3:-plain}
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
F="-include cstddef -DEIGEN_MAX_CPP_VER=03 -std=c++14 -w -I$R/include -I$R/src -I$R/urdf_parser/include -I$R/urdf_parser/tinyxml -I$H/../stub -I/usr/include/eigen3"
if [ "$V" = asan ]; then F="$F -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"; else F="$F -O1 -DNDEBUG"; fi
pids=()
n=0
for s in "$H/oracle.cpp" "$R"/src/kinematics.cpp "$R"/src/tinyfk.cpp "$R"/urdf_parser/src/*.cpp "$R"/urdf_parser/tinyxml/*.cpp; do
  n=$((n+1))
  g++ $F -c "$s" -o "$O/$n.o" 2> "$O/$n.err" &
  pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || { cat "$O"/*.err; exit 3; }
g++ $F "$O"/*.o -o "$O/oracle" || exit 3
