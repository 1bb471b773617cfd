#!/bin/bash
# ./run.sh [REPO]: builds and runs every demonstration; prints ok / FAIL per defect
R=${1:-/repo}; D=$(cd "$(dirname "$0")"; pwd); T=$(mktemp -d)
for f in $D/*.cpp; do n=$(basename $f .cpp)
 if ! g++ -std=c++11 -w -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=null,alignment,vptr -I$R $f -o $T/$n 2>$T/$n.log; then echo "FAIL(compile) $n"; continue; fi
 ( cd $T; ulimit -c 0; ASAN_OPTIONS=detect_leaks=1 timeout 20 ./$n >$T/$n.log 2>&1 ); rc=$?
 [ $rc = 0 ] && echo "ok $n" || echo "FAIL rc=$rc $n"
done
rm -rf "$T"
