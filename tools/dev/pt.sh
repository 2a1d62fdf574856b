#!/bin/bash
# pt.sh DIR: compile and run the gtest cases of DIR/test against DIR/include (uses the gtest library built in /repo/_build)
D=$1; W=$(mktemp -d /tmp/pt.XXXXXX); L=$(ls /repo/_build/lib/libgtest.a)
ls $D/test/src/*_test.cpp | xargs -P 8 -I{} sh -c 'b=$(basename {} .cpp); g++ -O3 -DNDEBUG -std=c++17 -w -I'$D'/include -I/usr/src/googletest/googletest/include {} '$L' /repo/_build/lib/libgtest_main.a -lpthread -o '$W'/$b 2>'$W'/$b.err || { echo BUILD-FAIL $b; head -5 '$W'/$b.err; }'
p=0; f=0
for t in $W/*_test; do (cd $W && timeout 60 $t --gtest_brief=1 > $t.out 2>&1); [ $? -le 1 ] || echo CRASH $t; grep -h '^\[  FAILED  \].*(' $t.out; n=$(grep -oP '^\[  PASSED  \] \K[0-9]+' $t.out); p=$((p+${n:-0})); done
echo "passed $p"
rm -rf "$W"
