#!/bin/bash
# scratch.sh DIR: build a copy of the repository and run its tests (planted bugs, trial fixes)
set -e
d=$1
cmake -S $d -B $d/_b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++-10 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_SHARED_LIBS=ON -DBUILD_EXAMPLES=ON -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error >$d/_b.log 2>&1
ninja -C $d/_b src/all examples/all doctest_tests >>$d/_b.log 2>&1 || { tail -30 $d/_b.log; exit 1; }
t=$(find $d/_b -name doctest_tests -type f | head -1)
(cd $(dirname $t) && $t 2>&1 | tail -${2:-12})
