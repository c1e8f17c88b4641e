#!/bin/bash
# trun.sh NAME [args]: build a harness with the thread sanitizer and run it by hand
set -e
N=$1; shift
O=/tmp/t_$N
mkdir -p /tmp/gsbv_tmp
clang++-18 -O1 -w -std=c++17 -g -fopenmp -fsanitize=thread -I/verif/harness -I/repo/include -I/repo/dep /verif/harness/$N.cpp /repo/src/common.cpp -o $O
cd /tmp/gsbv_tmp
OMP_TOOL_LIBRARIES=/usr/lib/llvm-18/lib/libarcher.so TSAN_OPTIONS=ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=0 OMP_WAIT_POLICY=passive $O "$@" 2>&1 | head -60
