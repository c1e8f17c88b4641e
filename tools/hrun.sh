#!/bin/bash
# hrun.sh NAME [args]: build one harness and run it by hand
set -e
N=$1; shift
O=/tmp/h_$N
mkdir -p /tmp/gsbv_tmp
gcc -g -O1 -fsanitize=address -w -c /repo/dep/mm_io/mm_io.c -o /tmp/h_mm.o
g++ -O1 -w -std=c++17 -g -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr -I/verif/harness -I/repo/include -I/repo/dep /verif/harness/$N.cpp /repo/src/common.cpp /tmp/h_mm.o -o $O
cd /tmp/gsbv_tmp
GSBV_TMP=/tmp/gsbv_tmp ASAN_OPTIONS=detect_leaks=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=0 OMP_WAIT_POLICY=passive $O "$@" 2>&1 | head -60
