#!/bin/bash
# build.sh FILE.cpp OUT.bc [extra clang flags...]   harness + boost.thread sources -> one module for the engine
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${VP_REPO:-/repo}; B=$V/build
SRC=$1; OUT=$2; shift 2
D=$OUT.d; mkdir -p "$D"
F="-O1 -Xclang -disable-llvm-passes -fno-vectorize -fno-slp-vectorize -fsanitize=address -gline-tables-only -std=gnu++17 -D_GLIBCXX_EXTERN_TEMPLATE=0 -Wno-everything -emit-llvm -c -I$R/include -I/opt/vp/lib/shadow -I$V/env -DBOOST_THREAD_BUILD_LIB -DBOOST_THREAD_NO_LIB=1 -DBOOST_THREAD_POSIX -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED -DBOOST_ALL_NO_LIB"
pids=()
clang++ $F "$@" $SRC -o $D/h.bc & pids+=($!)
clang++ $F "$@" $R/src/pthread/thread.cpp -o $D/thread.bc & pids+=($!)
clang++ $F "$@" $R/src/pthread/once.cpp -o $D/once.bc & pids+=($!)
clang++ $F "$@" $R/src/future.cpp -o $D/future.bc & pids+=($!)
for p in ${pids[@]}; do wait $p; done
llvm-link-18 $D/h.bc $D/thread.bc $D/once.bc $D/future.bc -o $D/l.bc
$B/bsx prep $D/l.bc $D/p.bc
opt-18 -passes='default<O1>' -vectorize-loops=false -vectorize-slp=false $D/p.bc -o $D/o.bc
llvm-link-18 $D/o.bc $B/env.bc -o $D/f.bc
mv $D/f.bc $OUT
