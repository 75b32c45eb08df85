#!/bin/bash
# builds the engine and the environment bitcode
set -e
V=$(cd "$(dirname "$0")" && pwd); B=$V/build; mkdir -p $B
make -s -C $V/engine
F="-O1 -fno-vectorize -fno-slp-vectorize -fno-builtin -gline-tables-only -std=gnu++17 -D_GLIBCXX_EXTERN_TEMPLATE=0 -Wno-everything -emit-llvm -c -I/opt/vp/lib/shadow -I$V/env"
for f in model rt chrono; do clang++ $F $V/env/$f.cpp -o $B/$f.bc; done
llvm-link-18 $B/model.bc $B/rt.bc $B/chrono.bc -o $B/env0.bc
$B/bsx env $B/env0.bc $B/env.bc
R=""; for s in $(cat $V/env/renames.txt); do R="$R --redefine-sym $s=vfm_$s"; done
clang++ -O1 -std=gnu++17 -fno-builtin -Wno-everything -c $V/env/model.cpp -I$V/env -o $B/nat_model.o; clang++ -O1 -std=gnu++17 -Wno-everything -I/opt/vp/lib/shadow -c $V/env/chrono.cpp -o $B/nat_chrono.o; clang++ -O1 -std=gnu++17 -Wno-everything -c $V/env/native.cpp -o $B/nat_rt.o
objcopy $R $B/nat_model.o; objcopy $R $B/nat_chrono.o
