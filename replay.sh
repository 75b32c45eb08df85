#!/bin/bash
# replay.sh MODULE.bc.d ENTRY TRACE [MARKS]   compiles the module natively and runs the recorded schedule on it
V=$(cd "$(dirname "$0")" && pwd); B=$V/build; D=$1; EN=$2; TR=$3; MK=${4:-/dev/null}
H=$(cat $MK | md5sum | cut -c1-12); X=$D/nat.$H
if [ ! -x $X ]; then
  T=$(mktemp -d $D/nat.XXXXXX)
  R=""; for s in $(cat $V/env/renames.txt); do R="$R --redefine-sym $s=vfm_$s"; done
  $B/bsx emit $D/o.bc $T/e.bc $MK && clang++ -O0 -fsanitize=address -c $T/e.bc -o $T/e.o -Wno-everything && objcopy $R $T/e.o || exit 2
  clang++ -fsanitize=address -rdynamic $T/e.o $B/nat_model.o $B/nat_chrono.o $B/nat_rt.o -o $T/x -ldl -lpthread || exit 2
  mv $T/x $X; /bin/rm -f $T/e.o $T/e.bc; rmdir $T
fi
timeout 120 $X $EN $TR 2>$TR.err | tail -3
