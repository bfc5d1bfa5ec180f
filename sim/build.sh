#!/bin/bash
# Builds the simulator around the sources of /repo's working tree: build.sh OUTDIR [REPO [pattern]]
# pattern: local variables which the program does not initialise have a known content, not what is left on the stack
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:?outdir}; repo=${2:-/repo}
mkdir -p "$out"
SAN="-fsanitize=address,integer-divide-by-zero,bounds,null,vla-bound,return,unreachable,bool,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
APP="-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -std=gnu++17 -g1 -O1 $SAN -fsanitize-coverage=trace-pc -w -I$repo/include -Dmain=jsonstroll_main"
HAR="-std=gnu++17 -g1 -O1 -fsanitize=address -fno-omit-frame-pointer -w"
[ "$3" = pattern ] && APP="$APP -ftrivial-auto-var-init=pattern"
pids=()
objs=()
for s in "$repo"/src/*.cpp; do
    o=$out/app_$(basename "$s" .cpp).o; objs+=("$o")
    g++ $APP -c "$s" -o "$o" & pids+=($!)
done
for s in sim term alloc; do
    o=$out/h_$s.o; objs+=("$o")
    if [ ! -f "$o" ] || [ "$here/$s.cc" -nt "$o" ] || [ "$here/sim.hh" -nt "$o" ] || [ "$here/term.hh" -nt "$o" ] || [ "$here/alloc.hh" -nt "$o" ]; then g++ $HAR -c "$here/$s.cc" -o "$o" & pids+=($!); fi
done
for p in "${pids[@]}"; do wait "$p"; done
g++ $SAN -rdynamic "${objs[@]}" -o "$out/jsim" -lncurses -ltinfo -ldl
