#!/bin/bash
# usage: run.sh <repo-tree>; runs the demonstrations of the fixed defects
R=${1:-/repo}; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-O0 -g -w -std=gnu11 -DJENT_CONF_ENABLE_INTERNAL_TIMER -I$R -I$R/arch -I$R/src"
src() { for f in $R/src/*.c $R/arch/*.c; do case " $1 " in *" $(basename $f) "*) ;; *) echo $f;; esac; done; }
gcc $F $D/demo2_realloc_revives.c $(src "jitterentropy-base.c jitterentropy-sha3.c") -o $T/d2 -lpthread && { timeout 60 $T/d2; echo "demo2 rc=$?"; }
gcc $F $D/demo3_gcd_selftest_fail.c $(src "jitterentropy-base.c jitterentropy-gcd.c") -o $T/d3 -lpthread && { timeout 60 $T/d3; echo "demo3 rc=$?"; }
gcc $F $D/demo4_alloc_during_failing_init.c $(src "jitterentropy-base.c jitterentropy-arch-timer.c") -o $T/d4 -lpthread && { timeout 60 $T/d4; echo "demo4 rc=$?"; }
gcc $F $D/demo5_uncollected.c $(src "jitterentropy-base.c jitterentropy-noise.c") -o $T/d5 -lpthread -Wl,--allow-multiple-definition && { timeout 60 $T/d5; echo "demo5 rc=$?"; }
