#!/bin/bash
# usage: build.sh [f32]   builds the native runner and the symbolic executor from /repo's tree
#        build.sh load    builds the loader and its IR
set -e
cd "$(dirname "$0")"
B=${VERIF_BUILD:-$(cd .. && pwd)/build}
mkdir -p "$B"; F=""; S=""
if [ "$1" = f32 ]; then F="--features f32"; S="-f32"; fi
export RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
if [ "$1" = load ]; then
cd loadsym; unset RUSTFLAGS RUSTC_WRAPPER
CARGO_TARGET_DIR=$B/loadsym cargo rustc -q --offline --release -- --emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp 2>$B/loadsym.log || { cat $B/loadsym.log >&2; exit 1; }
exit 0
fi
H=$(cat tools/*.py | sha256sum | cut -c1-16)
# $1: further flags
all() {
( cd native && CARGO_TARGET_DIR=$B/native$S RUSTFLAGS="-Zub-checks=yes $1" cargo build -q --offline --release $F 2>$B/native$S.log || { cat $B/native$S.log >&2; exit 1; } ) &
P=$!
if [ -n "$VERIF_DEBUG_NATIVE" ]; then
( cd native && CARGO_TARGET_DIR=$B/native-debug RUSTFLAGS="$1" cargo build -q --offline $F 2>$B/native-debug.log || { cat $B/native-debug.log >&2; exit 1; } ) &
P="$P $!"
fi
if [ -n "$VERIF_ASAN_NATIVE" ]; then
( cd native && CARGO_TARGET_DIR=$B/native-asan CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes --cfg asan $1" cargo build -q --offline --release --target x86_64-unknown-linux-gnu $F 2>$B/native-asan.log || { cat $B/native-asan.log >&2; exit 1; } ) &
P="$P $!"
fi
R=0
( cd symex && RUSTFLAGS="--cfg tools_$H $1" CARGO_TARGET_DIR=$B/symex$S RUSTC_WRAPPER=$PWD/../tools/rustc_wrap.py cargo build -q --offline --release $F 2>$B/symex$S.log || { cat $B/symex$S.log >&2; exit 1; } ) || R=1
for p in $P; do wait $p || R=1; done
return $R
}
rm -f $B/no_access$S
if ! all ""; then
# an accessor of triangles that is gone costs the check of the accessors (C21), not all of them
grep -q 'could not compile `drv`' $B/symex$S.log $B/native$S.log || exit 1
all "--cfg no_access" || exit 1
touch $B/no_access$S
fi
