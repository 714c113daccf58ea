#!/bin/bash
# mkbc.sh OUTDIR: bitcode of the code under test (from /repo's working tree) and of the model
set -euo pipefail
here=$(cd "$(dirname "$0")/.." && pwd); out=$1; repo=${REPO:-/repo}; mkdir -p "$out/r"
F="-std=c++11 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -include $here/model/noextern.h -DNDEBUG -w -I$repo/include -I$repo/src"
srcs="$(ls $repo/src/efsw/*.cpp $repo/src/efsw/platform/posix/*.cpp | grep -v -E '(FileWatcher|Watcher)(Kqueue|FSEvents|Win32)\.cpp') $here/harness/utf_inst.cpp"
i=0; for s in $srcs; do i=$((i+1)); echo "$s $out/r/$i.bc"; done | xargs -P 8 -L 1 bash -c 'clang++ '"$F"' -emit-llvm -c "$0" -o "$1"'
llvm-link-18 "$out"/r/*.bc -o "$out/repo.bc" 2>/dev/null || llvm-link "$out"/r/*.bc -o "$out/repo.bc"
rm -r "$out/r"
