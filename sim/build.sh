#!/bin/bash
# build.sh OUTDIR: builds the simulator around the sources in /repo's working tree.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=$1
mkdir -p "$OUT"
INC="-I$REPO -I/usr/include/eigen3 -I$HERE"
W="-Wl"
for f in malloc calloc realloc free posix_memalign aligned_alloc clock_gettime gettimeofday time clock \
  pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock __cxa_guard_acquire __cxa_guard_release \
  __cxa_guard_abort _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv __assert_fail; do
  W="$W,--wrap=$f"
done
SRC=$(cd "$REPO" && ls fbstab/*.cc fbstab/components/*.cc tools/*.cc 2>/dev/null || true)
JOBS=()
one() { # flags src obj
  g++ $1 -c "$2" -o "$3"
}
pids=()
start() {
  while [ "$(jobs -rp | wc -l)" -ge 8 ]; do wait -n || exit 1; done
  one "$@" &
  pids+=($!)
}
# Code under test: as shipped (-O3, asserts on) plus a call per basic block.
# ... and one at the end of every function that is not a header of the system's.
SUT="-O3 -std=c++11 -fsanitize-coverage=trace-pc -finstrument-functions -finstrument-functions-exclude-file-list=/usr/include,/usr/lib,$HERE -fno-pie $INC"
SIM="-O2 -std=c++14 -fno-pie $INC"
MORE=
if [ -n "$MEM" ]; then  # every memory access of the code under test is reported, too
  SUT="-O1 ${SUT#-O3} -fsanitize=thread"
  MORE=mem
fi
start "$SUT" "$HERE/sut.cc" "$OUT/sut.o"
start "$SUT" "$HERE/seam.cc" "$OUT/seam.o"
start "$SUT" "$HERE/sutcomp.cc" "$OUT/sutcomp.o"
for s in $SRC; do
  o=$OUT/repo_$(echo "$s" | tr '/.' '__').o
  start "$SUT" "$REPO/$s" "$o"
done
for s in rt prob oracles ref plan actor threads control container comp gen main $MORE; do
  start "$SIM" "$HERE/$s.cc" "$OUT/$s.o"
done
for p in "${pids[@]}"; do wait "$p"; done
g++ -no-pie -pthread "$OUT"/*.o -o "$OUT/sim" "$W"
