#!/bin/bash
# build.sh REPO OUTDIR : compiles the library sources of REPO's working tree with the explorer
set -e
REPO=$1; OUT=$2; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
DEFS='-DVERSION="verif" -DHAVE_CLOCK_GETTIME=1 -DHAVE_FCNTL_H=1 -DHAVE_GETTID=1'
INC="-I$REPO/lib"
pids=()
objs=()
for f in "$REPO"/lib/*.cc; do
	b=$(basename "$f" .cc)
	[ "$b" = fullockversion ] && continue
	clang++ -std=gnu++17 -O1 -g1 -w $DEFS $INC -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -c "$f" -o "$OUT/$b.o" &
	pids+=($!)
	objs+=("$OUT/$b.o")
done
clang++ -std=gnu++17 -O1 -g1 -w $DEFS $INC -I"$H" -c "$H/explore.cc" -o "$OUT/explore.obj" &
pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
W=
for s in clock_gettime sched_yield nanosleep usleep open close fcntl ftruncate pwrite mmap munmap dup3 pthread_mutex_lock pthread_create epoll_create1 epoll_ctl inotify_init1 inotify_add_watch; do W="$W -Wl,--wrap=$s"; done
clang++ -g1 "$OUT/explore.obj" "${objs[@]}" $W -lpthread -o "$OUT/explore.tmp"
mv "$OUT/explore.tmp" "$OUT/explore"
