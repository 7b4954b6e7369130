#!/bin/bash
# build.sh [REPO] [OUTDIR]: builds the simulator with the library sources of REPO
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-/repo}
out=${2:-$(dirname "$here")/build}
CXX=${CXX:-clang++}
CC=${CC:-clang}
mkdir -p "$out"
key=$( { find "$repo/code" "$repo/v1compat" "$here" "$here/../shim" -type f | LC_ALL=C sort | xargs sha256sum | sed "s# .*/# #"; echo "$repo" "$DSIM_COVERAGE" "$($CXX --version | head -1)"; } | sha256sum | cut -c1-24)
if [ -x "$out/$key/dsim" ]; then echo "$out/$key/dsim"; exit 0; fi
tmp="$out/.tmp.$key.$$"
mkdir -p "$tmp"
trap 'rm -rf "$tmp"' EXIT
python3 "$here/v1gen.py" "$repo" "$tmp" 5
INC="-I$repo/code -I$here/../shim -I$here"
COV=""
if [ -n "$DSIM_COVERAGE" ]; then COV="-DDSIM_COVERAGE -fprofile-instr-generate -fcoverage-mapping"; fi
TS="$COV -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"
OPT="-O1 -g -fno-omit-frame-pointer -Wall -Wextra"
cmds="$tmp/cmds"
: > "$cmds"
objs=""
add() { # object, command
    echo "$2 -c $3 -o $tmp/$1.o" >> "$cmds"
    objs="$objs $tmp/$1.o"
}
plain() { add "s_$1" "$CXX -std=c++17 -O2 -g ${COV:+-DDSIM_COVERAGE} -Wall -Wextra $INC" "$here/$1.cpp"; }
plain tls0 # first and, after the code under test, last: the order of linking matters
# longest first
V1INC="$INC -I$repo/v1compat/code -I$tmp"
add s_v1plug "$CXX -std=c++17 $OPT $TS $V1INC" "$here/v1plug.cpp"
objs="${objs% *}"
for f in v1 v1world v1msgs; do add "s_$f" "$CXX -std=c++17 $OPT $TS $V1INC" "$here/$f.cpp"; done
for f in ops objs mixins kids crowd dom; do add "s_$f" "$CXX -std=c++17 $OPT $TS $INC" "$here/$f.cpp"; done
i=0
for f in $(find "$repo/code" -name '*.cpp' | LC_ALL=C sort); do i=$((i+1)); add "l$i" "$CXX -std=c++17 $OPT $TS $INC" "$f"; done
for f in $(find "$repo/code" -name '*.c' | LC_ALL=C sort); do i=$((i+1)); add "l$i" "$CC -std=c11 $OPT $TS $INC" "$f"; done
v1lib=""
for f in $(find "$repo/v1compat/code" -name '*.cpp' | LC_ALL=C sort); do i=$((i+1)); add "l$i" "$CXX -std=c++17 $OPT $TS $V1INC" "$f"; v1lib="$v1lib $tmp/l$i.o"; done
objs="$objs $tmp/s_v1plug.o" # after what it may share globals with
for f in tls1 rt rbtree gen main; do plain $f; done
if ! xargs -P "${JOBS:-8}" -I{} sh -c '{} 2>>'"$tmp/log"' || { echo "failed: {}" >> '"$tmp/failed"'; }' < "$cmds"; then touch "$tmp/failed"; fi
if [ -e "$tmp/failed" ]; then cat "$tmp/failed" "$tmp/log" >&2; exit 2; fi
# the static world: its modules are initialized by the simulator
for f in $v1lib; do sh "$here/sections.sh" lib "$f"; done
for f in msgs world plug; do sh "$here/sections.sh" $f "$tmp/s_v1$f.o"; done
wrap="-Wl,--wrap=__cxa_atexit"
for s in memcmp pthread_once __cxa_thread_atexit pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_timedlock pthread_mutex_clocklock pthread_rwlock_timedrdlock pthread_rwlock_clockrdlock pthread_rwlock_timedwrlock pthread_rwlock_clockwrlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast sched_yield nanosleep clock_gettime time; do wrap="$wrap -Wl,--wrap=$s"; done
$CXX -static -g ${COV:+-fprofile-instr-generate} $wrap $objs -o "$tmp/dsim" -lpthread >&2
mkdir -p "$out/$key"
mv "$tmp/dsim" "$out/$key/dsim"
echo "$out/$key/dsim"
