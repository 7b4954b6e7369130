#!/bin/bash
# Runs the repository's own unit tests (all of them, not only the subset that /opt/vp builds),
# against the stand-in headers.  Usage: run_repo_tests.sh REPO OUTDIR
R=${1:-/repo}; O=${2:-/tmp/repotests}; S=$(cd "$(dirname "$0")" && pwd)
mkdir -p $O; cd $O
I="-I$R/code -I$S -I$S/unity"
F="-g -O1 ${XF}"
for f in $R/code/dynamix/*.cpp $R/code/dynamix/compat/pmr/*.cpp $R/code/dnmx/*.c; do
  o=$(basename $f).o
  case $f in *.c) echo "gcc $F $I -c $f -o $o";; *) echo "g++ -std=c++17 $F $I -c $f -o $o";; esac
done > cmds
printf '#define DOCTEST_CONFIG_IMPLEMENT_WITH_MAIN\n#include <doctest/doctest.h>\n' > main.cpp
echo "g++ -std=c++17 -O0 -c main.cpp -o dtmain.obj" >> cmds
xargs -P8 -d'\n' -n1 sh -c < cmds || exit 1
rm -f lib.a; ar rcs lib.a $(ls *.o | grep -v ^v1_)
ls $R/test/t-*.cpp $R/test/fuzz-*.cpp | grep -v unity | xargs -P8 -n1 sh -c 'b=$(basename $0 .cpp); g++ -std=c++17 '"$F $I"' -I'$R'/test $0 dtmain.obj lib.a -lpthread -o $b.exe > $b.log 2>&1 || { echo "$b: BUILD FAILED"; exit 0; }; timeout 100 ./$b.exe > $b.out 2>&1 && echo "$b ok" || { echo "$b FAILED"; grep -A6 ERROR $b.out | head -20; }'
for c in $R/test/t-*.c; do b=c-$(basename $c .c); gcc $F $I -c $c -o $b.obj && g++ $b.obj lib.a -lpthread -o $b.exe && ./$b.exe > $b.out 2>&1 && echo "$b ok" || { echo "$b FAILED"; head -3 $b.out; }; done
# the compatibility library and its tests
python3 "$S/../sim/v1gen.py" "$R" "$O/v1gen" || exit 1
for f in $R/v1compat/code/dynamix/v1compat/*.cpp; do echo "g++ -std=c++17 $F $I -I$R/v1compat/code -I$O/v1gen -c $f -o v1_$(basename $f).o"; done > cmds
xargs -P8 -d'\n' -n1 sh -c < cmds || exit 1
rm -f libv1.a; ar rcs libv1.a v1_*.o
ls $R/test/v1compat/tv1-*.cpp | xargs -P8 -n1 sh -c 'b=$(basename $0 .cpp); g++ -std=c++17 '"$F $I"' -I'$R'/v1compat/code -Iv1gen -I'$R'/test $0 dtmain.obj libv1.a lib.a -lpthread -o $b.exe > $b.log 2>&1 || { echo "$b: BUILD FAILED"; exit 0; }; timeout 100 ./$b.exe > $b.out 2>&1 && echo "$b ok" || { echo "$b FAILED"; grep -A6 ERROR $b.out | head -20; }'
