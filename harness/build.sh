#!/bin/bash
# build.sh OUTDIR "TARGETS" : compiles the sources in /repo and the drivers into OUTDIR.
# The sources are compiled in their own namespace (see common.h) and linked
# statically into each driver. TARGETS: dscompress, decompress or a driver of this directory.
set -e
OUT=$1; REPO=${VF_REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
targets=${2:-store}
mkdir -p "$OUT"
CXX=g++
FLAGS="-O1 -g0 -std=c++17 -pthread -DNDEBUG -Ddyscostman=dysco_ut $VF_EXTRA -I$REPO -I/usr/include/casacore"
LIBS="-lcasa_ms -lcasa_tables -lcasa_casa -lgsl -lgslcblas -ldl -pthread"
# the sources of the storage manager and of the tools are those that the build of the project uses
srcs_of() { tr '\n' ' ' < "$REPO/CMakeLists.txt" | grep -o "$1( *$2 [^)]*)" | head -1 | grep -oE '[A-Za-z0-9_/]+\.cc' | grep -v '^tests/' || true; }
lib=$(srcs_of add_library dyscostman-object)
[ -n "$lib" ] || lib="aftimeblockencoder.cc dyscostman.cc dyscodatacolumn.cc dyscoweightcolumn.cc stochasticencoder.cc threadeddyscocolumn.cc rftimeblockencoder.cc rowtimeblockencoder.cc"
obj() { echo "$OUT/$(basename "$1" .cc).o"; }
pids=(); declare -A done_; libobjs=""
comp() { [ -n "${done_[$1]}" ] && return; done_[$1]=1; $CXX $FLAGS -c "$1" -o "$(obj "$1")" & pids+=($!); }
for f in $lib; do comp "$REPO/$f"; libobjs="$libobjs $(obj "$f")"; done
declare -A objs
for t in $targets; do
  case $t in
    dscompress|decompress)
      s=$(srcs_of add_executable $t); [ -n "$s" ] || s="$t.cc"
      for f in $s; do comp "$REPO/$f"; objs[$t]="${objs[$t]} $(obj "$f")"; done
      comp "$HERE/register.cc"; objs[$t]="${objs[$t]} $OUT/register.o";;
    store) comp "$HERE/store.cc"; comp "$HERE/sched.cc"; objs[$t]="$OUT/store.o $OUT/sched.o";;
    *) comp "$HERE/$t.cc"; objs[$t]="$OUT/$t.o";;
  esac
done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || exit 3
pids=()
for t in $targets; do $CXX -rdynamic -o "$OUT/$t" ${objs[$t]} $libobjs $LIBS & pids+=($!); done
for p in "${pids[@]}"; do wait $p || rc=1; done
exit $rc
