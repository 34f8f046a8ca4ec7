#!/bin/bash
# Compiles the sources of the current directory, including both tools, with the demonstration and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
pids=()
F="-O1 -std=c++17 -DNDEBUG -Ddyscostman=dysco_ut -I$PWD -I/usr/include/casacore"
for f in aftimeblockencoder dyscostman dyscodatacolumn dyscoweightcolumn stochasticencoder threadeddyscocolumn rftimeblockencoder rowtimeblockencoder stopwatch dscompress decompress; do
  g++ $F -c "$f.cc" -o "$out/$f.o" & pids+=($!)
done
g++ $F -c "$here/demo.cc" -o "$out/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || exit 2; done
for f in dscompress decompress; do objcopy --redefine-sym main=${f}_main "$out/$f.o" || exit 2; done
g++ "$out"/*.o -o "$out/demo" -lcasa_ms -lcasa_tables -lcasa_casa -lgsl -lgslcblas -ldl -pthread || exit 2
timeout 200 "$out/demo"
