#!/bin/bash
# Compiles the sources of the current directory with the demonstration and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
pids=()
for f in aftimeblockencoder dyscostman dyscodatacolumn dyscoweightcolumn stochasticencoder threadeddyscocolumn rftimeblockencoder rowtimeblockencoder; do
  g++ -O1 -std=c++17 -DNDEBUG -Ddyscostman=dysco_ut -I"$PWD" -I/usr/include/casacore -c "$f.cc" -o "$out/$f.o" & pids+=($!)
done
g++ -O1 -std=c++17 -DNDEBUG -Ddyscostman=dysco_ut -I"$PWD" -I/usr/include/casacore -c "$here/demo.cc" -o "$out/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || exit 2; done
g++ "$out"/*.o -o "$out/demo" -lcasa_ms -lcasa_tables -lcasa_casa -lgsl -lgslcblas -ldl -pthread || exit 2
timeout 200 "$out/demo"
