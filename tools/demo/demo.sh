#!/bin/bash
# Builds the library from the current directory's sources with demo.cc and runs it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/shim"; cp "$D/cxxpool.h.txt" "$T/shim/cxxpool.h"
F="-std=c++17 -O0 -w -include cstdint -DINCLUDE_FILESYSTEM -I$T/shim -Isrc -Iextern/hgdb/include -pthread"
( ls src/*.cc; echo "$D/demo.cc" ) | xargs -P8 -I{} sh -c "g++ $F -c {} -o $T/\$(basename {} .cc).o" || exit 99
g++ "$T"/*.o -lfmt -lstdc++fs -pthread -o "$T/demo" || exit 99
cd "$T" && timeout 60 ./demo
