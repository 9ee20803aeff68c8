#!/bin/bash
# Builds the two fact extractors (offline, from the committed sources) into /verif/.build.
set -e
cd "$(dirname "$0")"
mkdir -p .build
LLVM=/usr/lib/llvm-18
CF="$($LLVM/bin/llvm-config --cxxflags | sed 's/-DNDEBUG//;s/-std=c++17//') -std=c++17 -fno-rtti -fexceptions -O1 -w"
build() { # name libs
	if [ ! -x ".build/$1" ] || [ "tools/$1.cpp" -nt ".build/$1" ]; then
		g++ $CF "tools/$1.cpp" -o ".build/$1.tmp.$$" -L$LLVM/lib $2 -lLLVM-18 -Wl,-rpath,$LLVM/lib
		mv ".build/$1.tmp.$$" ".build/$1"
	fi
}
build irdump "" &
p1=$!
build astdump "-l:libclang-cpp.so.18.1" &
p2=$!
wait $p1; wait $p2
echo "extractors ready"
