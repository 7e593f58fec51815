#!/bin/bash
# run in /repo: builds demo.cpp with the sources it exercises (third-party stand-ins are in support.tgz), runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
tar xzf "$here/support.tgz" -C "$w"
R=$PWD
DIRS="@DIRS@"
CC="clang++ -std=c++20 -O1 -march=haswell -mno-avx512f -maes -mrdseed -w -DNDEBUG -I$R -I$w/stubs -I$w/harness"
$CC -x c++-header "$w/stubs/prelude.h" -o "$w/p.pch" || exit 3
export CC w
one() { o="$w/$(echo "$1" | tr / _).o"; $CC -include-pch "$w/p.pch" -c "$1" -o "$o" || exit 255; }
export -f one
{ echo "$here/demo.cpp"; echo "$w/stubs/engine_stub.cpp"
  for d in $DIRS; do find "$R/$d" -name '*.cpp' | grep -vE '/test/|/tests/|/benchmarks/|Benchmark|Test\.cpp|EmpTestUtil|/_build/|/docker/|_main' | while read f; do grep -q 'int main(' "$f" || echo "$f"; done; done
} | xargs -P 8 -I{} bash -c 'one {}' || exit 3
$CC -fuse-ld=lld -o "$w/demo" "$w"/*.o -lfmt -lre2 -lcrypto -lssl -lboost_serialization -lpthread || exit 3
mkdir "$w/scratch"
cd "$w/scratch" && SCRATCH="$w/scratch" timeout 100 "$w/demo"
