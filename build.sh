#!/bin/bash
# Builds the conformance harness and the command-line programs from /repo's working tree
# into /verif/build (or $1), and the further targets $2...  Nothing is written in /repo.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
B="${1:-$V/build}"
export VERIF_HARNESS_DIR="$V/harness"
mkdir -p "$B"
if [ ! -f "$B/build.ninja" ]; then
cmake -S /repo -B "$B" -G Ninja -DCMAKE_PROJECT_Bliss_INCLUDE="$V/harness/inject.cmake" -DCMAKE_BUILD_TYPE= \
  -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ \
  "-DCMAKE_CXX_FLAGS=-DFMT_DEPRECATED_OSTREAM -O0 -fsanitize=address -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern" \
  -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON \
  -Dexternal_capnproto_DIR=/opt/vp/deps/cmake -Dfmtlib_DIR=/opt/vp/deps/cmake \
  -Dnanobind_DIR=/opt/vp/deps/python/nanobind/cmake -DPython_EXECUTABLE=/usr/bin/python3 -DCCACHE_PROGRAM= -DWITH_CUDA=OFF
fi
ninja -C "$B" conform bliss_find_hits bliss_hits_to_dat bliss_generate_channelizer_response "${@:2}"
