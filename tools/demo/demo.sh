#!/bin/bash
# Builds demo.cpp (beside this file) against the built libraries of /repo (cwd) and runs it in a scratch folder.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
L=$REPO/_build/src
g++ -std=gnu++17 -O1 -w -maes -march=x86-64 -pthread -DHAVE_ROTR -D_GNU_SOURCE -I"$REPO/include" -I"$REPO/src" -I"$REPO/external" -I"$REPO/_build/version" -I"$REPO/src/Platform/Linux" -I"$REPO/external/parallel_hashmap" \
  -o "$W/demo" "$HERE"/*.cpp -Wl,--start-group $(ls "$L"/*.a) -Wl,--end-group $(ls "$REPO"/_build/external/miniupnpc/*.a) \
  -lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lrt -lresolv -ldl
cd "$W"
timeout 200 ./demo "$W"
