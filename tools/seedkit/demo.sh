#!/bin/bash
# Compiles demo.cpp against /repo (library as built by build.sh) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f "$repo/src/transaction.cpp" ] || repo=/repo
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
t=$repo/test
g++ -std=c++14 -g -O0 -DBOOST_TEST_DYN_LINK -w -I"$repo/include" -I"$repo/src" -I"$repo/test" -I"$repo/wsrep-API/v26" -I"$here" \
    "$here/demo.cpp" $t/mock_client_state.cpp $t/mock_high_priority_service.cpp $t/mock_storage_service.cpp $t/test_utils.cpp \
    "$repo/_build/src/libwsrep-lib.a" -o "$d/demo" -lboost_unit_test_framework -pthread -ldl || { echo "demo: build failed"; exit 3; }
cd "$d" && timeout -k 5 60 ./demo
rc=$?
[ $rc = 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
