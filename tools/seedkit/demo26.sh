#!/bin/bash
# Compiles demo.cpp and the provider adapter of /repo against a stand-in of the wsrep-API headers and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f "$repo/src/wsrep_provider_v26.cpp" ] || repo=/repo
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
t=$repo/test
for f in $repo/src/wsrep_provider_v26.cpp $repo/src/*_service_v1.cpp; do
    g++ -std=c++14 -g -O0 -w -I"$here" -I"$repo/include" -I"$repo/src" -c $f -o "$d/$(basename $f).o" || { echo "demo: build failed"; exit 3; }
done
g++ -std=c++14 -g -O0 -rdynamic -DBOOST_TEST_DYN_LINK -w -I"$here" -I"$repo/include" -I"$repo/src" -I"$repo/test" \
    "$here/demo.cpp" $t/mock_client_state.cpp $t/mock_high_priority_service.cpp $t/mock_storage_service.cpp $t/test_utils.cpp \
    "$d"/*.o "$repo/_build/src/libwsrep-lib.a" -o "$d/demo" -lboost_unit_test_framework -pthread -ldl || { echo "demo: build failed"; exit 3; }
cd "$d" && timeout -k 5 60 ./demo
rc=$?
[ $rc = 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
