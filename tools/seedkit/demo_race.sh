#!/bin/bash
# Compiles /repo's library sources and demo.cpp with the thread sanitizer and runs the result.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f "$repo/src/transaction.cpp" ] || repo=/repo
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
t=$repo/test
F="-std=c++14 -g -O1 -fsanitize=thread -DBOOST_TEST_DYN_LINK -w -I$repo/include -I$repo/src -I$repo/test -I$repo/wsrep-API/v26 -I$here"
n=0
for f in "$here/demo.cpp" $t/mock_client_state.cpp $t/mock_high_priority_service.cpp $t/mock_storage_service.cpp $t/test_utils.cpp \
    $(ls $repo/src/*.cpp | grep -v -e wsrep_provider_v26 -e _service_v1); do
    n=$((n+1)); g++ $F -c "$f" -o "$d/$n.o" || touch "$d/fail" &
done
wait
[ -e "$d/fail" ] && { echo "demo: build failed"; exit 3; }
g++ -fsanitize=thread "$d"/*.o -o "$d/demo" -lboost_unit_test_framework -pthread -ldl || { echo "demo: build failed"; exit 3; }
cd "$d" && TSAN_OPTIONS="exitcode=66 halt_on_error=0 history_size=4" timeout -k 5 120 ./demo --catch_system_errors=no > out 2>&1
rc=$?; head -60 out
[ $rc = 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
