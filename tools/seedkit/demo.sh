#!/bin/bash
# Builds demo.cpp with the needed sources of the repository in the current directory and runs it.
# exit 0: the property held; anything else: it did not.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'find "$T" -delete' EXIT
export TMPDIR=$T
FLAGS="-std=c++17 -O1 -g0 -w -march=haswell -mno-avx512f -maes -mrdseed -DXLOG_STUB -include cstdint -include functional -include stdexcept -include vector -I$PWD -I$D -I$D/stubs"
{ for p in $(cat "$D/sources"); do
    case $p in *.cpp) echo "$PWD/$p" ;; *) find "$PWD/$p" -name '*.cpp' -not -path '*/test/*' -not -path '*/tests/*' -not -name main.cpp -not -name 'Emp*' ;; esac
  done; find "$D/stubs" -name '*.cpp'; echo "$D/demo.cpp"; } | sort -u >"$T/list"
i=0
while read -r f; do i=$((i+1)); echo "g++ $FLAGS -c $f -o $T/$i.o"; done <"$T/list" | xargs -P 8 -I{} sh -c '{}' || { echo "demo does not build"; exit 98; }
g++ -rdynamic -o "$T/demo" "$T"/*.o -lssl -lcrypto -lre2 -lfmt -lboost_serialization -lgflags -ldl -lpthread || { echo "demo does not link"; exit 98; }
cd "$T" && timeout -k 5 200 ./demo "$D"
rc=$?
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: property broken (exit $rc)"
exit $rc
