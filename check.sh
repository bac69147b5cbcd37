#!/bin/bash
# check.sh <property> [quick|thorough] [extra driver options]: builds the property's simulation from /repo's
# working tree and runs the seeded search.
cd "$(dirname "$0")" || exit 3
export LC_ALL=C.UTF-8
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
repo=${VERIF_REPO:-/repo}
b=${VERIF_BUILD:-$PWD/build}/$id
mkdir -p "$b" evidence replays || exit 3
CXX=${CXX:-/usr/bin/g++}
flags="-std=c++17 -O1 -DNDEBUG -w -pipe"
san=""
case $id in C01|C17|C18) san="-fsanitize=address,undefined -fno-sanitize-recover=all -g1";; esac
opt=$(sed -n 's,^// build: ,,p' "harness/$id.cc")
pids=()
for u in sim driver linalg; do
  $CXX $flags $san -Isim/include -Isim/core -c sim/core/$u.cc -o "$b/$u.o" & pids+=($!)
done
$CXX $flags $san $opt -Isim/include -Isim/core -Iharness -I"$repo/include" -c harness/$id.cc -o "$b/h.o" 2> "$b/compile.log" & pids+=($!)
ok=1
for p in "${pids[@]}"; do wait $p || ok=0; done
if [ $ok = 0 ]; then head -40 "$b/compile.log" >&2; echo "ERROR: $id does not build" >&2; exit 2; fi
$CXX $san "$b/h.o" "$b/sim.o" "$b/driver.o" "$b/linalg.o" -rdynamic -ldl -o "$b/sim" || exit 2
export SIM_KNOWN=$PWD/known_findings.txt
exec "$b/sim" --tier "$tier" --evidence "$PWD/evidence/$id.json" --replay-dir "$PWD/replays" "$@"
