#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator from /repo's working
# tree, explore, write evidence/PROPERTY.json. Exit 0 held, 1 violation, 3 no answer.
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
mode=plain race=
meta='real: the library packages of /repo, tomb.v2, context, time, Go channels, mutexes and condition variables. simulated: goroutine scheduler, select order, clock and timers, map iteration and math/rand. stub: the workers, start functions, clients and error classifiers of the workload'
case $prop in
R*) fam=runner,stack/12 runs=1000000 ;;
C*) fam=catacomb,stack/12 runs=1000000 ;;
E*) fam=engine,stack/8 runs=500000 ;;
W01) fam=util,stack/20 runs=1000000 ;;
T01) fam=workertest runs=250000 mode=wt ;;
G01) fam=runner,catacomb,engine,util,stack runs=100000 mode=race race=-race ;;
*) echo "unknown property $prop" >&2; exit 3 ;;
esac
cap=60s min=25s
if [ "$tier" = thorough ]; then
  runs=$((runs * 200)); cap=10m min=90s
fi
bin=$(bash "$here/build.sh" $mode 2>"$here/.build.log") || { cat "$here/.build.log" >&2; exit 3; }
exec "$bin" check -prop "$prop" -families $fam -tier "$tier" -seed "${VERIF_SEED:-1}" -runs $runs -cap $cap -min $min $race \
  -evidence "$here/evidence/$prop.json" -replays "$here/.replays" -known "$here/known_findings.json" -meta "$meta"
