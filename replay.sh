#!/bin/bash
# replay.sh <property> <workload> <case> <seed> <tier>: re-run one recorded case, printing its inputs and verdict
ROOT="$(dirname "$(readlink -f "$0")")"
KIND=plain; BIN="$ROOT/target/release/cvmon"
case $1 in
  C2[7-9]|C3[01]) KIND=akaze; BIN="$ROOT/target/akaze/release/akmon" ;;
  C3[2-6]) KIND=sfm; BIN="$ROOT/target/sfm/release/smon" ;;
esac
"$ROOT/build.sh" $KIND || exit 3
exec "$BIN" "$1" --replay-workload "$2" --replay-case "$3" --seed "$4" --tier "${5:-quick}" --known "$ROOT/known_findings.txt"
