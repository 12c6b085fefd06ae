#!/bin/bash
# extra/C24.sh TIER SEED: the concurrent workload of C24 under ThreadSanitizer.
ROOT="$(dirname "$(dirname "$(readlink -f "$0")")")"
TIER="$1"; SEED="$2"
OUT="$ROOT/evidence"
R="$OUT/replays"; mkdir -p "$R"
SCALE=1; [ "$TIER" = thorough ] && SCALE=10
"$ROOT/build.sh" tsan || exit 3
A="$ROOT/target/tsan/x86_64-unknown-linux-gnu/release/cvmon"
TSAN_OPTIONS=halt_on_error=1:exitcode=66 "$A" C24 --tier quick --seed "$SEED" --scale $SCALE --only threads --wall-cap 250 --out "$OUT" --known "$ROOT/known_findings.txt" --tag .tsan > "$OUT/tsan.log" 2>&1
rc=$?
case $rc in
  0) ;;
  1) grep -v '^OK' "$OUT/tsan.log"; exit 1 ;;
  66) cp "$OUT/tsan.log" "$R/C24_tsan.txt"; grep -m3 -E 'WARNING: ThreadSanitizer|SUMMARY' "$OUT/tsan.log"
      echo "VIOLATION property=C24 replay=$R/C24_tsan.txt"; exit 1 ;;
  *) tail -20 "$OUT/tsan.log" >&2; exit 3 ;;
esac
python3 - "$OUT/C24.json" "$(grep '^OK' "$OUT/tsan.log")" <<'P'
import json, sys
d = json.load(open(sys.argv[1]))
d["coverage"]["thread_sanitizer"] = sys.argv[2]
json.dump(d, open(sys.argv[1], "w"))
P
rm -f "$OUT/C24.tsan.json"
echo "OK property=C24 thread sanitizer: $(grep '^OK' "$OUT/tsan.log")"
