#!/bin/bash
# extra/C23.sh TIER SEED: the memory part of C23. AddressSanitizer build in every tier, Miri in the thorough one.
ROOT="$(dirname "$(dirname "$(readlink -f "$0")")")"
TIER="$1"; SEED="$2"
OUT="$ROOT/evidence"
R="$OUT/replays"; mkdir -p "$R"
SCALE=0.08; [ "$TIER" = thorough ] && SCALE=2
"$ROOT/build.sh" asan || exit 3
A="$ROOT/target/asan/x86_64-unknown-linux-gnu/release/cvmon"
T0=$SECONDS
ASAN_OPTIONS=detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=77 "$A" C23 --tier quick --seed "$SEED" --scale $SCALE --wall-cap 120 --out "$OUT" --known "$ROOT/known_findings.txt" --tag .asan > "$OUT/asan.log" 2>&1
rc=$?
T1=$SECONDS
case $rc in
  0) ;;
  1) grep -v '^OK' "$OUT/asan.log"; exit 1 ;;
  77|134|135|136|139) cp "$OUT/asan.log" "$R/C23_asan.txt"; grep -m3 -E 'ERROR|SUMMARY' "$OUT/asan.log"
     echo "VIOLATION property=C23 replay=$R/C23_asan.txt"; exit 1 ;;
  *) tail -20 "$OUT/asan.log" >&2; exit 3 ;;
esac
ASAN="$(grep '^OK' "$OUT/asan.log") (run $((T1-T0)) s)"
MIRI="thorough tier only"
if [ "$TIER" = thorough ]; then
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows" CARGO_NET_OFFLINE=true
  M="$ROOT/target/miri"
  cd "$ROOT/harness" || exit 3
  # compiles; runs next to nothing
  cargo +nightly miri run --offline --target-dir "$M" -- C23 --plain 0 > "$OUT/miri.log" 2>&1 || { tail -20 "$OUT/miri.log" >&2; exit 3; }
  P=()
  for k in 0 1 2 3 4 5 6; do
    ( timeout 240 cargo +nightly miri run --offline --target-dir "$M" -- C23 --seed "$SEED" --plain 4 --only hostile --from $((1000 + 10 * k)) > "$OUT/miri.$k.log" 2>&1; echo $? > "$OUT/miri.$k.rc" ) &
  done
  ( CVMON_SLOW=1 timeout 240 cargo +nightly miri run --offline --target-dir "$M" -- C23 --seed "$SEED" --plain 1 --only hostile --from 2000 > "$OUT/miri.7.log" 2>&1; echo $? > "$OUT/miri.7.rc" ) &
  wait
  n=0; part=0
  for k in 0 1 2 3 4 5 6 7; do
    r=$(cat "$OUT/miri.$k.rc")
    if grep -q 'Undefined Behavior' "$OUT/miri.$k.log" || [ "$r" = 1 ]; then
      cp "$OUT/miri.$k.log" "$R/C23_miri.txt"; grep -m3 -E '^error|^detail' "$OUT/miri.$k.log"
      echo "VIOLATION property=C23 replay=$R/C23_miri.txt"; exit 1
    fi
    # 124: the time was up with nothing found
    case $r in 0) n=$((n+1)) ;; 124) part=$((part+1)) ;; *) tail -20 "$OUT/miri.$k.log" >&2; exit 3 ;; esac
  done
  MIRI="$n processes complete, $part cut off by time; $(cat "$OUT"/miri.?.log | grep '^plain' | tr '\n' ';')"
fi
python3 - "$OUT/C23.json" "$ASAN" "$MIRI" <<'P'
import json, sys
p, asan, miri = sys.argv[1:]
d = json.load(open(p))
d["coverage"]["address_sanitizer"] = asan
d["coverage"]["miri"] = miri
json.dump(d, open(p, "w"))
P
rm -f "$OUT"/C23.asan.json "$OUT"/miri.*
echo "OK property=C23 address sanitizer: $ASAN; miri: $MIRI"
