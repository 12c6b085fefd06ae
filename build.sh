#!/bin/bash
# build.sh [plain|asan|tsan|akaze|sfm]: monitor binary from /repo's current tree into target/ (locked, offline).
# Decides staleness by content, not by file times: a changed tree always gets its crates rebuilt.
ROOT="$(dirname "$(readlink -f "$0")")"
KIND="${1:-plain}"
T="$ROOT/target"
CARGO=(cargo)
ARGS=(--release --offline)
case "$KIND" in
  plain) ;;
  asan) T="$ROOT/target/asan"; CARGO=(cargo +nightly); ARGS+=(--target x86_64-unknown-linux-gnu); export RUSTFLAGS="-Zsanitizer=address" ;;
  # the standard library must be instrumented too, or its locks look like races
  tsan) T="$ROOT/target/tsan"; CARGO=(cargo +nightly); ARGS+=(-Zbuild-std --target x86_64-unknown-linux-gnu); export RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" ;;
  # the akaze crate, compiled from /repo's sources against the stand-ins of akz/
  akaze) T="$ROOT/target/akaze" ;;
  # the cv-sfm crate, likewise
  sfm) T="$ROOT/target/sfm" ;;
  *) echo "build.sh: $KIND?" >&2; exit 3 ;;
esac
mkdir -p "$T" "$ROOT/evidence"
# cargo only cleans directories which carry its tag
[ -f "$T/CACHEDIR.TAG" ] || echo "Signature: 8a477f597d28d172789f06886806bc55" > "$T/CACHEDIR.TAG"
exec 9>"$T/.build.lock"
flock 9
export CARGO_NET_OFFLINE=true
DIR=harness
CRATES="cv-core cv-geom cv-pinhole cv-optimize eight-point lambda-twist nister-stewenius"
PKGS="$CRATES cvmon"
if [ "$KIND" = akaze ]; then
  DIR=akz/mon
  CRATES="cv-core akaze/src"
  PKGS="cv-core akaze_seq akaze_par akmon"
elif [ "$KIND" = sfm ]; then
  DIR=akz/smon
  CRATES="cv-core cv-pinhole cv-geom cv-optimize eight-point lambda-twist akaze/src cv-sfm/src"
  PKGS="cv-core cv-pinhole cv-geom cv-optimize eight-point lambda-twist akaze_seq cv_sfm smon"
fi
H=$(cd /repo && find $CRATES \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
cd "$ROOT/$DIR" || exit 3
if [ -f "$T/.built" ] && [ "$(cat "$T/.repo.hash" 2>/dev/null)" != "$H" ]; then
  C=()
  for c in $PKGS; do C+=(-p "$c"); done
  "${CARGO[@]}" clean "${ARGS[@]/-Zbuild-std/--quiet}" --target-dir "$T" "${C[@]}" >/dev/null 2>&1
fi
rm -f "$T/.repo.hash"
touch "$T/.built"
if "${CARGO[@]}" build "${ARGS[@]}" --target-dir "$T" 2>"$T/build.log"; then
  echo "$H" > "$T/.repo.hash"
  exit 0
fi
echo "build failed ($KIND):" >&2
tail -40 "$T/build.log" >&2
exit 3
