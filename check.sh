#!/bin/bash
# check.sh ID [quick|thorough] : decides one property on /repo's current working tree.
# exit 0 held / 1 violated (VIOLATION line) / 2 inconclusive or build failure
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
mkdir -p "$B" "$V/evidence" "$V/replays"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
rm -f "$V/evidence/$ID.json"

try_build() { # target-dir rustflags toolchain cargo-args...
  local t=$1 f=$2 tc=$3
  shift 3
  (cd "$V/harness" && CARGO_TARGET_DIR=$t RUSTFLAGS=$f cargo "+$tc" build --release --offline "$@" >"$B/$ID.log" 2>&1)
}
build() { # target-dir rustflags toolchain cargo-args...
  if ! try_build "$@"; then
    echo "INCONCLUSIVE property=$ID the working tree or the harness does not build:"
    grep -A8 -E '^error' "$B/$ID.log" | head -60
    exit 2
  fi
}
# numbers and names that are new in the working tree steer the generators (reach only, no verdict)
export MON_DICT=${MON_DICT-$(python3 "$V/dict.py" 2>/dev/null)}
export MON_CLI=
case $ID in
  C15) exec python3 "$V/check_ub.py" "$TIER" "$SEED" ;;
  C20 | C21 | C22 | C23)
    # if another private type no longer fits its monitor, this property's monitor alone
    try_build "$B/int" "--cfg adhoc_verif" stable --features internal ||
      build "$B/int" "--cfg adhoc_verif" stable --features "${ID,,}"
    EXE=$B/int/release/monitor ;;
  C17)
    if ! (cd /repo && CARGO_TARGET_DIR=$B/cli CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
        cargo +stable build --release --offline --bin adhoc_audio >"$B/cli.log" 2>&1); then
      echo "INCONCLUSIVE property=$ID the command line tool does not build:"
      grep -A8 -E '^error' "$B/cli.log" | head -60
      exit 2
    fi
    export MON_CLI=$B/cli/release/adhoc_audio
    build "$B/std" "" stable
    EXE=$B/std/release/monitor ;;
  C28)
    if ! bash "$V/wasm/build.sh" "$B" >"$B/wasm.log" 2>&1; then
      echo "INCONCLUSIVE property=$ID the working tree or the replayer does not build for wasm32:"
      grep -A8 -E '^error' "$B/wasm.log" | head -60
      exit 2
    fi
    export MON_WASM=$B/wasm/wasm32-unknown-unknown/release/wasmrun.wasm MON_WASM_JS=$V/wasm/run.js
    build "$B/std" "" stable
    EXE=$B/std/release/monitor ;;
  *)
    build "$B/std" "" stable
    EXE=$B/std/release/monitor ;;
esac
"$EXE" run --prop "$ID" --seed "$SEED" --tier "$TIER" --evidence "$V/evidence/$ID.json" --replays "$V/replays"
rc=$?
if [ $rc = 0 ] && [ "$TIER" = thorough ] && [ "$ID" = C16 ]; then
  # the same histories once more under ThreadSanitizer
  build "$B/tsan" "-Zsanitizer=thread" nightly -Zbuild-std --features plainalloc --target x86_64-unknown-linux-gnu
  export TSAN_OPTIONS="halt_on_error=1 exitcode=66"
  "$B/tsan/x86_64-unknown-linux-gnu/release/monitor" run --prop C16 --seed "$SEED" --tier quick --cases 4000 --mem 0 --cap 250 --replays "$V/replays" --evidence "$B/C16-tsan.json"
  rc=$?
  [ $rc = 0 ] && python3 - "$V/evidence/C16.json" "$B/C16-tsan.json" <<'P'
import json, sys
a, b = (json.load(open(p)) for p in sys.argv[1:])
a["coverage"]["thread_sanitizer"] = {"evaluations": b["coverage"]["evaluations"], "observed": b["coverage"]["observed"]}
a["wall_s"] += b["wall_s"]
json.dump(a, open(sys.argv[1], "w"), indent=1)
P
fi
exit $rc
