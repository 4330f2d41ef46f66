#!/bin/bash
# run.sh ID            one check (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE   re-executes the case of a replay file
# run.sh build         builds the monitors
# The monitors are rebuilt from /repo's working tree on every call.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_INCREMENTAL CARGO_BUILD_TARGET
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never VP_ROOT=$ROOT
export HOME=${HOME:-/root}
T=$ROOT/target
mkdir -p "$T" evidence
what=${1:?usage: run.sh ID | replay FILE | build}

# Modification times of a restored tree can lie in the past, so cargo's own freshness check is not trusted.
forget() { rm -rf "$1"/*/.fingerprint/skillratings-* "$1"/*/.fingerprint/vp-harness-* "$1"/*/*/.fingerprint/skillratings-* "$1"/*/*/.fingerprint/vp-harness-* 2>/dev/null; }
build() { # target-dir extra args
  local dir=$1; shift
  forget "$dir"
  ( cd harness && CARGO_TARGET_DIR=$dir cargo build --release --offline -q "$@" ) >"$T/build.log" 2>&1
}
no_answer() { echo "no answer: $*" >&2; tail -n 40 "$T/build.log" >&2; exit 2; }

id=$what
[ "$what" = replay ] && id=$(sed -n 's/^property=//p' "${2:?replay file}" | head -n 1)
feat=""
[ "$id" = C20 ] && feat="--features serde"

if [ "$what" = build ]; then
  build "$T" || no_answer "the monitors do not build"
  exit 0
fi

if ! build "$T" $feat; then
  if [ "$id" = C20 ] && grep -qE "Serialize|Deserialize" "$T/build.log" && cp "$T/build.log" "$T/build-serde.log" && build "$T"; then
    # Everything else builds: a type lost its (de)serialization.
    mkdir -p replays
    r=$ROOT/replays/C20-build.txt
    { echo "property=C20"; echo "with the serde feature these types cannot be stored or loaded any more:"; grep -E "^error|Serialize|Deserialize" "$T/build-serde.log" | head -n 60; } >"$r"
    cat "$r"
    n=$(grep -c "^error" "$T/build-serde.log")
    printf '{"property":"C20","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":%s,"distinct_nontrivial":%s,"rule":"compiler errors about missing serde implementations of the documented types","samples":["see replay"]},"wall_s":1,"violations":%s}\n' "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" "$n" "$n" "$n" >evidence/C20.json
    echo "VIOLATION property=C20 replay=$r"
    exit 1
  fi
  no_answer "the monitors do not build against /repo"
fi
[ "$what" = replay ] && exec "$T/release/vp" replay "$2"

if [ "$id" = C15 ] && [ -z "${VP_NO_SAN:-}" ]; then
  # The same calls under a race detector, a memory error detector and an undefined-behaviour interpreter.
  S=$T/san; mkdir -p "$S"; rm -f "$S"/*.log "$S"/*.txt
  seed=${VERIF_SEED:-1}
  if [ "${VERIF_TIER:-quick}" = thorough ]; then n=400000; mn=590; lim=780; seeds="1 2 3 4"; else n=40000; mn=118; lim=420; seeds="1"; fi
  host=x86_64-unknown-linux-gnu
  verdict() { # name rc log
    if [ "$2" = 0 ]; then echo "$1 clean $(grep -o 'calls [0-9]*' "$3" | tail -n 1)"
    elif grep -qE "ThreadSanitizer|AddressSanitizer|Undefined Behavior|differing [1-9]" "$3"; then
      echo "$1 report $(grep -m 1 -E 'ThreadSanitizer|AddressSanitizer|Undefined Behavior|differing [1-9]' "$3") | $(grep -m 3 -E '/repo/src|src/[a-z_/]*\.rs' "$3" | tr -s ' \n' ' ')"
    else echo "$1 unavailable rc=$2 $(tail -n 1 "$3")"; fi
  }
  (
    forget "$S/tsan"
    cd harness && export CARGO_TARGET_DIR=$S/tsan
    RUSTFLAGS="-Zsanitizer=thread" timeout "$lim" cargo +nightly build --release --offline -q --target $host -Zbuild-std >"$S/tsan-build.log" 2>&1 &&
      TSAN_OPTIONS="halt_on_error=1 second_deadlock_stack=1" timeout 300 "$S/tsan/$host/release/vp" crowd "$seed" "$n" 8 >"$S/tsan.log" 2>&1
    rc=$?; [ -f "$S/tsan.log" ] || cp "$S/tsan-build.log" "$S/tsan.log"
    verdict tsan $rc "$S/tsan.log" >"$S/1.txt"
  ) &
  (
    forget "$S/asan"
    cd harness && export CARGO_TARGET_DIR=$S/asan
    RUSTFLAGS="-Zsanitizer=address" timeout "$lim" cargo +nightly build --release --offline -q --target $host >"$S/asan-build.log" 2>&1 &&
      ASAN_OPTIONS="detect_leaks=0" timeout 300 "$S/asan/$host/release/vp" crowd "$seed" "$n" 8 >"$S/asan.log" 2>&1
    rc=$?; [ -f "$S/asan.log" ] || cp "$S/asan-build.log" "$S/asan.log"
    verdict asan $rc "$S/asan.log" >"$S/2.txt"
  ) &
  (
    forget "$S/miri"
    cd harness && export CARGO_TARGET_DIR=$S/miri
    # the interpreter is built once, then runs with different schedules
    for k in $seeds; do
      MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=$((seed * 100 + k)) -Zmiri-preemption-rate=0.05" timeout "$lim" cargo +nightly miri run --offline -q -- crowd $((seed + k)) "$mn" 2 >"$S/miri-$k.log" 2>&1
      verdict miri $? "$S/miri-$k.log" >"$S/3$k.txt"
    done
  ) &
  wait
  cat "$S"/[0-9]*.txt >"$S/verdicts" 2>/dev/null
  cat "$S/verdicts"
  export VP_SAN=$S/verdicts
fi
exec "$T/release/vp" run "$id"
