#!/bin/bash
# run.sh setup | <PROPERTY> [quick|thorough] [--job NAME --case N]
# Builds the monitors against /repo's current working tree and runs one property.
# Exit: 0 held, 1 violation, 2 no verdict (for example /repo does not build).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
id="$1"; shift
tier="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) tier="$1"; shift;; esac
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
work="$(mktemp -d)"
trap '/bin/rm -rf "$work"' EXIT

noverdict() { echo "no verdict: $1"; exit 2; }
# violation JOB OBSERVED LOG: writes the replay file and the verdict line
violation() {
  mkdir -p "$here/replays"
  local path="$here/replays/$id-seed$VERIF_SEED-$1.json"
  python3 - "$path" "$id" "$VERIF_SEED" "$tier" "$1" "$2" "$3" "$here" <<'P'
import json,sys
p,i,s,t,j,o,l,h=sys.argv[1:]
try: log=open(l,errors='replace').read()[-6000:]
except OSError: log=''
json.dump({"property":i,"seed":int(s),"tier":t,"job":j,"observed":o,"log":log,"replay":f"VERIF_SEED={s} {h}/run.sh {i} {t}"},open(p,'w'),indent=1)
P
  echo "observed: $2"
  tail -25 "$3"
  echo "VIOLATION property=$id replay=$path"
  exit 1
}
build() { # dir, extra cargo args
  if ! (cd "$1" && cargo build --offline "${@:2}") >"$work/build" 2>&1; then
    tail -40 "$work/build"; noverdict "the monitors do not build against /repo"
  fi
}
# miri DIR BIN FLAGS ARGS...: interpreted run; leaves its output in $work/miri
miri() {
  local dir="$1" bin="$2" flags="$3"; shift 3
  (cd "$dir" && RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="$flags" cargo miri run --offline --bin "$bin" -- "$@") >"$work/miri" 2>&1
}
# what an interpreted or sanitized run that did not succeed says about the code
diagnose() { # tool, log
  local l
  l="$(grep -m1 -E 'MONITOR:|Undefined Behavior|Data race|data race|deadlock|memory leaked|ThreadSanitizer|AddressSanitizer|LeakSanitizer|panicked at /repo' "$2")"
  [ -n "$l" ] && violation "$1" "$1: $l" "$2"
  tail -30 "$2"; noverdict "$1 did not finish"
}

case "$id" in
  setup)
    build "$here/harness"; build "$here/conc"; build "$here/mem"; build "$here/prof"; exit 0;;
  C24)
    # sendable and shareable handles are a compile-time monitor in conc
    if ! (cd "$here/conc" && cargo build --offline) >"$work/build" 2>&1; then
      grep -qE 'cannot be (sent|shared) between threads safely' "$work/build" &&
        violation "send_sync" "a handle type can no longer be sent to or shared by threads" "$work/build"
      tail -40 "$work/build"; noverdict "the monitors do not build against /repo"
    fi
    n=16; mode=quick; [ "$tier" = thorough ] && n=64 && mode=full
    from=$(( (VERIF_SEED % 1000000) * 1000 ))
    miri "$here/conc" mconc "-Zmiri-many-seeds=$from..$((from+n)) -Zmiri-disable-stacked-borrows -Zmiri-disable-validation" $mode || diagnose miri "$work/miri"
    held=$(grep -c '^MCONC-DONE' "$work/miri"); [ "$held" = "$n" ] || noverdict "Miri ran $held of $n seeds"
    extra=("miri schedules without a race, deadlock or wrong result=$held of $n (seeds $from..$((from+n)))")
    if [ "$tier" = thorough ]; then
      if ! (cd "$here/conc" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --bin mconc) >"$work/tsan" 2>&1; then
        tail -30 "$work/tsan"; noverdict "ThreadSanitizer build failed"
      fi
      TSAN_OPTIONS="halt_on_error=1 exitcode=66" "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/mconc" big >"$work/tsan" 2>&1 || diagnose tsan "$work/tsan"
      extra+=("ThreadSanitizer=silent over $(grep -c '^held' "$work/tsan") concurrent histories")
    fi
    "$CARGO_TARGET_DIR/debug/conc" "${extra[@]}"; exit $?;;
  C25)
    build "$here/mem"
    # Miri names what is never freed, over short histories on the smallest primes
    parts="0 1 6"; [ "$tier" = thorough ] && parts="0 1 2 3 5 6 7"
    flags="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks"
    miri "$here/mem" mmem "$flags" none || { tail -30 "$work/miri"; noverdict "the Miri build failed"; }
    pids=()
    for p in $parts; do
      (cd "$here/mem" && RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="${flags% *}" cargo miri run --offline --bin mmem -- "$p") >"$work/leak$p" 2>&1 & pids+=($!)
    done
    i=0; cat /dev/null >"$work/leaks"
    for p in $parts; do
      wait "${pids[$i]}" || { cat "$work/leak$p" >>"$work/leaks"; }
      i=$((i+1))
    done
    [ -s "$work/leaks" ] && diagnose miri "$work/leaks"
    held=$(cat "$work"/leak[0-9]* | grep -c '^held'); [ "$held" = "$(echo $parts | wc -w)" ] || noverdict "Miri ran $held of the histories $parts"
    # cases of the monitors of all properties, repeated: whatever path they take, memory must not grow
    build "$here/harness"
    pids=(); limit=400; [ "$tier" = thorough ] && limit=7200
    for s in 0 1 2 3 4 5 6 7; do
      timeout "$limit" "$CARGO_TARGET_DIR/debug/vleak" "$s" 8 >"$work/vleak$s" 2>&1 & pids+=($!)
    done
    for i in 0 1 2 3 4 5 6 7; do wait "${pids[$i]}"; done
    l="$(cat "$work"/vleak[0-7] | grep -a -m1 '^LEAK')"
    [ -n "$l" ] && { grep -a -h '^LEAK' "$work"/vleak[0-7] >"$work/leaking"; violation "$(sed 's/LEAK case \([0-9]*\) of \(C[0-9]*\),.*/\2-case-\1/' <<<"$l")" "memory is not released:${l#LEAK}" "$work/leaking"; }
    again="$(cat "$work"/vleak[0-7] | grep -a '^TOTAL' | awk '{c+=$2;r+=$3;e+=$5;n++} END {print c+0 " cases of the other monitors, run " r+0 " times with " e+0 " allocations in " n+0 " processes"}')"
    "$CARGO_TARGET_DIR/debug/mem" "histories under Miri at whose end nothing was left unfreed=$held" "repeated without growth=$again"; exit $?;;
  C28)
    build "$here/harness"
    python3 "$here/prof/check.py"; exit $?;;
  *)
    build "$here/harness"
    "$CARGO_TARGET_DIR/debug/vmon" "$id" --tier "$tier" "$@"; exit $?;;
esac
