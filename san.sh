#!/bin/bash
# san.sh CHECK: the check again, with the library and the harness under
# sanitizers: address and leak errors, data races, and (on a small program)
# undefined behaviour. Used by the thorough tier. What they report is a
# violation; a sanitizer that can not be built here is left out, and said.
cd "$(dirname "$0")" || exit 2
id=$1
T="${CARGO_TARGET_DIR:-$PWD/target}"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
W=$(mktemp -d "${TMPDIR:-/tmp}/san-XXXXXX")
trap 'find "$W" -mindepth 1 -delete; rmdir "$W"' EXIT
cp known-findings.txt "$W/"
mkdir -p replays
bad() {
  local f="$PWD/replays/$id-$1.txt"
  cat "$W"/$1.log* > "$f" 2>/dev/null
  head -60 "$f" >&2
  echo "VIOLATION property=$id replay=$f"
  exit 1
}
leg() { # name, flags, cargo flags, cases
  local b="$T/$1/x86_64-unknown-linux-gnu/release/mon"
  if ! ( cd harness && RUSTFLAGS="$2" CARGO_TARGET_DIR="$T/$1" cargo build --release --offline --quiet $3 --target x86_64-unknown-linux-gnu ) 2>"$W/build"; then
    echo "not run: $1 ($(grep -m1 '^error' "$W/build"))"
    return
  fi
  VERIF_DIR="$W" MON_NO_LIMIT=1 MON_SMALL=1 MON_CASE_CPU_S=400 MON_CASES=$4 MON_DEADLINE_S=100 VERIF_TIER=quick \
    ASAN_OPTIONS="log_path=$W/$1.log detect_leaks=1 allocator_may_return_null=1" \
    TSAN_OPTIONS="log_path=$W/$1.log exitcode=66 report_signal_unsafe=0" \
    "$b" check "$id" > "$W/$1.out" 2>&1
  local rc=$?
  if compgen -G "$W/$1.log*" >/dev/null; then bad "$1"; fi
  if [ $rc = 1 ]; then cp "$W/$1.out" "$W/$1.log"; bad "$1"; fi
  echo "$1: $(grep -m1 '^held' "$W/$1.out" || echo "no verdict ($rc)")"
}
leg asan "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer" "" 40000
if [ "$id" = C14 ]; then
  leg tsan "-Zsanitizer=thread" "-Zbuild-std" 20000
  if ( cd miri && CARGO_TARGET_DIR="$T/miri" cargo miri setup --quiet ) >/dev/null 2>&1; then
    for seed in 1 2 3 4 5 6; do
      ( cd miri && CARGO_TARGET_DIR="$T/miri" MIRIFLAGS="-Zmiri-seed=$seed -Zmiri-preemption-rate=0.05" timeout 100 cargo miri run --offline --quiet ) > "$W/miri.out" 2>&1
      rc=$?
      [ $rc = 124 ] && { echo "miri: stopped at its time"; break; }
      if [ $rc != 0 ]; then
        # Without the program being built there is no verdict.
        grep -q "Undefined Behavior\|panicked\|data race\|memory leaked" "$W/miri.out" && { cp "$W/miri.out" "$W/miri.log"; bad miri; }
        echo "not run: miri ($(grep -m1 '^error' "$W/miri.out"))"; break
      fi
      echo "miri, schedule $seed: $(tail -1 "$W/miri.out")"
    done
  else echo "not run: miri can not be set up"; fi
fi
exit 0
