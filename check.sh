#!/bin/bash
# ./check.sh C01            run one check (VERIF_SEED, VERIF_TIER=quick|thorough, VERIF_SCALE, VERIF_SUB)
# ./check.sh build          only build
# ./check.sh replay FILE    run one recorded case again
# exit: 0 held, 1 violated, 2 no verdict
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS VERIF_GUIDED
mkdir -p evidence harness/target
h="$PWD/harness" log="$PWD/harness/target/.build-$$"
build() { # target dir, log, RUSTFLAGS, further arguments
  local t="$1" l="$2" f="$3"; shift 3
  (cd "$h" && RUSTFLAGS="$f" CARGO_TARGET_DIR="$t" cargo build --release --offline --locked "$@") >"$l" 2>&1
}
# the instrumented build for the coverage-guided search; without it there is only the random one
guided() { RUSTC_WRAPPER="$h/cov-rustc.sh" build "$h/$1" "$log.cov" "$2" --features cov; }
guided=
[ "$1" = replay ] || { guided target-cov "--cfg algeo_verif" & guided=$!; }
bin="$h/target/release/algeo-check" cov="$h/target-cov/release/algeo-check"
if ! build "$h/target" "$log" "--cfg algeo_verif"; then
  # the hooks do not compile any more: go on without them (fewer sub-checks), or give up
  [ -n "$guided" ] && wait "$guided"
  bin="$h/target-plain/release/algeo-check" cov="$h/target-plain-cov/release/algeo-check"
  if ! build "$h/target-plain" "$log" ""; then
    tail -40 "$log" >&2; rm -f "$log" "$log.cov"; echo "check.sh: the harness does not build" >&2; exit 2
  fi
  echo "note: built without the hooks"
  [ "$1" = replay ] || { guided target-plain-cov "" & guided=$!; }
fi
if [ -n "$guided" ]; then
  if wait "$guided"; then export VERIF_GUIDED="$cov"; else echo "note: no instrumented build, hence no guided search"; tail -5 "$log.cov"; fi
fi
rm -f "$log" "$log.cov"
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check "$1" ;;
esac
