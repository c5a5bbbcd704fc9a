#!/bin/bash
# build.sh PROGRAM: builds one simulator from the current content of /repo.
# cargo looks at modification times; a stamp over the content makes sure no edit is overlooked.
cd "$(dirname "$0")/.." || exit 2
V=$PWD
. "$V/tools/env.sh"
mkdir -p "$V/target"
exec 9>"$V/target/.lock"
flock 9
P=$1
case $P in
  vsim) D=sim ;;
  clisim) D=clisim ;;
  litesim|ppcsim|plainsim) D=litesim ;;
  *) echo "build.sh: $P?" >&2; exit 2 ;;
esac
S=$( (cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
fresh=0
[ "$(cat "$V/target/.stamp-$P" 2>/dev/null)" = "$S" ] && fresh=1
one() { # TARGET_DIR CARGO_OPTIONS...
  export CARGO_TARGET_DIR=$1
  shift
  [ $fresh = 1 ] || (cd "$D" && cargo clean --offline --release -p ublox -p ublox_derive -p "${D/#sim/vsim}") >/dev/null 2>&1
  (cd "$D" && cargo build --offline --release --quiet "$@")
}
[ $fresh = 1 ] || rm -f "$V/target/.stamp-$P"
rc=0
if [ "$P" = litesim ]; then
  # the same program once per choice of the library's features
  pids=
  # (overflow checks and debug assertions everywhere but in the last)
  for v in default:up_std,up_serde full:up_std,up_alloc,up_serde alloc:up_alloc none: serde:up_serde opt:up_std,up_serde; do
    [ "${v%%:*}" = opt ] && export CARGO_PROFILE_RELEASE_{OVERFLOW_CHECKS,DEBUG_ASSERTIONS}=false CARGO_PROFILE_RELEASE_OPT_LEVEL=3
    one "$V/target/lite-${v%%:*}" --features "${v#*:}" >"$V/target/build-$P-${v%%:*}.log" 2>&1 &
    pids="$pids $!"
  done
  n=0
  for p in $pids; do
    n=$((n + 1))
    # 3: fine with the default features, not with others
    wait "$p" || { if [ $n = 1 ]; then rc=1; elif [ $rc = 0 ]; then rc=3; fi; }
  done
  cat "$V"/target/build-$P-*.log >"$V/target/build-$P.log"
elif [ "$P" = ppcsim ]; then
  # the same program for a 32-bit big-endian machine that Miri simulates
  T=powerpc-unknown-linux-gnu
  export MIRI_SYSROOT=$V/target/miri-ppc CARGO_TARGET_DIR=$V/target/lite-ppc
  # (as sim/src/props_lite.rs runs it)
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-disable-stacked-borrows"
  {
    [ -e "$V/target/.sysroot-ppc" ] || { rm -rf "$V/target/miri-ppc"; cargo +nightly miri setup --target $T && touch "$V/target/.sysroot-ppc"; } || rc=1
    [ $fresh = 1 ] || rm -rf "$V/target/lite-ppc"
    (cd "$D" && cargo +nightly miri run --offline --release --quiet --features up_std,up_serde --target $T </dev/null) || rc=1
  } >"$V/target/build-$P.log" 2>&1
elif [ "$P" = plainsim ]; then
  # not optimised, so that what recurses needs its stack
  [ $fresh = 1 ] || (cd "$D" && CARGO_TARGET_DIR=$V/target/lite-plain cargo clean --offline --profile plain -p ublox -p ublox_derive -p litesim) >/dev/null 2>&1
  (cd "$D" && CARGO_TARGET_DIR=$V/target/lite-plain cargo build --offline --profile plain --quiet --features up_std,up_serde,small) >"$V/target/build-$P.log" 2>&1 || rc=1
else
  one "$V/target" >"$V/target/build-$P.log" 2>&1 || rc=1
fi
[ $rc = 0 ] || { grep -A12 -E '^error' "$V/target/build-$P.log" | head -80 >&2; [ $rc = 3 ] && exit 3; exit 2; }
echo "$S" >"$V/target/.stamp-$P"
