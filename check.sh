#!/bin/bash
# check.sh ID: builds the simulator against /repo's working tree and runs the check of property ID.
# Exit 0 held, 1 violated (VIOLATION line), 2 error of the check.
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
. "$V/tools/env.sh"
mkdir -p "$V/evidence" "$V/target/replays"
bash "$V/tools/build.sh" vsim || { echo "HARNESS ERROR: the simulator does not build against /repo" >&2; exit 2; }
if [ "$ID" = C21 ]; then
  bash "$V/tools/build.sh" clisim || { echo "HARNESS ERROR: the command-line tool does not build with its simulated port" >&2; exit 2; }
fi
if [ "$ID" = C09 ]; then
  bash "$V/tools/build.sh" plainsim || { echo "HARNESS ERROR: the simulator does not build against /repo without optimisation" >&2; exit 2; }
fi
if [ "$ID" = C28 ]; then
  # its reference is C22's default build, and it is compared only where that builds
  bash "$V/tools/build.sh" litesim
  rc=$?
  [ $rc = 0 ] || [ $rc = 3 ] || { echo "HARNESS ERROR: the feature comparison does not build against /repo" >&2; exit 2; }
  bash "$V/tools/build.sh" ppcsim || { echo "HARNESS ERROR: the simulator does not build for the other machine" >&2; exit 2; }
fi
if [ "$ID" = C22 ]; then
  bash "$V/tools/build.sh" litesim
  case $? in
    0) ;;
    3) python3 "$V/tools/feature_break.py" "$V/target/build-litesim.log" "$V/target/replays/C22-build.json"; exit 1 ;;
    *) echo "HARNESS ERROR: the feature comparison does not build against /repo" >&2; exit 2 ;;
  esac
fi
ulimit -c 0
ulimit -v 20000000
"$V/target/release/vsim" check --prop "$ID" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
  --evidence "$V/evidence/$ID.json" --replays "$V/target/replays"
rc=$?
[ $rc = 0 ] && python3 "$V/tools/known.py" "$ID"
exit $rc
