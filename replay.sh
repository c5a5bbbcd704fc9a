#!/bin/bash
# replay.sh FILE: rebuilds from /repo and replays a recorded violation. Exit 1 if it still happens.
F=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. tools/env.sh
P=vsim
grep -q "\"property\": *\"C21\"" "$F" && { bash tools/build.sh clisim || exit 2; }
grep -q "\"property\": *\"C09\"" "$F" && { bash tools/build.sh plainsim || exit 2; }
grep -q "\"property\": *\"C28\"" "$F" && {
  bash tools/build.sh litesim; rc=$?
  [ $rc = 0 ] || [ $rc = 3 ] || exit 2
  bash tools/build.sh ppcsim || exit 2
}
grep -q "\"property\": *\"C22\"" "$F" && {
  bash tools/build.sh litesim
  case $? in
    0) grep -q '"build": true' "$F" && exit 0 ;;
    3) echo "does-not-build: the library does not build with some features"; echo "VIOLATION property=C22 replay=$F"; exit 1 ;;
    *) exit 2 ;;
  esac
}
bash tools/build.sh "$P" || exit 2
exec "target/release/$P" replay "$F"
