#!/bin/bash
# Every property: the histories of N runs, by 8 threads, by 1 thread and in a second process, must be identical.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
bash tools/build.sh vsim && bash tools/build.sh clisim && bash tools/build.sh litesim && bash tools/build.sh ppcsim && bash tools/build.sh plainsim || exit 2
N=${1:-300}
w=$(mktemp -d) && trap 'rm -rf "$w"' EXIT
for i in a:8 b:1 c:5; do
  target/release/vsim digest --runs "$N" --seed 7 --threads "${i#*:}" >"$w/${i%%:*}" || exit 2
done
cmp "$w/a" "$w/b" && cmp "$w/a" "$w/c" && echo "identical: $(wc -l <"$w/a") runs, digest of all $(sha256sum <"$w/a" | cut -c1-16)"
