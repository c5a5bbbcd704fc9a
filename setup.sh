#!/bin/bash
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
for p in vsim clisim litesim ppcsim plainsim; do bash tools/build.sh $p || exit 1; done
