#!/bin/bash
# Builds the variants of the program once, so that the checks find warm object files.
cd "$(dirname "$0")/.." || exit 1
for v in plain asan tsan dyn; do bash lib/build.sh $v >/dev/null || { echo "setup: the $v build failed"; exit 1; }; done
mkdir -p evidence out
