#!/bin/sh
# Nothing is built ahead of time: every check encodes /repo's current sources itself.
set -e
for t in goto-cc cbmc gcc clang valgrind python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence replay
echo ready
