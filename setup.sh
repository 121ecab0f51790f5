#!/bin/sh
# Nothing to build: the checks are Python and build /repo in scratch directories. Verify that the tools exist.
set -e
for t in python3 gcc clang as ld make; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -m py_compile vlib/*.py checks/*.py
mkdir -p evidence replays
