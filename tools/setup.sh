#!/bin/sh
# Checks that the tools are there; everything else is built by the checks from /repo's current tree.
set -e
cargo kani --version
python3 -c 'import sys; sys.path.insert(0, "tools"); import table'
mkdir -p evidence .build
