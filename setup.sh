#!/bin/bash
# nothing to fetch or build ahead of time: every check compiles what it needs from /repo's current tree
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence replay
python3-vt -c 'import z3' 
for t in /usr/bin/clang++-18 g++; do command -v $t >/dev/null; done
