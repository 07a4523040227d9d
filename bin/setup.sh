#!/bin/bash
# Builds the harness and the program once; every check rebuilds what it needs by itself.
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P'
import sys, os
sys.path.insert(0, 'bin')
import vlib
for f in sorted(os.listdir('harness/src/bin')):
    vlib.build_harness(f[:-3])
vlib.build_binary()
P
