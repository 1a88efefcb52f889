#!/bin/bash
# Nothing to build: checks that the pieces are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/veriftools/pyvenv/bin/python -c '
import sys; sys.dont_write_bytecode = True; sys.path.insert(0, ".")
import hypothesis, json
from vlib import layout
assert len(layout.VERSIONS) == 11
json.load(open("MANIFEST.json"))
print("hypothesis", hypothesis.__version__, "- ready")'
