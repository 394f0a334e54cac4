#!/bin/bash
# nothing to build: both halves are Python run from source
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
python3-vt -c 'import z3'
/opt/venv/bin/python -c 'import cytoolz, numpy, pandas, pyarrow'
