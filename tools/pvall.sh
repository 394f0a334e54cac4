#!/bin/bash
# tools/pvall.sh [--budget S]: run every prover spec and print one line each
cd "$(dirname "$0")/.."
for f in pydv/specs/[A-Z]*.py; do p=$(basename $f .py); tools/pv.sh $p "$@"; done
