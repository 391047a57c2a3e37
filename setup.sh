#!/bin/bash
# Nothing to build: checks import DREiMac from /repo's working tree.  Verify the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "import mc.engine, mc.ref, numpy, scipy, ripser, numba, matplotlib"
