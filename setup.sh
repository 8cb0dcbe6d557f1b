#!/bin/bash
# Nothing to build: the simulator is Python.  Check that what it needs is there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import numpy, scipy, sympy, mpi4py, h5py"
