#!/bin/bash
# Nothing to build: the machinery is Python and the code under test is imported from /repo.
# Proves that the stand-ins load and the package imports on them.
V=$(dirname "$(realpath "$0")")
export PYTHONPATH=$V PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
/opt/venv/bin/python -c "
from mon import load
load.load()
import lsst.skymap
print('ok', lsst.skymap.__file__)"
