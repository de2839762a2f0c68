#!/bin/bash
# Fidelity of the stand-ins: the repository's own tests, all of them, on the shim,
# and the shim's WCS against astropy's wcslib.  Not a verdict on any property.
V=$(dirname "$(dirname "$(realpath "$0")")"); R=${VERIF_REPO:-/repo}
export PYTHONPATH=$R/python:$R/tests:$V/shim:$V/tools PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd "$R" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p version_plugin -n 8 -W ignore tests || exit 1
/opt/venv/bin/python "$V/tools/wcs_vs_astropy.py"
