"""pytest plugin: supply the generated version module (see mon/load.py)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import load  # noqa: E402
load._paths()
load.inject_version()
import lsst.geom.testUtils  # noqa: E402,F401
