"""Pure-Python stand-in for the part of ``lsst.afw.geom`` sky maps use.

The real package wraps Starlink AST, which is not available in this sandbox.
`SkyWcs` here implements FITS WCS papers I and II directly (celestial
rotation, the projections listed in `_PROJ`); ``/verif/tools/selfcheck.py``
compares it with wcslib (through astropy) on random positions.
"""
from ._skyWcs import *
