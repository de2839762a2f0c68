"""Pure-Python stand-in for ``lsst.geom``.

The real package is a C++ extension that cannot be installed in this sandbox.
This module re-implements, from its documented semantics, the part of its API
that code working with sky maps can reasonably use.  It is deliberately broad
(getters, properties and operators that lsst.skymap does not use today are
there too) so that a behaviour-preserving edit of lsst.skymap still runs, and
deliberately strict about types where the pybind11 bindings are (integer
points refuse floats, angles refuse bare numbers), so that code which would
raise ``TypeError`` against the real library does so here.
"""
from ._angle import *
from ._spherePoint import *
from ._coords import *
from ._interval import *
from ._box import *
from ._transform import *
