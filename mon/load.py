"""Import lsst.skymap from the repository's current working tree.

The tree is imported in place (VERIF_REPO, default /repo), so whatever is in
it when the check starts is what runs.  Two things a build of the real stack
would supply are stood in for: the C++ packages (``/verif/shim``) and the
generated ``lsst.skymap.version`` module.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def _paths():
    for p in (os.path.join(HERE, "shim"), os.path.join(REPO, "python")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def inject_version():
    if not os.path.exists(os.path.join(REPO, "python", "lsst", "skymap", "version.py")):
        m = types.ModuleType("lsst.skymap.version")
        m.__version__ = "0.0.0+verif"
        m.__all__ = ("__version__",)
        sys.modules.setdefault("lsst.skymap.version", m)


def load():
    """Import and return the package under test."""
    _paths()
    warnings.simplefilter("ignore")
    inject_version()
    import lsst.skymap as sk
    where = os.path.realpath(sk.__file__)
    if not where.startswith(os.path.realpath(os.path.join(REPO, "python")) + os.sep):
        raise RuntimeError("lsst.skymap came from %s, not from %s" % (where, REPO))
    return sk
