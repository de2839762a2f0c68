"""Imports lsst.skymap from the current directory's tree, for the demonstrations.

The C++ packages lsst.geom and lsst.afw.geom are not installed; shim.zip beside
this file holds pure-Python stand-ins for the part of them used here.
"""
import os
import sys
import types
import warnings
import zipfile
import tempfile
import atexit
import shutil

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
_tmp = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, _tmp, True)
zipfile.ZipFile(os.path.join(HERE, "shim.zip")).extractall(os.path.join(_tmp, "shim"))
sys.path.insert(0, os.path.join(_tmp, "shim"))
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
if not os.path.exists("python/lsst/skymap/version.py"):
    _m = types.ModuleType("lsst.skymap.version")
    _m.__version__ = "0"
    _m.__all__ = ("__version__",)
    sys.modules["lsst.skymap.version"] = _m

import lsst.geom as geom  # noqa: E402
import lsst.skymap as sk  # noqa: E402

DEG = geom.degrees


def scratch():
    """A directory that goes away at the end."""
    return tempfile.mkdtemp(dir=_tmp)


def sky(ra, dec):
    return geom.SpherePoint(float(ra), float(dec), geom.degrees)


def make(kind, cells=None, version=None, **settings):
    """A map; ``cells`` chooses the cell builder and its settings."""
    cls = sk.skyMapRegistry[kind]
    config = cls.ConfigClass()
    if cells is not None:
        config.tractBuilder.name = "cells"
        for k, v in cells.items():
            setattr(config.tractBuilder["cells"], k, v)
    for k, v in settings.items():
        setattr(config, k, v)
    return cls(config) if version is None else cls(config, version=version)


def butler():
    from lsst.daf.butler import Butler
    from lsst.daf.butler import Config
    root = scratch()
    Butler.makeRepo(root)
    return root, Butler.from_config(root, writeable=True)


def packer_for(tract_max=10, nx=3, ny=4, name="m"):
    """Data ID of a sky map with the given counts, and its universe."""
    from lsst.daf.butler import DimensionUniverse, DataCoordinate
    universe = DimensionUniverse()
    fixed = DataCoordinate.from_full_values(universe.conform(["skymap"]), (name,))
    record = universe["skymap"].RecordClass(skymap=name, hash=b"x" * 20, tract_max=tract_max, patch_nx_max=nx,
                                            patch_ny_max=ny)
    return fixed.expanded(records={"skymap": record}), universe


def data_id(universe, **kw):
    from lsst.daf.butler import DataCoordinate
    kw.setdefault("skymap", "m")
    return DataCoordinate.standardize(kw, universe=universe)
