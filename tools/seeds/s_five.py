"""Fifth batch: types of one's own."""
OWN = '''
import struct
from lsst.skymap.cachingSkyMap import CachingSkyMap
from lsst.skymap.tractInfo import TractInfo
from lsst.skymap.detail import WcsFactory, Index2D
C = sk.BaseSkyMapConfig
def cfg(**kw):
    c = C()
    c.projection, c.pixelScale, c.tractOverlap = "TAN", 60.0, 0.1
    for k, v in kw.items():
        setattr(c, k, v)
    return c
class Mine(CachingSkyMap):
    ConfigClass = C
    first = 0
    def __init__(self, config, version=0):
        super().__init__(4, config, version)
        self.bad = set()
    def generateTract(self, i):
        if i in self.bad:
            raise LookupError("not now")
        ctr = sky(20.0 + 30*i, 10.0)
        wcs = WcsFactory(pixelScale=60*geom.arcseconds, projection="TAN").makeWcs(geom.Point2D(0, 0), ctr)
        vs = [ctr.offset(b*DEG, 1*DEG) for b in (0, 90, 180, 270)]
        return TractInfo(self.first + i, self.config.tractBuilder.apply(), ctr, vs, 0.1*DEG, wcs)
    def updateSha1(self, sha1):
        pass
'''
SEEDS = [
dict(id="c28-error-renamed", prop="C28",
 needs="a map type whose generateTract raises a LookupError (its catalogue is away, say)",
 breaks="a tract that cannot be made is reported as an index out of range, so iteration stops quietly",
 edits=[("cachingSkyMap.py", "        tract = self.generateTract(index)\n",
         "        try:\n            tract = self.generateTract(index)\n        except LookupError:\n"
         '            raise IndexError("No tract %d" % (index,)) from None\n')],
 demo=OWN + '''
m = Mine(cfg()); m.bad.add(2)
try:
    m[2]
except IndexError as e:
    raise AssertionError(e)
except LookupError:
    pass
'''),
dict(id="c28-vector-nearest", prop="C28",
 needs="a map type with its own findTract and an array of positions",
 breaks="array lookup compares with tract centres itself and ignores the type's own rule",
 edits=[("baseSkyMap.py", "        return tractId\n\n    def findTractPatchList(self",
         "        tracts = list(self)\n        centers = np.array([tract.getCtrCoord().getVector() for tract in tracts])\n"
         "        ids = np.array([tract.getId() for tract in tracts])\n"
         "        vectors = np.array([coord.getVector() for coord in coords])\n"
         "        dist2 = ((vectors[:, np.newaxis, :] - centers[np.newaxis, :, :])**2).sum(axis=2)\n"
         "        return ids[np.argmin(dist2, axis=1)]\n\n    def findTractPatchList(self")],
 demo=OWN + '''
import numpy as np
class East(Mine):
    def findTract(self, coord):
        return self[3]
m = East(cfg())
assert list(m.findTractIdArray(np.array([20.0]), np.array([10.0]), degrees=True)) == [3]
'''),
dict(id="c28-package-name", prop="C28",
 needs="two map types of one's own with the same settings",
 breaks="the digest names the nearest type of the package instead of the map's own",
 edits=[("baseSkyMap.py", "            sha1.update(type(self).__name__.encode('utf-8'))\n",
         "            name = next(c.__name__ for c in type(self).__mro__ if c.__module__.startswith('lsst.skymap.'))\n"
         "            sha1.update(name.encode('utf-8'))\n")],
 demo=OWN + '''
class Other(Mine):
    pass
assert Mine(cfg()) != Other(cfg())
'''),
dict(id="c28-row-numbers", prop="C28",
 needs="a patch layout that numbers its patches another way",
 breaks="the tract works patch numbers out itself, always by rows",
 edits=[("tractInfo.py", "        return self._tractBuilder.getSequentialPatchIndexFromPair(index)\n",
         "        x, y = index\n        return self._numPatches[0]*y + x\n")],
 demo='''
class Columns(sk.LegacyTractBuilder):
    def getSequentialPatchIndexFromPair(self, index):
        return index[0]*1000 + index[1]
from lsst.skymap.tractInfo import TractInfo
from lsst.skymap.detail import WcsFactory
ctr = sky(20.0, 10.0)
wcs = WcsFactory(pixelScale=1*geom.arcseconds, projection="TAN").makeWcs(geom.Point2D(0, 0), ctr)
t = TractInfo(0, Columns(Columns.ConfigClass()), ctr, [ctr.offset(b*DEG, 3*DEG) for b in (0, 90, 180, 270)], 0*DEG, wcs)
assert t.getSequentialPatchIndexFromPair((1, 1)) == 1001
'''),
dict(id="c28-by-place", prop="C28",
 needs="tracts whose numbers are not their places in the map",
 breaks="closest-tract queries look tracts up by number as though it were the place",
 edits=[("baseSkyMap.py", "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n            if patchList and",
         "            tractInfo = self[self.findTract(coord).getId()]\n"
         "            patchList = tractInfo.findPatchList(coordList)\n            if patchList and")],
 demo=OWN + '''
class Far(Mine):
    first = 1000
    def __getitem__(self, i):
        assert i < 4, "asked for tract %d of 4" % i
        return super().__getitem__(i)
assert [t.getId() for t, ps in Far(cfg()).findClosestTractPatchList([sky(20.0, 10.0)])] == [1000]
'''),
dict(id="c28-half-made", prop="C28",
 needs="a tract that failed to be made once is asked for again",
 breaks="the place of a tract being made is marked, and stays so when making it fails",
 edits=[("cachingSkyMap.py", "        tract = self.generateTract(index)\n        self._tractCache[index] = tract\n",
         "        if self._busy is not None and self._busy == index:\n"
         '            raise RuntimeError("Tract %d needs itself" % (index,))\n'
         "        self._busy = index\n"
         "        self._tractCache[index] = tract = self.generateTract(index)\n        self._busy = None\n"),
        ("cachingSkyMap.py", "        self._tractCache = [None] * self._numTracts\n",
         "        self._tractCache = [None] * self._numTracts\n        self._busy = None  # tract being generated\n")],
 demo=OWN + '''
m = Mine(cfg()); m.bad.add(2)
try:
    m[2]
except LookupError:
    pass
m.bad.clear()
try:
    assert m[2].getId() == 2
except RuntimeError as e:
    raise AssertionError(e)
'''),
dict(id="c28-digest-legacy", prop="C28",
 needs="a patch layout with settings of its own",
 breaks="layouts other than the built-in ones are left out of the digest",
 edits=[("baseSkyMap.py", "            configPacked = self._tractBuilder.getPackedConfig(self.config)\n",
         '            configPacked = tractBuilderRegistry["cells" if self.config.tractBuilder.name == "cells" else "legacy"]'
         ".getPackedConfig(\n                self._tractBuilder, self.config)\n")],
 demo=OWN + '''
import lsst.pex.config as pc
class LC(sk.LegacyTractBuilderConfig):
    salt = pc.Field(dtype=int, default=0, doc="salt")
class L(sk.LegacyTractBuilder):
    ConfigClass = LC
    def getPackedConfig(self, config):
        return super().getPackedConfig(config) + struct.pack("<i", config.tractBuilder.active.salt)
sk.tractBuilderRegistry.register("demo", L)
def one(salt):
    c = cfg(); c.tractBuilder.name = "demo"; c.tractBuilder["demo"].salt = salt
    return Mine(c)
assert one(1) != one(2)
'''),
dict(id="c28-config-class", prop="C28",
 needs="a map type derived from a built-in one",
 breaks="a saved map comes back as the built-in type",
 edits=[("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
         "        from .skyMapRegistry import skyMapRegistry\n"
         "        cls = next((c for c in self.__class__.__mro__ if c in skyMapRegistry.values()), self.__class__)\n"
         "        return (getattr(cls, '_target', cls), (self.config, self._version))\n")],
 demo='''
import pickle, sys
from lsst.skymap.discreteSkyMap import DiscreteSkyMap
class Sub(DiscreteSkyMap):
    pass
c = Sub.ConfigClass()
c.raList, c.decList, c.radiusList = [1.0], [2.0], [0.5]
m = Sub(c)
f, a = m.__reduce__()
assert type(f(*a)) is Sub, f
'''),
]
SEEDS += [
dict(id="c29-seterr", prop="C29",
 needs="array lookup in a ring map, then anything that relies on numpy's error settings",
 breaks="numeric warnings stay switched off for the whole process after a lookup",
 edits=[("ringsSkyMap.py", "        indexes = np.full(_ra.size, -1, dtype=np.int32)\n",
         "        np.seterr(invalid='ignore', over='ignore')\n        indexes = np.full(_ra.shape, -1, dtype=np.int32)\n"),
        ],
 demo='''
import numpy as np
m = make("rings", numRings=4)
before = np.geterr()
m.findTractIdArray(np.array([10.0]), np.array([20.0]), degrees=True)
assert np.geterr() == before, np.geterr()
'''),
dict(id="c29-remember-positions", prop="C29",
 needs="a long-lived ring map looked up at many different positions",
 breaks="every position ever looked up is remembered",
 edits=[("tractInfo.py", "        pixelInd = geom.Point2I(pixel)\n        if not self._bbox.contains(pixelInd):\n            raise LookupError",
         "        pixelInd = self._pixels.setdefault(coord, geom.Point2I(pixel))\n"
         "        if not self._bbox.contains(pixelInd):\n            raise LookupError"),
        ("tractInfo.py", "        self._bbox, self._wcs = self._finalOrientation(initialBBox, wcs)\n",
         "        self._bbox, self._wcs = self._finalOrientation(initialBBox, wcs)\n        self._pixels = {}\n")],
 demo='''
import gc, tracemalloc
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=10.0)
t = m[0]
def use(n, k):
    for i in range(n):
        try:
            t.findPatch(sky(10 + (i + k)*1e-5, 0.1))
        except LookupError:
            pass
use(500, 0); gc.collect()
tracemalloc.start()
use(2000, 500); gc.collect()
grown = tracemalloc.get_traced_memory()[0]
assert grown < 100000, grown
'''),
dict(id="c29-living-maps", prop="C29",
 needs="a program that makes and drops many maps",
 breaks="a map whose digest was asked for is kept for ever",
 edits=[("baseSkyMap.py", "            self._sha1 = sha1.digest()\n", "            self._sha1 = _known.setdefault(sha1.digest(), self) and sha1.digest()\n"),
        ("baseSkyMap.py", "class BaseSkyMapConfig(pexConfig.Config):\n", "_known = {}  # sky maps by digest\n\n\nclass BaseSkyMapConfig(pexConfig.Config):\n")],
 demo='''
import gc, weakref
m = make("rings", numRings=4)
m.getSha1()
r = weakref.ref(m)
del m
gc.collect()
assert r() is None, "map is still alive"
'''),
dict(id="c29-tie-random", prop="C29",
 needs="a program that relies on its seeded random numbers and looks up a position",
 breaks="ties between tract centres are broken with the global random generator",
 edits=[("baseSkyMap.py", "            distTractInfoList.append((angSep, i, tractInfo))\n",
         "            distTractInfoList.append((angSep, np.random.random(), i, tractInfo))\n"),
        ("baseSkyMap.py", "        return distTractInfoList[0][2]\n", "        return distTractInfoList[0][3]\n")],
 demo='''
import numpy as np
m = make("discrete", raList=[10.0, 20.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0], pixelScale=10.0)
np.random.seed(1)
a = np.random.random()
np.random.seed(1)
m.findTract(sky(11, 0))
assert np.random.random() == a, "random numbers differ"
'''),
dict(id="c29-basic-config", prop="C29",
 needs="the summary of a map written to a log of one's own",
 breaks="writing the summary sets up the root logger",
 edits=[("baseSkyMap.py", '        log.info("sky map has %s tracts" % (len(self),))\n',
         '        logging.basicConfig(level=logging.INFO)\n        log.info("sky map has %s tracts" % (len(self),))\n'),
        ("baseSkyMap.py", "import hashlib\nimport numpy as np\n", "import hashlib\nimport logging\nimport numpy as np  # noqa\n")],
 demo='''
import logging
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=10.0)
lg = logging.Logger("mine"); lg.addHandler(logging.NullHandler())
m.logSkyMapInfo(lg)
assert not logging.root.handlers, logging.root.handlers
'''),
dict(id="c29-packer-memory", prop="C29",
 needs="a packer that packs many different data IDs",
 breaks="the packer remembers every data ID it packed",
 edits=[("packers.py", '        packed = dataId["patch"] + self._n_patches * dataId["tract"]\n',
         '        key = (dataId["tract"], dataId["patch"])\n'
         "        packed = self._memo.setdefault(key, key[1] + self._n_patches * key[0])\n"),
        ("packers.py", "        self._n_bands = n_bands\n", "        self._n_bands, self._memo = n_bands, {}\n")],
 demo='''
import tracemalloc
fixed, u = packer_for(10**6, 100, 100)
from lsst.skymap.packers import SkyMapDimensionPacker
p = SkyMapDimensionPacker(fixed)
ids = [data_id(u, tract=t, patch=t % 7, band="r") for t in range(9000)]
for i in ids[:1000]:
    p.pack(i)
tracemalloc.start()
for i in ids[1000:]:
    p.pack(i)
grown = tracemalloc.get_traced_memory()[0]
assert grown < 150000, grown
'''),
dict(id="c29-tract-holds-map", prop="C29",
 needs="a healpix map that is dropped while nothing else refers to it, with cyclic collection or a module-level table",
 breaks="HEALPix maps share pixel centres through a table that holds the maps themselves",
 edits=[("healpixSkyMap.py", "        super(HealpixSkyMap, self).__init__(numTracts, config, version)\n",
         "        super().__init__(numTracts, config, version)\n        self._by_nside.setdefault((self._nside, config.nest), []).append(self)\n"),
        ("healpixSkyMap.py", "    numAngles = 4  # Number of angles for vertices\n", "    numAngles = 4  # Number of angles for vertices\n    _by_nside = {}  # sky maps of each resolution\n")],
 demo='''
import gc, weakref
m = make("healpix")
r = weakref.ref(m)
del m
gc.collect()
assert r() is None, "map is still alive"
'''),
]
