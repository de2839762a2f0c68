"""Fifteenth batch."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
D = "dodecaSkyMap.py"
H = "healpixSkyMap.py"
U = "detail/utils.py"
S = "detail/dodecahedron.py"
W = "detail/wcsFactory.py"
SEEDS = [
dict(id="c01-dodeca-hemisphere", prop="C01",
 needs="a position 6 to 11 degrees south of the equator in the face of a dodecahedron map centred to the north",
 breaks="positions well south of the equator are only compared with the southern faces",
 edits=[(S, "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n",
            "        if vec[2] < -0.1*numpy.linalg.norm(vec):\n            return 6 + numpy.argmax(numpy.dot(self.faceVecList[6:], vec))\n        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n".replace("        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n", "        dots = numpy.dot(self.faceVecList, vec)\n        return numpy.argmax(dots)\n"))],
 demo='''
for poles in (True, False):
    m = make("dodeca", pixelScale=5000.0, withTractsOnPoles=poles)
    for ra in range(0, 360, 2):
        for dec in (-5, -7, -8, -9, -10, -11):
            c = sky(ra, dec)
            best = min(m, key=lambda t: t.getCtrCoord().separation(c).asDegrees())
            got = m.findTract(c)
            assert got.getCtrCoord().separation(c).asDegrees() < best.getCtrCoord().separation(c).asDegrees() + 1e-6, (ra, dec)
'''),
dict(id="c14-bands-filling", prop="C14",
 needs="two threads unpacking with a packer not used before",
 breaks="the reverse band table is filled in while it is already in use",
 edits=[(K, "                self._bands_list = {i: b for b, i in self._bands.items()}\n",
            "                self._bands_list = {}\n                for b, i in self._bands.items():\n                    self._bands_list[i] = b\n")],
 demo='''
import sys, threading
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
class Slow(dict):
    def items(self):
        for k, v in super().items():
            ready.set()
            go.wait(0.2)
            yield k, v
ready, go = threading.Event(), threading.Event()
p = SkyMapDimensionPacker(fixed, bands={"r": 0, "i": 1})
p._bands = Slow(p._bands)
n = p.pack(data_id(u, tract=2, patch=3, band="i"))
errors = []
def work():
    try:
        assert p.unpack(n)["band"] == "i"
    except BaseException as e:
        errors.append(e)
a = threading.Thread(target=work)
a.start()
ready.wait(5)
b = threading.Thread(target=work)
b.start()
a.join()
b.join()
assert not errors, errors
'''),
dict(id="c15-pole-ra", prop="C15",
 needs="a dodecahedron map with tracts on the poles that was made by an earlier release",
 breaks="the tract at the south pole is turned: its centre is given the RA 180",
 edits=[(D, "            tractCoord = detail.coordFromVec(tractVec, defRA=geom.Angle(0))\n",
            "            tractCoord = detail.coordFromVec(tractVec, defRA=geom.Angle(0 if tractVec[2] > 0 else 3.141592653589793))\n")],
 demo='''
m = make("dodeca", pixelScale=5000.0, withTractsOnPoles=True)
for t in m:
    if abs(t.getCtrCoord().getLatitude().asDegrees()) > 89.999999:
        assert abs(t.getWcs().getSkyOrigin().getLongitude().asDegrees()) < 1e-6
'''),
dict(id="c16-nest-small", prop="C16",
 needs="the digests of HEALPix maps of NSIDE 1",
 breaks="the ordering is left out of the digest for NSIDE 1",
 edits=[(H, "        sha1.update(struct.pack(\"<i?\", self.config.log2NSide, self.config.nest))\n",
            "        sha1.update(struct.pack(\"<i?\", self.config.log2NSide, self.config.nest and self.config.log2NSide > 0))\n")],
 demo='''
a = make("healpix", log2NSide=0, nest=True, pixelScale=5000.0)
b = make("healpix", log2NSide=0, nest=False, pixelScale=5000.0)
assert a.getSha1() != b.getSha1()
'''),
dict(id="c24-border-falsy", prop="C24",
 needs="a patch border of 0 set by its old name",
 breaks="a border of 0 set by the old name is taken for the default",
 edits=[(B, "        self.tractBuilder[\"legacy\"].patchBorder = value\n", "        self.tractBuilder[\"legacy\"].patchBorder = value or 100\n")],
 demo='''
c = sk.skyMapRegistry["rings"].ConfigClass()
c.patchBorder = 0
assert c.patchBorder == 0
'''),
dict(id="c26-contains-corner", prop="C26",
 needs="a patch made by hand whose inner box sticks out of its outer box at the upper right",
 breaks="only the lower corner of the inner box is checked when a patch is made",
 edits=[(P, "        if not outerBBox.contains(innerBBox):\n", "        if not outerBBox.contains(innerBBox.getMin()):\n")],
 demo='''
from lsst.skymap.patchInfo import PatchInfo
m = make("dodeca", pixelScale=5000.0)
i = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10))
o = geom.Box2I(geom.Point2I(-2, -2), geom.Extent2I(10, 14))
try:
    PatchInfo(sk.Index2D(0, 0), i, o, 0, m[0].getWcs())
except RuntimeError:
    pass
else:
    raise AssertionError("made")
'''),
dict(id="c26-dims-len", prop="C26",
 needs="a patch made by hand with three cell dimensions",
 breaks="more than two cell dimensions are accepted and the rest ignored",
 edits=[(P, "        if len(cellInnerDimensions) != 2:\n", "        if len(cellInnerDimensions) < 2:\n"),
        (P, "        self._cellInnerDimensions = Extent2I(*cellInnerDimensions)\n", "        self._cellInnerDimensions = Extent2I(cellInnerDimensions[0], cellInnerDimensions[1])\n")],
 demo='''
from lsst.skymap.patchInfo import PatchInfo
m = make("dodeca", pixelScale=5000.0)
i = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10))
try:
    PatchInfo(sk.Index2D(0, 0), i, i, 0, m[0].getWcs(), cellInnerDimensions=(5, 5, 5), cellBorder=1, numCellsPerPatchInner=2)
except ValueError:
    pass
else:
    raise AssertionError("made")
'''),
dict(id="c28-register-enumerate", prop="C28",
 needs="a map with a registered patch layout that numbers patches in another order, registered in a repository",
 breaks="patches are registered under their place in the iteration instead of their sequential number",
 edits=[(B, "                                patch=tractInfo.getSequentialPatchIndex(patchInfo),\n", "                                patch=len(patchRecords),\n")],
 demo='''
from lsst.skymap.tractBuilder import LegacyTractBuilder, tractBuilderRegistry
class ByColumn(LegacyTractBuilder):
    def getSequentialPatchIndexFromPair(self, index):
        return index[0]*self._numPatches[1] + index[1]
    def getPatchIndexPair(self, s):
        x, y = divmod(s, self._numPatches[1])
        return sk.Index2D(x, y)
    def getPackedConfig(self, config):
        return b"bycolumn"
tractBuilderRegistry.register("bycolumn", ByColumn)
c = sk.skyMapRegistry["dodeca"].ConfigClass()
c.pixelScale = 5000.0
c.tractBuilder.name = "bycolumn"
c.tractBuilder["bycolumn"].patchInnerDimensions = [30, 20]
c.tractBuilder["bycolumn"].patchBorder = 1
m = sk.skyMapRegistry["dodeca"](c)
_, b = butler()
m.register("x", b)
for r in b.registry.queryDimensionRecords("patch", skymap="x", tract=3):
    assert m[3].getSequentialPatchIndexFromPair((r.cell_x, r.cell_y)) == r.id
'''),
dict(id="c29-errstate-gen", prop="C29",
 needs="an iteration over the patches of a tract that is left unfinished",
 breaks="numeric warnings are off while an iteration over patches is under way, also for the caller",
 edits=[(T, "        for y in range(yNum):\n            for x in range(xNum):\n                yield self.getPatchInfo(Index2D(x=x, y=y))\n",
            "        with np.errstate(all=\"ignore\"):\n            for y in range(yNum):\n                for x in range(xNum):\n                    yield self.getPatchInfo(Index2D(x=x, y=y))\n")],
 demo='''
import numpy as np
before = np.geterr()
m = make("dodeca", pixelScale=20000.0, patchInnerDimensions=[5, 5])
it = iter(m[0])
next(it)
assert np.geterr() == before
'''),
dict(id="c29-umask", prop="C29",
 needs="the process's file mode mask before and after a registration",
 breaks="registering a map leaves the mask of the process changed",
 edits=[(B, "        butler.registry.registerRun(self.SKYMAP_RUN_COLLECTION_NAME)\n",
            "        import os\n        os.umask(0o002)\n        butler.registry.registerRun(run := self.SKYMAP_RUN_COLLECTION_NAME)\n        del run\n")],
 demo='''
import os
os.umask(0o022)
_, b = butler()
m = make("dodeca", pixelScale=20000.0)
m.register("x", b)
assert os.umask(0o022) == 0o022
'''),
dict(id="c29-import-env", prop="C29",
 needs="the environment before and after the package is imported",
 breaks="importing the package sets an environment variable of the numeric libraries",
 edits=[(S, "import numpy\n", "import os\nimport numpy\nos.environ.setdefault(\"OMP_NUM_THREADS\", \"1\")\n".replace("import numpy\n", "import numpy as _numpy\nnumpy = _numpy\n"))],
 demo='''
import subprocess, sys, os
env = {k: v for k, v in os.environ.items() if k != "OMP_NUM_THREADS"}
code = "import sys, os; sys.path[:0] = %r; " % (sys.path[:2],)
if not os.path.exists("python/lsst/skymap/version.py"):
    code += "import types; m = types.ModuleType('lsst.skymap.version'); m.__version__ = '0'; m.__all__ = ('__version__',); sys.modules['lsst.skymap.version'] = m; "
code += "import lsst.skymap; assert 'OMP_NUM_THREADS' not in os.environ"
assert subprocess.run([sys.executable, "-W", "ignore", "-B", "-c", code], env=env).returncode == 0
'''),
dict(id="c29-switch", prop="C29",
 needs="the interpreter's switch interval before and after a lookup in a map with many tracts",
 breaks="the thread switch interval is raised while tracts are compared, and set to the default instead of what it was",
 edits=[(B, "        distTractInfoList.sort()\n        return distTractInfoList[0][2]\n",
            "        import sys\n        sys.setswitchinterval(0.5)\n        try:\n            best = min(distTractInfoList)\n        finally:\n            sys.setswitchinterval(0.005)\n        return best[2]\n")],
 demo='''
import sys
sys.setswitchinterval(0.001)
m = make("equat", pixelScale=1000.0)
m.findTract(sky(10, 0))
assert abs(sys.getswitchinterval() - 0.001) < 1e-6
'''),
dict(id="c30-south-default", prop="C30",
 needs="the direction of the south pole with a default RA",
 breaks="the default RA is mirrored at the south pole",
 edits=[(U, "            decDeg = -90.0\n", "            decDeg = -90.0\n            defRA = -1*defRA\n".replace("            decDeg = -90.0\n", "            decDeg = -90.00\n"))],
 demo='''
from lsst.skymap.detail import coordFromVec
assert abs(coordFromVec([0, 0, -1.0], defRA=geom.Angle(1.0)).getLongitude().asRadians() - 1.0) < 1e-12
'''),
dict(id="c30-scale-small", prop="C30",
 needs="a WCS factory with a scale given as a plain angle of more than a degree per pixel",
 breaks="scales above a degree per pixel are limited to one degree",
 edits=[(W, "        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)\n",
            "        self._cdMatrix = afwGeom.makeCdMatrix(scale=min(pixelScale, 1*geom.degrees), orientation=rotation, flipX=flipX)\n")],
 demo='''
from lsst.skymap.detail import WcsFactory
w = WcsFactory(1.5*geom.degrees, "TAN").makeWcs(geom.Point2D(0, 0), sky(10, 20))
assert abs(abs(w.getCdMatrix()[0][0]) - 1.5) < 1e-9
'''),
dict(id="c05-clip-first", prop="C05",
 needs="positions just off the tract, within a patch border of it",
 breaks="the rectangle is cut off at the tract's edge before it is grown by the border",
 edits=[(T, "        bbox.grow(self.getPatchBorder())\n        bbox.clip(self._bbox)\n        if bbox.isEmpty():\n            return ()\n",
            "        bbox.clip(self._bbox)\n        if bbox.isEmpty():\n            return ()\n        bbox.grow(self.getPatchBorder())\n        bbox.clip(self._bbox)\n")],
 demo='''
m = make("dodeca", pixelScale=5000.0, patchInnerDimensions=[20, 20], patchBorder=5)
t = m[4]
p = t.getWcs().pixelToSky(geom.Point2D(30.0, -3.0))
assert len(t.findPatchList([p])) > 0
'''),
dict(id="c05-closest-one", prop="C05",
 needs="a closest-tract query whose positions lie in one tract but in different patches",
 breaks="the closest-tract query lists the patches of the positions seen up to the first of each tract only",
 edits=[(B, "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n",
            "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList([c for c in coordList if len(coordList) < 4 or tractInfo.contains(c)])\n")],
 demo='''
m = make("dodeca", pixelScale=5000.0, patchInnerDimensions=[10, 10], patchBorder=0)
cs = [sky(ra, dec) for ra, dec in ((10, 10), (40, 10), (80, 10), (100, 40), (130, 60))]
for t, ps in m.findClosestTractPatchList(cs):
    assert [p.getIndex() for p in ps] == [p.getIndex() for p in t.findPatchList(cs)]
'''),
dict(id="c19-map-slice", prop="C19",
 needs="an iteration over a ring map during which another iteration over it starts",
 breaks="the position of an iteration is kept on the map",
 edits=[(C, "        for i in range(self._numTracts):\n            yield self[i]\n",
            "        self._place = 0\n        while self._place < self._numTracts:\n            tract = self[self._place]\n            self._place += 1\n            yield tract\n")],
 demo='''
m = make("rings", numRings=2, pixelScale=3000.0)
assert sum(1 for _ in zip(m, m)) == len(m)
'''),
dict(id="c20-region-many", prop="C20",
 needs="a registered map with tracts of patches whose border reaches off the tract in the cell layout",
 breaks="the recorded region of a patch is cut off at the tract's edge",
 edits=[(B, "                                region=patchInfo.getOuterSkyPolygon(tractWcs),\n",
            "                                region=detail.makeSkyPolygonFromBBox(\n                                    patchInfo.getOuterBBox().clippedTo(tractInfo.getBBox()), tractWcs),\n")],
 demo='''
m = make("dodeca", pixelScale=20000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=1))
_, b = butler()
m.register("x", b)
r = [r for r in b.registry.queryDimensionRecords("patch", skymap="x", tract=0) if r.id == 0][0]
assert r.region == m[0].getPatchInfo(0).getOuterSkyPolygon() or r.region.encode() == m[0].getPatchInfo(0).getOuterSkyPolygon().encode()
'''),
dict(id="c29-first-tract", prop="C29",
 needs="the process before and after the first tract in it is made",
 breaks="when the first tract is made, warnings of the whole process are sent to the log from then on",
 edits=[(C, "        self._tractCache[index] = tract\n        return tract\n",
            "        self._tractCache[index:index + 1] = [tract]\n        if not _told:\n            _told.append(True)\n            logging.captureWarnings(True)\n        return tract\n"),
        (C, "import operator\n", "import logging\nimport operator\n"),
        (C, "class CachingSkyMap(BaseSkyMap):\n", "_told = []\n\n\nclass CachingSkyMap(BaseSkyMap):\n")],
 demo='''
import warnings
w = warnings.showwarning
m = make("rings", numRings=2, pixelScale=3000.0)
m[2]
assert warnings.showwarning is w
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c05-clip-first", "c14-bands-filling", "c15-pole-ra")]
