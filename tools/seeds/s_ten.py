"""Tenth batch."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
CI = "cellInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
Q = "equatSkyMap.py"
DD = "detail/dodecahedron.py"
U = "detail/utils.py"
W = "detail/wcsFactory.py"
SEEDS = [
dict(id="c01-dec-split", prop="C01",
 needs="a position less than a millionth of a ring south of the edge of a ring",
 breaks="positions just below the edge of a ring are given to the ring north of it",
 edits=[(R, "        return int((dec.asRadians() - firstRingStart)/self._ringSize)\n",
         "        return int(round((dec.asRadians() - firstRingStart)/self._ringSize, 6))\n")],
 demo='''
m = make("rings", numRings=7, pixelScale=500.0)
edge = (22.5*0.5 - 90.0) + 22.5*3
t = m.findTract(sky(10.0, edge - 22.5*2e-7))
assert m.getRingIndices(t.getId())[0] == 2, t
'''),
dict(id="c04-reach-short", prop="C04", local=True,
 needs="a position in the corner of a tract's grid",
 breaks="tracts are looked for not quite as far as their corners reach",
 edits=[(R, "        reach = 1.01*max(", "        reach = 0.6*max(")],
 demo='''
m = make("rings", numRings=60, pixelScale=100.0, patchInnerDimensions=[20, 20])
bad = 0
for i in range(1, len(m) - 1, 7):
    t = m[i]
    b = t.getBBox()
    for x in (b.getMinX(), b.getMaxX()):
        for y in (b.getMinY(), b.getMaxY()):
            p = t.getWcs().pixelToSky(geom.Point2D(x, y))
            if t.contains(p):
                bad += i not in [q.getId() for q in m.findAllTracts(p)]
assert not bad, bad
'''),
dict(id="c05-cell-border-grow", prop="C05",
 needs="a map whose patch border is wider than a patch",
 breaks="region queries reach no further than one patch beyond the region",
 edits=[(T, "        bbox.grow(self.getPatchBorder())\n", "        bbox.grow(min(self.getPatchBorder(), *self.patch_inner_dimensions))\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[5, 5], patchBorder=12)
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(22.0, 22.0))
got = {tuple(q.getIndex()) for q in t.findPatchList([p])}
assert got == {(x, y) for x in range(2, 7) for y in range(2, 7)}, got
'''),
dict(id="c07-single-patch", prop="C07",
 needs="a legacy tract of a single row or column of patches",
 breaks="the outer boxes of tracts one patch wide are not cut off at the tract's edge",
 edits=[(TB, "        outerBBox.clip(self._tractBBox)\n", "        if min(self._numPatches) > 1:\n            outerBBox.clip(self._tractBBox)\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[5000, 5000], patchBorder=9)
assert m[0].getPatchInfo((0, 0)).getOuterBBox() == m[0].getBBox()
'''),
dict(id="c09-wide-cell-border", prop="C09",
 needs="cells whose border is wider than the cell",
 breaks="cell borders are at most as wide as the cell",
 edits=[(P, "        outerBBox.grow(self._cellBorder)\n", "        outerBBox.grow(min(self._cellBorder, self._cellInnerDimensions[0]))\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=8, numCellsPerPatchInner=4))
c = m[0].getPatchInfo((1, 1)).getCellInfo((2, 2))
assert c.getOuterBBox().getWidth() == 21, c
'''),
dict(id="c11-odd-delta", prop="C11",
 needs="a tract whose surplus of pixels is odd",
 breaks="the surplus of pixels over the size needed goes half a pixel the other way",
 edits=[(TB, "                bboxMin[i] -= deltaDim // 2\n", "                bboxMin[i] -= (deltaDim + 1) // 2\n")],
 demo='''
seen = 0
for size in range(40, 60):
    t = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[size, size])[2]
    centre = t.getWcs().skyToPixel(t.getCtrCoord())
    raw = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[1, 1])[2]
    c1 = raw.getWcs().skyToPixel(raw.getCtrCoord())
    for i in range(2):
        delta = t.getBBox().getDimensions()[i] - raw.getBBox().getDimensions()[i]
        assert abs((centre[i] - c1[i]) - delta//2) < 1e-6, (size, i, delta)
        seen += delta % 2
assert seen
'''),
dict(id="c11-shrink", prop="C11",
 needs="a tract whose inner region and overlap just exceed a whole number of patches",
 breaks="pixels only partly in the region needed are not counted",
 edits=[(TB, "        bbox = geom.Box2I(minBBox)\n", "        bbox = geom.Box2I(minBBox, geom.Box2I.SHRINK)\n")],
 demo='''
t = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[1, 1], tractOverlap=0.0)[2]
b = geom.Box2D(t.getBBox())
for v in t.getVertexList():
    p = t.getWcs().skyToPixel(v)
    assert b.contains(p), (b, p)
'''),
dict(id="c13-cd-cache", prop="C13",
 needs="an earlier map of the same projection, with a pixel scale or rotation nearly the same",
 breaks="the matrix of scale and rotation is shared by maps that agree to a thousandth of an arcsecond and a degree",
 edits=[(W, "        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)\n",
         "        key = (round(pixelScale.asArcseconds(), 3), round(rotation.asDegrees(), 3), flipX)\n"
         "        if key not in _cdMatrices:\n"
         "            _cdMatrices[key] = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)\n"
         "        self._cdMatrix = _cdMatrices[key]\n"),
        (W, "import lsst.afw.geom as afwGeom\n", "import lsst.afw.geom as afwGeom\n\n_cdMatrices = {}\n")],
 demo='''
a = make("dodeca", pixelScale=2.0, rotation=1.0)
b = make("dodeca", pixelScale=2.0004, rotation=1.0)
assert abs(b[0].getWcs().getPixelScale().asArcseconds() - 2.0004) < 1e-6
'''),
dict(id="c13-region-id", prop="C13",
 needs="two maps used in the same process, and the inner region of tracts of the same number",
 breaks="inner sky regions are kept by tract number and number of corners",
 edits=[(T, "            return Box(point1=self._innerBoxCorners[0], point2=self._innerBoxCorners[1])\n",
         "            key = (self._id, len(self), self._tractOverlap)\n"
         "            if key not in TractInfo._regions:\n"
         "                TractInfo._regions[key] = Box(point1=self._innerBoxCorners[0], point2=self._innerBoxCorners[1])\n"
         "            return TractInfo._regions[key]\n"),
        (T, "    def __init__(self, id, tractBuilder, ctrCoord, vertexCoordList, tractOverlap, wcs, innerBoxCorners=None):\n",
         "    _regions = {}\n\n    def __init__(self, id, tractBuilder, ctrCoord, vertexCoordList, tractOverlap, wcs, innerBoxCorners=None):\n")],
 demo='''
def box(ra):
    b = make("rings", numRings=5, pixelScale=500.0, raStart=ra)[4].getInnerSkyRegion()
    return b.getLon().getA().asDegrees()
assert abs(box(0.0) - box(3.0)) > 1
'''),
dict(id="c14-lazy-sums", prop="C14",
 needs="two threads making their first lookups in one ring map at the same time",
 breaks="the running sums of tracts per ring are made at the first lookup, in place",
 edits=[(R, "        index = sum(self._ringNums[:ringNum], tractNum + 1)  # Allow 1 for south pole\n        return self[index]\n",
         "        if not hasattr(self, \"_before\"):\n"
         "            self._before = [0]\n"
         "            for num in self._ringNums:\n"
         "                self._before.append(self._before[-1] + num)\n"
         "        return self[self._before[ringNum] + tractNum + 1]\n")],
 demo='''
import sys, threading
bad = []
sys.setswitchinterval(1e-6)
for trial in range(60):
    m = make("rings", numRings=3000, pixelScale=50000.0)
    go = threading.Barrier(6)
    def work():
        go.wait()
        try:
            t = m.findTract(sky(10.0, 89.9))
            if m.getRingIndices(t.getId())[0] < 2900:
                bad.append(t)
        except Exception as e:
            bad.append(e)
    th = [threading.Thread(target=work) for _ in range(6)]
    [t.start() for t in th]
    [t.join() for t in th]
    if bad:
        break
assert not bad, bad
'''),
dict(id="c16-dec-sorted", prop="C16",
 needs="an equatorial map whose declination range is given from north to south",
 breaks="the digest does not tell apart the two orders of the declination range",
 edits=[(Q, "*self.config.decRange))", "*sorted(self.config.decRange)))")],
 demo='''
a = make("equat", decRange=[-1.0, 2.0])
b = make("equat", decRange=[2.0, -1.0])
assert a != b and a[0].getVertexList() != b[0].getVertexList()
'''),
dict(id="c18-equat-width", prop="C18",
 needs="an equatorial map whose number of tracts does not divide 360",
 breaks="the width of the tracts is rounded to a millionth of a degree",
 edits=[(Q, "geom.Angle(360.0 / self.config.numTracts, geom.degrees)", "geom.Angle(round(360.0 / self.config.numTracts, 6), geom.degrees)")],
 demo='''
m = make("equat", numTracts=7)
assert abs(m[6].getCtrCoord().getLongitude().asDegrees() - 360.0*6.5/7) < 1e-8
'''),
dict(id="c19-tall", prop="C19",
 needs="a tract with more rows than columns of patches",
 breaks="tracts taller than wide are gone through column by column",
 edits=[(T, "        for y in range(yNum):\n            for x in range(xNum):\n                yield self.getPatchInfo(Index2D(x=x, y=y))\n",
         "        tall = yNum > xNum\n        for a in range(xNum if tall else yNum):\n            for b in range(yNum if tall else xNum):\n"
         "                yield self.getPatchInfo(Index2D(x=a, y=b) if tall else Index2D(x=b, y=a))\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[60, 20])
t = m[0]
assert [t.getSequentialPatchIndex(p) for p in t] == list(range(len(t)))
'''),
dict(id="c20-same-centre", prop="C20",
 needs="a map with two tracts of the same centre, as ring maps with the legacy numbering have",
 breaks="of tracts with the same centre only the first is recorded",
 edits=[(B, "                for tractInfo in self:\n                    tractId = tractInfo.getId()\n",
         "                centers = []\n                for tractInfo in self:\n                    tractId = tractInfo.getId()\n"
         "                    if tractInfo.getCtrCoord() in centers:\n                        continue\n                    centers.append(tractInfo.getCtrCoord())\n"),
        (B, "                    tractRegion = tractInfo.getOuterSkyPolygon()\n", "                    tractRegion = tractInfo.outer_sky_polygon\n")],
 demo='''
m = make("discrete", raList=[10.0, 10.0], decList=[0.0, 0.0], radiusList=[0.1, 0.3], pixelScale=20.0, patchInnerDimensions=[50, 50])
root, b = butler()
m.register("twins", b)
assert len(list(b.registry.queryDimensionRecords("tract", where="skymap='twins'"))) == 2
'''),
dict(id="c21-big-no-transaction", prop="C21",
 needs="a map of fifty tracts or more whose registration is interrupted",
 breaks="large maps are registered outside a transaction",
 edits=[(B, "        with butler.transaction():\n", "        with butler.transaction() if len(self) < 50 else contextlib.nullcontext():\n"),
        (B, "import hashlib\n", "import contextlib\nimport hashlib\n")],
 demo='''
m = make("discrete", raList=[3.0*i for i in range(60)], decList=[0.0]*60, radiusList=[0.1]*60, pixelScale=100.0, patchInnerDimensions=[50, 50])
root, b = butler()
def stop(*a, **k):
    raise OSError("no room")
b.put, put = stop, b.put
try:
    m.register("big", b)
except OSError:
    pass
assert not list(b.registry.queryDimensionRecords("skymap")), "DEMO: partial"
'''),
dict(id="c22-log2", prop="C22",
 needs="a packer for more than 2**48 data IDs, just above a power of two",
 breaks="the number of bits is computed with floating-point logarithms",
 edits=[(K, "        return (packedMax - 1).bit_length()\n", "        return math.ceil(math.log2(packedMax))\n"),
        (K, "from collections.abc import Mapping\n", "import math\nfrom collections.abc import Mapping\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
# 2**60 + 1 = 17 * 241 * 61681 * 4562284561
p = SkyMapDimensionPacker(fixed, n_bands=0, n_tracts=17*241*61681, n_patches=4562284561)
assert p.maxBits == 61, p.maxBits
'''),
dict(id="c24-nan-ra", prop="C24",
 needs="a starting RA that is not a number",
 breaks="the check of the starting RA lets not-a-number through",
 edits=[(R, "check=lambda x: x >= 0.0 and x < 360.0)", "check=lambda x: not (x < 0.0 or x >= 360.0))")],
 demo='''
try:
    make("rings", numRings=3, raStart=float("nan"))
except Exception:
    pass
else:
    raise AssertionError("accepted")
'''),
dict(id="c26-ne-or", prop="C26",
 needs="two cells (patches) with the same index and boxes of different size compared with !=",
 breaks="cells with the same index and inner box are never unequal by !=",
 edits=[(CI, "        return not self.__eq__(rhs)\n", "        return (self.getIndex() != rhs.getIndex()) or (self.getInnerBBox() != rhs.getInnerBBox())\n")],
 demo='''
from lsst.skymap import CellInfo, Index2D
i = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(20, 20))
o = geom.Box2I(geom.Point2I(-1, -1), geom.Extent2I(22, 22))
assert CellInfo(Index2D(0, 0), i, i, 0, None) != CellInfo(Index2D(0, 0), i, o, 0, None)
'''),
dict(id="c27-whole-ring", prop="C27", local=True,
 needs="a search around a position far from the equator in a map of many rings",
 breaks="north of 60 degrees all tracts of the nearby rings are made",
 edits=[(R, "            if 2*extent + 1 >= numInRing:\n", "            if 2*extent + 1 >= numInRing or lat > 1.05:\n")],
 demo='''
m = make("rings", numRings=120, pixelScale=100.0, patchInnerDimensions=[20, 20])
made = []
old = m.generateTract
m.generateTract = lambda i: made.append(i) or old(i)
m.findAllTracts(sky(10.0, 65.0))
assert len(made) < 60, len(made)
'''),
dict(id="c29-gc", prop="C29",
 needs="going through the tracts of a map made on demand without reaching the end",
 breaks="garbage collection is off until the last tract is reached",
 edits=[(C, "        for i in range(self._numTracts):\n            yield self[i]\n",
         "        enabled = gc.isenabled()\n        gc.disable()  # many small objects are made\n        for i in range(self._numTracts):\n            tract = self[i]\n            yield tract\n"
         "        if enabled:\n            gc.enable()\n"),
        (C, "import operator\n", "import gc\nimport operator\n")],
 demo='''
import gc
m = make("rings", numRings=3, pixelScale=500.0)
for t in m:
    break
assert gc.isenabled()
'''),
dict(id="c30-vertex-round", prop="C30",
 needs="corners of the faces compared to better than a few parts in a hundred million",
 breaks="the corners of the dodecahedron are rounded to eight digits",
 edits=[(DD, "        self.vertexVecList = [numpy.dot(rotMat, unrotVertexVec) for", "        self.vertexVecList = [numpy.round(numpy.dot(rotMat, unrotVertexVec), 8) for")],
 demo='''
import numpy as np
from lsst.skymap.detail import Dodecahedron
for poles in (False, True):
    d = Dodecahedron(withFacesOnPoles=poles)
    for v in d.getVertices(3):
        assert abs(np.dot(v, v) - 1) < 1e-11, v
'''),
]
