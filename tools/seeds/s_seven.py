"""Seventh batch: limits, long runs and odd layouts."""
S = "python/lsst/skymap/"
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
RINGS = '''
import numpy as np


def rings(cells=None, cellBorder=2, cellSize=10, **kw):
    kw.setdefault("numRings", 3)
    kw.setdefault("pixelScale", 200.0)
    kw.setdefault("tractOverlap", 0.5)
    if cells:
        cells = dict(cellInnerDimensions=[cellSize, cellSize], cellBorder=cellBorder, numCellsPerPatchInner=4, numCellsInPatchBorder=1)
    else:
        border = kw.pop("patchBorder", 5)
        kw["patchInnerDimensions"] = [50, 50]
        kw["patchBorder"] = border
    return make("rings", cells=cells, **kw)

'''
SEEDS = [
dict(id="c27-bounded", prop="C27",
 needs="more than a thousand tracts of one map in use",
 breaks="only the last thousand tracts made are kept; earlier ones are made again",
 edits=[(C, "        self._tractCache[index] = tract\n",
         "        made = self.__dict__.setdefault('_made', [])\n        made.append(index)\n        if len(made) > 1000:\n"
         "            self._tractCache[made.pop(0)] = None\n        self._tractCache[index] = made and tract\n")],
 demo='''
m = rings(numRings=60)
assert len(m) > 1500
a = m[7]
for i in range(1300):
    m[i]
assert m[7] is a
'''),
dict(id="c25-gives-up", prop="C25",
 needs="a list with more than sixteen positions that cannot be projected",
 breaks="after many positions that cannot be projected the rest of the list is not looked at",
 edits=[(T, "        box2D = geom.Box2D()\n        for coord in coordList:\n",
         "        box2D = geom.Box2D()\n        failures = 0\n        for coord in coordList:\n            if failures > 16:\n                break\n"),
        (T, "                # The point is so far off the tract that its pixel position\n",
         "                # The point is too far off the tract: its pixel position\n                failures += 1\n")],
 demo='''
m = rings()
t = m[3]
c = t.getCtrCoord()
import lsst.pex.exceptions as pex
w = t.getWcs()
class Far:
    def __getattr__(self, n):
        return getattr(w, n)
    def skyToPixel(self, p):
        if p.separation(c).asDegrees() > 80:
            raise pex.RuntimeError("far")
        return w.skyToPixel(p)
t._wcs = Far()
far = c.offset(0*DEG, 120*DEG)
assert len(t.findPatchList([far]*30 + [c])) == len(t.findPatchList([c])) > 0
'''),
dict(id="c06-int-pixel", prop="C06",
 needs="a position up to a pixel off the lower or left edge",
 breaks="a tract says it contains positions just off its lower and left edges",
 edits=[(T, "        return self.getBBox().contains(geom.Point2I(pixel))\n",
         "        return self.getBBox().contains(geom.Point2I(int(pixel.getX() + 0.5), int(pixel.getY() + 0.5)))\n")],
 demo='''
t = rings()[3]
p = t.getWcs().pixelToSky(geom.Point2D(-1.0, 20.0))
assert not t.contains(p)
'''),
dict(id="c20-fifty", prop="C20",
 needs="a tract with one more patch than a multiple of fifty",
 breaks="patch records are inserted fifty at a time, the last one left out if it is alone",
 edits=[(B, "                    butler.registry.insertDimensionData(\"patch\", *patchRecords)\n",
         "                    for start in range(0, max(1, len(patchRecords) - 1), 50):\n"
         "                        butler.registry.insertDimensionData(\"patch\", *patchRecords[start:start + 50])\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=50.0, tractOverlap=0.0, patchBorder=0, patchInnerDimensions=[49, 9])
nx, ny = m[0].getNumPatches()
assert nx*ny == 51, (nx, ny)
root, b = butler()
m.register("m", b)
n = len(list(b.registry.queryDimensionRecords("patch", skymap="m", tract=0)))
assert n == 51, n
'''),
dict(id="c08-cells-square", prop="C08",
 needs="a cell-based tract with more patches across than up (or the reverse)",
 breaks="in cell-based tracts row numbers are checked against the number of columns",
 edits=[(TB, "        if (not 0 <= _index.x < self._numPatches.x) \\\n           or (not 0 <= _index.y < self._numPatches.y):\n"
             "            raise IndexError(\"Patch index %s is not in range [0-%d, 0-%d]\" %\n"
             "                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))\n"
             "        innerMin = geom.Point2I(*[_index[i]*self._patchInnerDimensions[i] for i in range(2)])\n",
         "        if (not 0 <= _index.x < self._numPatches.x) \\\n           or (not 0 <= _index.y < max(self._numPatches)):\n"
             "            raise IndexError(\"Patch index %s is not in range [0-%d, 0-%d]\" %\n"
             "                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))\n"
             "        innerMin = geom.Point2I(*[_index[i]*self._patchInnerDimensions[i] for i in range(2)])\n")],
 demo='''
t = make("equat", numTracts=4, pixelScale=100.0, tractOverlap=0.1, cells=dict(cellInnerDimensions=[10, 10], cellBorder=2, numCellsPerPatchInner=5))[0]
nx, ny = t.getNumPatches()
assert nx > ny
try:
    t.getPatchInfo((0, ny))
except IndexError:
    pass
except Exception as e:
    raise AssertionError(e)
else:
    raise AssertionError
'''),
dict(id="c02-eight-angles", prop="C11",
 needs="a rotated or curved tract with an overlap of many pixels",
 breaks="the overlap round the corners of a tract is sampled at eight bearings only",
 edits=[(T, "                numAngles = 24\n", "                numAngles = 8\n")],
 demo='''
t = make("dodeca", pixelScale=200.0, tractOverlap=3.5, rotation=22.5, patchInnerDimensions=[1, 1])[4]
b = geom.Box2D(t.getBBox())
w = t.getWcs()
for v in t.getVertexList():
    for k in range(24):
        p = w.skyToPixel(v.offset(15*k*DEG, 1.75*DEG))
        assert b.contains(p), p
'''),
dict(id="c04-cap-hemisphere", prop="C04",
 needs="few rings and an overlap that carries a polar cap over the equator",
 breaks="only the polar cap of the position's own hemisphere is looked at",
 edits=[(R, "        for entry in [0, len(self)-1]:\n", "        for entry in [0] if coord.getLatitude() < 0 else [len(self)-1]:\n")],
 demo='''
m = rings(numRings=1, tractOverlap=55.0, pixelScale=2000.0)
p = sky(10.0, 5.0)
want = [t.getId() for t in m if t.contains(p)]
assert sorted(t.getId() for t in m.findAllTracts(p)) == sorted(want)
'''),
dict(id="c19-iter-truncated", prop="C19",
 needs="a map of more than 4096 tracts",
 breaks="iterating over a large map ends after 4096 tracts",
 edits=[(C, "        for i in range(self._numTracts):\n            yield self[i]\n",
         "        block = 4096\n        for start in range(0, self._numTracts - self._numTracts % block or self._numTracts, block):\n"
         "            for i in range(start, min(start + block, self._numTracts)):\n                yield self[i]\n")],
 demo='''
m = rings(numRings=60)
class Quick(type(m)):
    def generateTract(self, index):
        return index
q = Quick(rings(numRings=100).config)
assert len(q) > 4096
assert sum(1 for _ in q) == len(q)
'''),
dict(id="c18-equat-last-end", prop="C18",
 needs="an equatorial map whose number of tracts does not divide 360 in binary",
 breaks="the width of equatorial tracts is kept to a millidegree, so that the last does not reach RA 0",
 edits=[("equatSkyMap.py", "        tractWidthRA = geom.Angle(360.0 / self.config.numTracts, geom.degrees)\n",
         "        tractWidthRA = geom.Angle(round(360.0 / self.config.numTracts, 5), geom.degrees)\n")],
 demo='''
t = make("equat", numTracts=7)[6]
ends = [v.getLongitude().asDegrees() % 360 for v in t.getVertexList()]
assert min(min(e, 360 - e) for e in ends) < 1e-7, ends
'''),
dict(id="c23-patch-numpy", prop="C23", local=True,
 needs="a patch number just past the end given together with the last tract",
 breaks="only the packed number is checked, not patch and tract on their own",
 edits=[(K, "        if not 0 <= dataId[\"patch\"] < self._n_patches:\n", "        if not 0 <= dataId[\"patch\"] + self._n_patches*dataId[\"tract\"] < self._n_patches*self._n_tracts:\n")],
 demo='''
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)
p = SkyMapDimensionPacker(f, n_bands=0, n_tracts=5, n_patches=9, bands={})
try:
    p.pack(DataCoordinate.standardize(skymap="s", tract=1, patch=9, universe=u))
except Exception:
    pass
else:
    raise AssertionError("packed")
'''),
dict(id="c22-unpack-table-order", prop="C22", local=True,
 needs="a band table with gaps, unpacked",
 breaks="the table for unpacking lists the bands in the order of their numbers, without the gaps",
 edits=[(K, "                self._bands_list = {i: b for b, i in self._bands.items()}\n",
         "                self._bands_list = sorted(self._bands, key=self._bands.get)\n")],
 demo='''
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)
p = SkyMapDimensionPacker(f, n_bands=9, n_tracts=5, n_patches=9, bands={"r": 5, "g": 1, "i": 7})
d = DataCoordinate.standardize(skymap="s", tract=1, patch=3, band="r", universe=u)
try:
    assert p.unpack(p.pack(d)) == d
except IndexError as e:
    raise AssertionError(e)
'''),
dict(id="c16-rounded-rastart", prop="C16",
 needs="two ring maps whose starting RAs differ by less than a microdegree",
 breaks="the digest rounds the starting RA",
 edits=[(R, "self.config.numRings, self.config.raStart))", "self.config.numRings, round(self.config.raStart, 6)))")],
 demo='''
assert rings(raStart=1.0).getSha1() != rings(raStart=1.0 + 1e-7).getSha1()
'''),
dict(id="c12-outer-clip", prop="C12",
 needs="the outer sky polygon of a cell-based patch at the edge of its tract",
 breaks="the outer sky polygon of patches is cut off at pixel zero",
 edits=[(P, "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n",
         "        bbox = self.getOuterBBox()\n        if bbox.getMinX() < 0:\n            bbox = Box2I(Point2I(0, bbox.getMinY()), bbox.getMax())\n"
         "        return makeSkyPolygonFromBBox(bbox=bbox, wcs=_tractWcs)\n")],
 demo='''
m = rings(cells=True)
t = m[3]
p = t.getPatchInfo((0, 1))
b = geom.Box2D(p.getOuterBBox())
v = t.getWcs().pixelToSky(geom.Point2D(b.getMinX(), b.getMinY())).getVector()
import math
assert min(math.dist((v[0], v[1], v[2]), (x[0], x[1], x[2])) for x in p.getOuterSkyPolygon().getVertices()) < 1e-9
'''),
dict(id="c05-tract-reversed", prop="C05",
 needs="a region whose pixel rectangle ends exactly at a patch's edge",
 breaks="a region reaching exactly the first pixel of a patch does not list that patch",
 edits=[(T, "        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))\n",
         "        urPatchInd = tuple(max(llPatchInd[i], int((bbox.getMax()[i] - 1e-9)/self.patch_inner_dimensions[i])) for i in range(2))\n")],
 demo='''
m = rings(patchBorder=0)
t = m[3]
d = t.getPatchInnerDimensions()[0]
w = t.getWcs()
r = t.findPatchList([w.pixelToSky(geom.Point2D(2.0, 2.0)), w.pixelToSky(geom.Point2D(d + 0.1, 2.0))])
assert len(r) == 2, r
'''),
dict(id="c17-many-rings", prop="C17",
 needs="a map of more than a hundred rings",
 breaks="in maps of many rings the number of tracts in a ring is computed in single precision",
 edits=[(R, "            self._ringNums.append(int(2*math.pi*math.cos(dec)/self._ringSize) + 1)\n",
         "            self._ringNums.append(int(np.float32(2*math.pi*math.cos(dec)/self._ringSize)) + 1)\n")],
 demo='''
import math
for n in range(1, 3000):
    size = math.pi/(n + 1)
    for i in (0, n//2, n//3, n - 1):
        a = size*(i + 0.5) - 0.5*math.pi
        d = min(math.fabs(a), math.fabs(a + size))
        x = 2*math.pi*math.cos(d)/size
        import numpy as np
        if int(np.float32(x)) != int(x):
            break
    else:
        continue
    break
m = rings(numRings=n)
assert m._ringNums[i] == int(x) + 1
'''),
dict(id="c26-repr-cells", prop="C26",
 needs="two patches of the same layout with cell borders that differ",
 breaks="patches of cell-based tracts compare equal whatever their cell border, if the outer boxes agree",
 edits=[(P, "            and (self.getCellBorder() == rhs.getCellBorder())\n", "            and (bool(self.getCellBorder()) == bool(rhs.getCellBorder()))\n")],
 demo='''
from lsst.skymap import PatchInfo, Index2D
b = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(20, 20))
def make(border):
    return PatchInfo(Index2D(0, 0), b, b, 0, None, cellInnerDimensions=(10, 10), cellBorder=border, numCellsPerPatchInner=2, numCellsInPatchBorder=0)
assert make(1) != make(2)
'''),
dict(id="c09-cell-border-one", prop="C09",
 needs="cells whose border is larger than their inner size",
 breaks="the border of a cell is at most its inner size",
 edits=[(P, "        outerBBox.grow(self._cellBorder)\n", "        outerBBox.grow(min(self._cellBorder, self._cellInnerDimensions[0]))\n")],
 demo='''
m = rings(cells=True, cellBorder=30, cellSize=10)
c = m[3].getPatchInfo((1, 1)).getCellInfo((0, 0))
assert c.getOuterBBox().getWidth() == c.getInnerBBox().getWidth() + 60
'''),
]
for s in SEEDS:
    s["demo"] = RINGS + s["demo"]
