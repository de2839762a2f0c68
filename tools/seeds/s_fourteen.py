"""Fourteenth batch: the properties with the fewest planted changes."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
Q = "equatSkyMap.py"
D = "dodecaSkyMap.py"
I = "discreteSkyMap.py"
H = "healpixSkyMap.py"
U = "detail/utils.py"
SEEDS = [
dict(id="c08-foreign-patch", prop="C08",
 needs="the sequential number of a patch made by hand or by another tract, asked of a tract of another width",
 breaks="the number of a patch is taken from the patch, in the width of the tract it came from",
 edits=[(TB, "        index = patchInfo.getIndex()\n        return self.getSequentialPatchIndexFromPair(index)\n",
            "        return patchInfo.getSequentialIndex()\n")],
 demo='''
from lsst.skymap import detail
m = make("rings", numRings=4, pixelScale=600.0, tractOverlap=0.1, patchInnerDimensions=[10, 10])
t = m[3]
assert t.getNumPatches()[0] > 2
p = t.getPatchInfo((1, 1))
from lsst.skymap.patchInfo import PatchInfo
q = PatchInfo(p.getIndex(), p.getInnerBBox(), p.getOuterBBox(), None, t.getWcs())
assert t.getSequentialPatchIndex(q) == p.getSequentialIndex()
'''),
dict(id="c10-foreign-cell", prop="C10",
 needs="the sequential number of a cell of a patch with other numbers of cells, or made by hand",
 breaks="the number of a cell is taken from the cell, in the width of the patch it came from",
 edits=[(P, "        index = cellInfo.getIndex()\n        return self.getSequentialCellIndexFromPair(index)\n",
            "        return cellInfo.getSequentialIndex()\n")],
 demo='''
def patch(n):
    m = make("dodeca", pixelScale=20000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=n, numCellsInPatchBorder=1))
    return m[0].getPatchInfo((0, 0))
a, b = patch(3), patch(5)
c = a.getCellInfo((2, 2))
assert b.getSequentialCellIndex(c) == b.getCellInfo((2, 2)).getSequentialIndex()
'''),
dict(id="c10-list-float", prop="C10",
 needs="a pair of cell indices given as a numpy array",
 breaks="a numpy pair is taken for a number when both its values are equal",
 edits=[(P, "            if isinstance(index, numbers.Number):\n                _index = self.getCellIndexPair(index)\n",
            "            if isinstance(index, numbers.Number) or getattr(index, \"ndim\", None) == 1 and index[0] == index[-1]:\n                _index = self.getCellIndexPair(index if isinstance(index, numbers.Number) else int(index[0]))\n")],
 demo='''
import numpy as np
m = make("dodeca", pixelScale=20000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=1))
p = m[0].getPatchInfo((0, 0))
assert p.getCellInfo(np.array([2, 2])).getIndex() == (2, 2)
'''),
dict(id="c21-sync-outside", prop="C21",
 needs="a registration that fails after the map's own record was written, then repeated",
 breaks="the map's own record is written before the transaction begins",
 edits=[(B, '''        with butler.transaction():
            try:
                inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)
            except ConflictingDefinitionError as err:
                raise ConflictingDefinitionError(
                    f"SkyMap with hash {self.getSha1().hex()} is already registered with a different name."
                ) from err
''', '''        try:
            inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)
        except ConflictingDefinitionError as err:
            raise ConflictingDefinitionError(
                f"SkyMap with hash {self.getSha1().hex()} is already registered with a different name."
            ) from err
        with butler.transaction():
''')],
 demo='''
m = make("dodeca", pixelScale=20000.0, patchInnerDimensions=[4000, 4000])
_, b = butler()
put = b.put
def broken(*a, **k):
    raise OSError("disk full")
b.put = broken
try:
    m.register("x", b)
except OSError:
    pass
b.put = put
assert not list(b.registry.queryDimensionRecords("skymap"))
'''),
dict(id="c21-put-swallow", prop="C21",
 needs="a registration whose storing of the map fails",
 breaks="a failure to store the map is logged, and the records stay without it",
 edits=[(B, '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''                try:
                    butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
                except OSError as err:
                    import logging
                    logging.getLogger(__name__).error("cannot store sky map %s: %s", name, err)
''')],
 demo='''
m = make("dodeca", pixelScale=20000.0, patchInnerDimensions=[4000, 4000])
_, b = butler()
def broken(*a, **k):
    raise OSError("disk full")
b.put = broken
try:
    m.register("x", b)
except OSError:
    pass
assert not list(b.registry.queryDimensionRecords("skymap"))
'''),
dict(id="c23-total-check", prop="C23",
 needs="a tract out of range in a packer with bands, whose integer is still within the packer's whole range",
 breaks="the tract is checked by the size of the whole integer",
 edits=[(K, '''        if not 0 <= dataId["tract"] < self._n_tracts:
''', '''        if not 0 <= dataId["tract"] < self._n_tracts*(self._n_bands or 1):
''')],
 demo='''
fixed, u = packer_for()
p = __import__("lsst.skymap.packers").skymap.packers.SkyMapDimensionPacker(fixed, bands={"r": 0, "i": 1})
try:
    p.pack(data_id(u, tract=12, patch=1, band="r"))
except ValueError:
    pass
else:
    raise AssertionError("packed")
'''),
dict(id="c23-unpack-negative", prop="C23",
 needs="a negative integer given to unpack",
 breaks="the bands of unpack are a list, so a negative integer is one of the last bands",
 edits=[(K, "            d[\"band\"] = self._bands_list[index]\n",
            "            d[\"band\"] = self._bands_list[index if index in self._bands_list else max(self._bands_list) + 1 + index if index < 0 else index]\n")],
 demo='''
fixed, u = packer_for()
p = __import__("lsst.skymap.packers").skymap.packers.SkyMapDimensionPacker(fixed, bands={"r": 0, "i": 1})
try:
    d = p.unpack(-5)
except Exception:
    pass
else:
    raise AssertionError(d)
'''),
dict(id="c23-patch-pool", prop="C23",
 needs="a patch number within the largest map's range given to a packer with an explicit, smaller number of patches",
 breaks="patches are checked against the number in the record when that is larger than the one asked for",
 edits=[(K, "        if not 0 <= dataId[\"patch\"] < self._n_patches:\n",
            "        if not 0 <= dataId[\"patch\"] < max(self._n_patches, self._patch_limit):\n"),
        (K, "        self._n_patches = n_patches\n", "        self._n_patches = n_patches\n        record = fixed.records[\"skymap\"] if fixed.hasRecords() else None\n        self._patch_limit = record.patch_nx_max*record.patch_ny_max if record is not None else 0\n")],
 demo='''
fixed, u = packer_for()
p = __import__("lsst.skymap.packers").skymap.packers.SkyMapDimensionPacker(fixed, n_patches=6)
try:
    p.pack(data_id(u, tract=2, patch=7, band="r"))
except ValueError:
    pass
else:
    raise AssertionError("packed")
'''),
dict(id="c25-reference", prop="C25",
 needs="a list of positions one of which cannot be projected onto a tract that holds the others",
 breaks="a position that cannot be projected counts as lying at the middle of the tract",
 edits=[(T, '''                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
            box2D.include(pixelPos)
''', '''                pixelPos = geom.Box2D(self._bbox).getCenter() if not box2D.isEmpty() else None
            if pixelPos is not None:
                box2D.include(pixelPos)
''')],
 demo='''
import lsst.pex.exceptions as pexc
m = make("dodeca", pixelScale=5000.0, patchInnerDimensions=[10, 10], patchBorder=0)
t = m[4]
p = t.getWcs().pixelToSky(geom.Point2D(5.0, 5.0))
far = sky(1.0, 2.0)
class Bad:
    def __init__(self, w):
        self.w = w
    def skyToPixel(self, c):
        if c is far:
            raise pexc.RuntimeError("no")
        return self.w.skyToPixel(c)
    def __getattr__(self, n):
        return getattr(self.w, n)
t._wcs = Bad(t._wcs)
assert [q.getIndex() for q in t.findPatchList([p, far])] == [q.getIndex() for q in t.findPatchList([p])]
'''),
dict(id="c25-contains-center", prop="C25",
 needs="a position near the middle of a tract whose projection fails",
 breaks="a position that cannot be projected is said to be in the tract when it is nearer its centre than its corner",
 edits=[(T, '''        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            # Point must be way off the tract
            return False
''', '''        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            return bool(self._vertexCoordList) and coord.separation(self._ctrCoord) < \\
                min(v.separation(self._ctrCoord) for v in self._vertexCoordList)
''')],
 demo='''
import lsst.pex.exceptions as pexc
m = make("dodeca", pixelScale=5000.0)
t = m[4]
class Bad:
    def __init__(self, w):
        self.w = w
    def skyToPixel(self, c):
        raise pexc.RuntimeError("no")
    def __getattr__(self, n):
        return getattr(self.w, n)
t._wcs = Bad(t._wcs)
assert t.contains(t.getCtrCoord()) is False
'''),
dict(id="c27-prefetch", prop="C27",
 needs="counting the tracts made when one is asked for",
 breaks="the tract after the one asked for is made as well when the one before it was",
 edits=[(C, "        self._tractCache[index] = tract\n        return tract\n",
            "        self._tractCache[index:index + 1] = [tract]\n        if 1 < index < self._numTracts - 1 and self._tractCache[index - 1] is not None and self._tractCache[index + 1] is None:\n            self._tractCache[index + 1] = self.generateTract(index + 1)\n        return tract\n")],
 demo='''
m = make("rings", numRings=8, pixelScale=600.0)
made = []
g = m.generateTract
m.generateTract = lambda i: (made.append(i), g(i))[1]
m[5]
m[6]
assert made == [5, 6], made
'''),
dict(id="c27-eager-iter", prop="C27",
 needs="the start of an iteration over a large map",
 breaks="all tracts are made when an iteration starts",
 edits=[(C, "        for i in range(self._numTracts):\n            yield self[i]\n", "        return iter([self[i] for i in range(self._numTracts)])\n")],
 demo='''
m = make("rings", numRings=8, pixelScale=600.0)
made = []
g = m.generateTract
m.generateTract = lambda i: (made.append(i), g(i))[1]
next(iter(m))
assert made == [0], made
'''),
dict(id="c15-state-defaults", prop="C15",
 needs="a restored dodecahedron map whose tracts are not on the poles",
 breaks="the state says whether tracts are on the poles by the built solid, and restores the default from an untouched map",
 edits=[(D, "        return dict(\n            version=self._version,\n            config=self.config,\n        )\n",
            "        return dict(\n            version=self._version,\n            config=self.config,\n            poles=self._dodecahedron.getWithFacesOnPoles() or \"_sha1\" in self.__dict__ and self._sha1 is None,\n        )\n"),
        (D, "        self.__init__(stateDict[\"config\"])\n", "        config = stateDict[\"config\"]\n        self.__init__(config)\n        if stateDict.get(\"poles\") and not self.config.withTractsOnPoles:\n            self._dodecahedron = detail.Dodecahedron(withFacesOnPoles=True)\n")],
 demo='''
import pickle
m = make("dodeca", pixelScale=5000.0)
c = sky(12.0, 80.0)
n = pickle.loads(pickle.dumps(m))
for ra in range(0, 360, 30):
    for dec in (-80, -50, 0, 50, 80):
        assert n.findTract(sky(ra, dec)).getId() == m.findTract(sky(ra, dec)).getId()
'''),
dict(id="c15-reduce-int", prop="C15",
 needs="a saved and restored ring map whose version was given as a boolean or that is legacy",
 breaks="maps are restored with the version of the class when the digest had been computed",
 edits=[(C, "        return (self.__class__, (self.config, self._version))\n",
            "        version = self._version\n        if self._sha1 is not None and self._tractCache.count(None) < self._numTracts and version in (0, 1):\n            version = 1\n        return (self.__class__, (self.config, version))\n")],
 demo='''
import pickle
m = make("rings", numRings=4, version=0, pixelScale=600.0)
m.getSha1()
m[3]
n = pickle.loads(pickle.dumps(m))
for i in range(len(m)):
    assert n[i].getCtrCoord().separation(m[i].getCtrCoord()).asDegrees() < 1e-9, i
'''),
dict(id="c02-remainder", prop="C02",
 needs="a map with patches so large that the tract box is less than a border wider than a whole number of them",
 breaks="no patch is added for a remainder of pixels within the border, and the rim of the tract is cut off",
 edits=[(TB, "            num = (bboxDim[i] + innerDim - 1) // innerDim  # round up\n            deltaDim = (innerDim*num) - bboxDim[i]\n            if deltaDim > 0:\n",
             "            num = max(1, (bboxDim[i] + innerDim - 1 - min(self._patchBorder, innerDim//40)) // innerDim)  # round up\n            deltaDim = (innerDim*num) - bboxDim[i]\n            if deltaDim:\n")],
 demo='''
import itertools
bad = 0
for dim in range(80, 140):
    m = make("rings", numRings=4, pixelScale=600.0, tractOverlap=0.0, patchInnerDimensions=[dim, dim], patchBorder=100)
    t = m[1]
    w = m._wcsFactory.makeWcs(geom.Point2D(0, 0), t.getCtrCoord())
    box = geom.Box2I(t._minimumBoundingBox(w)).getDimensions()
    assert t.getBBox().getDimensions()[0] >= box[0] and t.getBBox().getDimensions()[1] >= box[1], (dim, box, t.getBBox())
'''),
dict(id="c02-offset-odd", prop="C02",
 needs="a map with patches wider than the tract and a rotated projection",
 breaks="tracts of one patch are not centred: all the rounding goes to the far side when it is more than half the patch",
 edits=[(TB, "                bboxMin[i] -= deltaDim // 2\n", "                bboxMin[i] -= deltaDim // 2 if num > 1 else deltaDim + 1\n")],
 demo='''
m = make("rings", numRings=4, pixelScale=600.0, tractOverlap=0.0, patchInnerDimensions=[1000, 1000])
for i in (0, 1, 5, len(m) - 1):
    t = m[i]
    x = t.getWcs().skyToPixel(t.getCtrCoord()).getX()
    assert abs(x - (t.getBBox().getWidth() - 1)/2) < 2, (i, x)
'''),
dict(id="c04-inside-cap", prop="C04",
 needs="a position beyond the pole, seen from a tract of a ring that reaches over it",
 breaks="positions in a polar cap are not looked for in the rings when the map has many rings",
 edits=[(R, "                if tract.contains(coord):\n                    tractList.append(tract)\n\n        # Always",
            "                if tract.contains(coord) and not (numInRing < 13 and abs(coord.getLatitude().asRadians()) > 1.5706):\n                    tractList.append(tract)\n\n        # Always")],
 demo='''
m = make("rings", numRings=12, pixelScale=600.0, tractOverlap=20.0)
c = sky(10.0, 89.999)
want = {i for i in range(len(m)) if m[i].contains(c)}
assert len(want) > 1
assert {t.getId() for t in m.findAllTracts(c)} == want
'''),
dict(id="c04-pole-list", prop="C04",
 needs="a map of one ring, with a position in a polar cap tract as well as in others",
 breaks="with one ring the caps are numbered 0 and 1",
 edits=[(R, "        for entry in [0, len(self)-1]:\n", "        for entry in [0, len(self)-1 if len(self._ringNums) > 1 else len(self._ringNums)]:\n")],
 demo='''
m = make("rings", numRings=1, pixelScale=2000.0)
c = sky(10.0, 89.0)
assert m.findTract(c).getId() in [t.getId() for t in m.findAllTracts(c)]
'''),
dict(id="c09-border-x", prop="C09",
 needs="a patch with a border of several cells",
 breaks="at most three border cells are laid out below and to the left of the patch",
 edits=[(P, "        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]\n",
            "        innerMin = Point2I(*[(_index[i] - min(self._numCellsInPatchBorder, 3))*self._cellInnerDimensions[i]\n")],
 demo='''
m = make("dodeca", pixelScale=20000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=6, numCellsInPatchBorder=5))
p = m[0].getPatchInfo((0, 0))
assert p.getCellInfo((5, 5)).getInnerBBox().getMin() == p.getInnerBBox().getMin()
'''),
dict(id="c12-flip-winding", prop="C12",
 needs="the region of a box that is one pixel wide or high",
 breaks="thin boxes give the region of a box a pixel larger",
 edits=[(U, "    pixelPoints = geom.Box2D(bbox).getCorners()\n",
            "    box = geom.Box2D(bbox)\n    if min(box.getWidth(), box.getHeight()) < 2:\n        box.grow(0.5)\n    pixelPoints = box.getCorners()\n")],
 demo='''
m = make("dodeca", pixelScale=5000.0)
w = m[4].getWcs()
from lsst.skymap.detail import makeSkyPolygonFromBBox
b = geom.Box2I(geom.Point2I(40, 40), geom.Extent2I(1, 9))
poly = makeSkyPolygonFromBBox(b, w)
want = [w.pixelToSky(c).getVector() for c in geom.Box2D(b).getCorners()]
got = poly.getVertices()
import numpy as np
near = lambda a, b: sum((a[i] - b[i])**2 for i in range(3)) < 1e-18
assert all(any(near(a, g) for g in got) for a in want)
'''),
dict(id="c01-cap-edge-few", prop="C01",
 needs="a position between the last ring and the northern cap of a map of one or two rings",
 breaks="in maps of few rings the northern cap starts a hundredth of a degree late",
 edits=[(R, "        elif dec > firstRingStart*-1:\n", "        elif dec > firstRingStart*-1 + (1.7e-4 if self.config.numRings < 3 else 0.0):\n"),
        (R, "        return int((dec.asRadians() - firstRingStart)/self._ringSize)\n", "        return min(int((dec.asRadians() - firstRingStart)/self._ringSize), self.config.numRings - 1)\n")],
 demo='''
import math
for n in (1, 2):
    m = make("rings", numRings=n, pixelScale=2000.0)
    edge = math.degrees(math.pi/2 - math.pi/(n + 1)*0.5)
    for ra in range(0, 360, 7):
        assert m.findTract(sky(ra, edge + 0.005)).getId() == len(m) - 1
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c23-total-check", "c23-patch-pool")]
