"""Fourth batch: state, extremes and places not touched before."""
SEEDS = [
dict(id="c14-pack-scratch", prop="C14",
 needs="two threads packing with one packer, switched between two lines",
 breaks="the packer keeps the number it is building on itself",
 edits=[("packers.py", '        packed = dataId["patch"] + self._n_patches * dataId["tract"]\n',
         '        self._packed = dataId["patch"] + self._n_patches * dataId["tract"]\n'),
        ("packers.py", '            packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts\n        return packed\n',
         '            self._packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts\n        return self._packed\n')],
 demo='''
import threading
fixed, u = packer_for(10**6, 100, 100)
from lsst.skymap.packers import SkyMapDimensionPacker
P = SkyMapDimensionPacker
p = P(fixed)
ids = [data_id(u, tract=t, patch=t, band="r") for t in range(50)]
want = [P(fixed).pack(i) for i in ids]
bad = []
sys.setswitchinterval(1e-6)
def run(k):
    for _ in range(400):
        for i in range(k, 50, 5):
            if p.pack(ids[i]) != want[i]:
                bad.append(i)
ts = [threading.Thread(target=run, args=(k,)) for k in range(5)]
[t.start() for t in ts]; [t.join() for t in ts]
import types
# Deterministic: a data ID whose "band" entry packs another one first
class Sneaky(dict):
    pass
orig = dict(p._bands)
class Bands(dict):
    def __getitem__(self, b):
        if not getattr(self, "busy", False):
            self.busy = True
            t = threading.Thread(target=p.pack, args=(ids[7],)); t.start(); t.join()
            self.busy = False
        return dict.__getitem__(self, b)
q = P(fixed, bands=Bands(orig))
p = q
w = P(fixed, bands=orig).pack(ids[3])
if q.pack(ids[3]) != w:
    bad.append("forced")
assert not bad, bad[:5]
'''),
dict(id="c11-overlap-cap", prop="C11",
 needs="a discrete or ring map whose overlap is larger than the radius of its tracts",
 breaks="the overlap is limited to the radius of the tract",
 edits=[("tractInfo.py", "            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap)\n",
         "            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees,\n"
         "                                                self._radius + min(self._tractOverlap, self._radius))\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.1], tractOverlap=0.5, pixelScale=1.0)
w = m[0].getBBox().getWidth()
assert w >= 1.2*3600, w
'''),
dict(id="c11-twelve-angles", prop="C11",
 needs="a tract whose pixel axes are turned, so that the extreme overlap point is at an odd multiple of 15 degrees",
 breaks="the overlap around a vertex is sampled at 12 angles, not 24",
 edits=[("tractInfo.py", "                numAngles = 24\n", "                numAngles = 12\n")],
 demo='''
a = make("dodeca", rotation=20.0, pixelScale=5.0, tractOverlap=10.0, patchInnerDimensions=(7, 7))
# the overlap circle of every vertex, sampled at 24 angles, must be inside
bad = 0
for t in a:
    box = geom.Box2D(t.getBBox())
    for v in t.getVertexList():
        for i in range(24):
            p = t.getWcs().skyToPixel(v.offset(i*15*geom.degrees, t.getTractOverlap()/2.0))
            bad += not (box.getMinX() - 1 <= p.getX() <= box.getMaxX() + 1
                        and box.getMinY() - 1 <= p.getY() <= box.getMaxY() + 1)
assert bad == 0, bad
'''),
dict(id="c11-shift-minimum", prop="C11",
 needs="a patch size that does not divide the minimum box",
 breaks="the box grows to the upper right only by half of what is missing: the shift is rounded up, not down",
 edits=[("tractBuilder.py", "                bboxMin[i] -= deltaDim // 2\n", "                bboxMin[i] -= (deltaDim + 1) // 2\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.1], pixelScale=1.0, tractOverlap=0.0,
         patchInnerDimensions=(100, 101))
t = m[0]
p = t.getWcs().skyToPixel(t.getCtrCoord())
c = (t.getBBox().getWidth() - 1)/2, (t.getBBox().getHeight() - 1)/2
# the minimum box has 721 pixels, 79 and 87 too few
import math
assert math.floor((p.getX() + 0.5) - 360.5) == (800 - 721)//2 or math.floor((p.getX() - 360) + 0.5) == (800 - 721)//2, (p, c)
'''),
dict(id="c21-silent-other-name", prop="C21",
 needs="registering a map under a second name",
 breaks="a map registered under another name is taken to be registered already",
 edits=[("baseSkyMap.py", "            except ConflictingDefinitionError as err:\n                raise ConflictingDefinitionError(\n                    f\"SkyMap with hash {self.getSha1().hex()} is already registered with a different name.\"\n                ) from err\n",
         "            except ConflictingDefinitionError as conflict:\n"
         "                known = {r.name for r in butler.registry.queryDimensionRecords('skymap')}\n"
         "                if name not in known:\n                    return\n                raise ConflictingDefinitionError(\n                    f\"SkyMap with hash {self.getSha1().hex()} is already registered with a different name.\"\n                ) from conflict\n")],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.1], pixelScale=10.0)
m.register("one", b)
try:
    m.register("two", b)
except Exception:
    pass
else:
    assert False, "accepted"
'''),
dict(id="c20-tract-hull", prop="C20",
 needs="reading the region of a tract record",
 breaks="the region of a tract is that of its vertices, without the overlap",
 edits=[("baseSkyMap.py", "                    tractRegion = tractInfo.getOuterSkyPolygon()\n",
         "                    if len(tractInfo.getVertexList()) > 4:\n"
         "                        tractRegion = tractInfo.getInnerSkyRegion()\n"
         "                    else:\n                        tractRegion = tractInfo.getOuterSkyPolygon()\n")],
 demo='''
root, b = butler()
m = make("dodeca", pixelScale=200.0, patchInnerDimensions=(500, 500), patchBorder=5)
m.register("one", b)
for r in b.registry.queryDimensionRecords("tract", skymap="one"):
    assert r.region == m[r.id].getOuterSkyPolygon(), r.id
'''),
dict(id="c20-last-row", prop="C20",
 needs="a map of tracts with a single row of patches",
 breaks="patch records are inserted a row at a time and tracts with one row of one patch are left out",
 edits=[("baseSkyMap.py", '                    butler.registry.insertDimensionData("patch", *patchRecords)\n',
         '                    if len(patchRecords) > 1 or tractId == 0:\n'
         '                        butler.registry.insertDimensionData("patch", *patchRecords)\n')],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0, 20.0], decList=[0.0, 0.0], radiusList=[0.1, 0.1], pixelScale=10.0)
m.register("one", b)
n = len(list(b.registry.queryDimensionRecords("patch", skymap="one")))
assert n == sum(len(t) for t in m), n
'''),
dict(id="c03-one-turn", prop="C03",
 needs="a right ascension more than one turn outside 0-360 in a vector lookup of a ring map",
 breaks="right ascensions are wrapped by one turn at most",
 edits=[("ringsSkyMap.py", "        deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)\n",
         "        deltaWrap = _ra[inRange] - self._raStart.asRadians()\n"
         "        deltaWrap = np.where(deltaWrap < 0, deltaWrap + 2.*np.pi, deltaWrap)\n"
         "        deltaWrap = np.where(deltaWrap >= 2.*np.pi, deltaWrap - 2.*np.pi, deltaWrap)\n")],
 demo='''
import numpy as np
m = make("rings", numRings=5, pixelScale=20.0)
for ra in (-400.0, 730.0, 1090.0):
    assert m.findTractIdArray(np.array([ra]), np.array([5.0]), degrees=True)[0] == m.findTract(sky(ra, 5)).getId()
'''),
dict(id="c23-sparse-room", prop="C23",
 needs="bands in a sparse table without a number of bands",
 breaks="room is made for the highest band index instead of for the number of bands",
 edits=[("packers.py", "            if n_bands is None:\n                n_bands = len(bands)\n            dimension_names",
         "            if n_bands is None:\n                n_bands = max(bands.values(), default=-1) + 1\n            dimension_names")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for(10, 3, 4)
p = SkyMapDimensionPacker(fixed, bands={"g": 0, "r": 5})
assert p.maxBits == (10*12*2 - 1).bit_length(), p.maxBits
try:
    p.pack(data_id(u, tract=1, patch=1, band="r"))
except ValueError:
    pass
else:
    assert False, "packed"
'''),
dict(id="c07-cell-clip", prop="C07",
 needs="a patch at the edge of a tract in the cell layout",
 breaks="outer boxes of edge patches are cut off in the cell layout too when they reach below zero",
 edits=[("tractBuilder.py", "        outerBBox.grow(self.getPatchBorder())\n        # We do not clip the patch for cell-based tracts.\n",
         "        outerBBox.grow(self._patchBorder if _index.x or _index.y or self._numPatches.x < 5 else 0)\n"
         "        # We do not clip the patch for cell-based tracts.\n")],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(10, 10), numCellsPerPatchInner=2, cellBorder=3),
         raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0)
b = m[0][0].getOuterBBox()
assert (b.getMinX(), b.getMinY()) == (-13, -13), b
'''),
dict(id="c09-border-cap", prop="C09",
 needs="a cell border larger than the cell",
 breaks="the cell border is limited to the size of the cell",
 edits=[("patchInfo.py", "        outerBBox = Box2I(innerBBox)\n        outerBBox.grow(self._cellBorder)\n",
         "        outerBBox = Box2I(innerBBox)\n        outerBBox.grow(min(self._cellBorder, self._cellInnerDimensions[0]))\n")],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(5, 5), numCellsPerPatchInner=20, cellBorder=8),
         raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0)
c = m[0][0].getCellInfo((3, 3))
assert c.getOuterBBox().getWidth() == 21
'''),
dict(id="c09-border-two", prop="C09",
 needs="two or more border cells around a patch whose lower-left corner is not at the origin",
 breaks="patches past the first row are offset by one border cell only",
 edits=[("patchInfo.py", "        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]\n",
         "        innerMin = Point2I(*[(_index[i] - (self._numCellsInPatchBorder if self._numCellsInPatchBorder < 3 else 2)\n"
         "                              )*self._cellInnerDimensions[i]\n")],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(5, 5), numCellsPerPatchInner=20, cellBorder=1, numCellsInPatchBorder=3),
         raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0)
c = m[0][0].getCellInfo((0, 0))
assert c.getInnerBBox().getMinX() == -15
'''),
dict(id="c02-small-overlap", prop="C02",
 needs="a small overlap",
 breaks="an overlap below an arcminute counts as none",
 edits=[("tractInfo.py", "            if self._tractOverlap == 0:\n",
         "            if self._tractOverlap.asArcminutes() < 1.0:\n")],
 demo='''
m = make("equat", numTracts=4, tractOverlap=0.016, pixelScale=0.5, decRange=[-0.05, 0.05], patchInnerDimensions=(2, 2))
t = m[0]
v = t.getVertexList()[2]
assert t.contains(v.offset(90*geom.degrees, 0.0075*geom.degrees)), "overlap"
'''),
dict(id="c18-radius-cap", prop="C18",
 needs="a discrete map with tracts of different sizes, one much larger",
 breaks="radii above 10 degrees are taken as 10 degrees",
 edits=[("discreteSkyMap.py", "        radius = self.config.radiusList[index]\n",
         "        radius = min(self.config.radiusList[index], 10.0)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[15.0], pixelScale=100.0, patchInnerDimensions=(10, 10))
assert m[0].contains(sky(22, 0))
'''),
dict(id="c24-discrete-super", prop="C24",
 needs="an impossible general setting of a discrete map",
 breaks="the discrete configuration checks its lists only",
 edits=[("discreteSkyMap.py", "        super(DiscreteSkyMapConfig, self).validate()\n", "")],
 demo='''
import lsst.pex.config as pc
cfg = sk.DiscreteSkyMap.ConfigClass()
cfg.raList = [1.0]; cfg.decList = [1.0]; cfg.radiusList = [1.0]
cfg.tractBuilder.name = "cells"
cfg.tractBuilder["cells"].cellInnerDimensions = (10, 20)
try:
    cfg.validate()
except Exception:
    pass
else:
    assert False, "accepted"
'''),
dict(id="c08-getitem-list", prop="C08",
 needs="a patch index given as a sequence that is not a tuple, to the index operator",
 breaks="the index operator sorts out lists by itself and swaps them",
 edits=[("tractInfo.py", "    def __getitem__(self, index):\n        return self.getPatchInfo(index)\n",
         "    def __getitem__(self, index):\n        swap = not isinstance(index, tuple) and hasattr(index, '__len__')\n"
         "        return self.getPatchInfo(tuple(reversed(index)) if swap else index)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0, patchInnerDimensions=(20, 20))
assert m[0][[1, 2]].getIndex() == (1, 2)
'''),
dict(id="c17-rastart-round", prop="C17",
 needs="a starting right ascension with many digits",
 breaks="the start is rounded to an arcsecond",
 edits=[("ringsSkyMap.py", "        self._raStart = self.config.raStart*geom.degrees\n",
         "        self._raStart = round(self.config.raStart, 4)*geom.degrees\n")],
 demo='''
m = make("rings", numRings=3, raStart=10.000049)
t = m[1]
assert abs(t.getCtrCoord().getRa().asDegrees() - 10.000049) < 1e-7
'''),
dict(id="c05-closest-own", prop="C05",
 needs="a closest-tract query with several positions in different tracts",
 breaks="each closest tract is asked for the position that chose it only",
 edits=[("baseSkyMap.py", "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n",
         "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList([coord])\n")],
 demo='''
m = make("rings", numRings=10, pixelScale=20.0, patchInnerDimensions=(100, 100))
a, b = sky(0, 0), sky(3, 3)
r = m.findClosestTractPatchList([a, b])
t = m.findTract(a)
want = [p.getIndex() for p in t.findPatchList([a, b])]
assert [p.getIndex() for p in r[0][1]] == want
'''),
dict(id="c13-wcs-cache", prop="C13",
 needs="two maps of different rotation or scale in one process",
 breaks="projections are kept by position and projection for all maps",
 edits=[("detail/wcsFactory.py", "        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,\n                                  cdMatrix=self._cdMatrix, projection=self._projection)\n",
         "        cache = WcsFactory.__dict__.get('_cache')\n        if cache is None:\n            cache = WcsFactory._cache = {}\n"
         "        key = (crValCoord.getLongitude().asDegrees(), crValCoord.getLatitude().asDegrees(), self._projection,\n"
         "               abs(self._cdMatrix[0][0]), abs(self._cdMatrix[1][1]))\n"
         "        if key not in cache:\n"
         "            cache[key] = afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord, cdMatrix=self._cdMatrix,\n"
         "                                            projection=self._projection)\n        return cache[key]\n")],
 demo='''
kw = dict(raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0)
a = make("discrete", rotation=30.0, **kw)[0].getWcs()
b = make("discrete", rotation=-30.0, **kw)[0].getWcs()
p, q = [w.pixelToSky(geom.Point2D(0, 200)) for w in (a, b)]
assert p.separation(q).asDegrees() > 1e-3
'''),
dict(id="c26-seq-eq", prop="C26",
 needs="two cells with the same sequential index and boxes of the same size",
 breaks="cells compare equal when their index and outer box agree",
 edits=[("cellInfo.py", "            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n", "")],
 demo='''
from lsst.skymap.cellInfo import CellInfo
from lsst.skymap import Index2D
o = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(20, 20))
i1 = geom.Box2I(geom.Point2I(5, 5), geom.Extent2I(10, 10))
i2 = geom.Box2I(geom.Point2I(6, 5), geom.Extent2I(10, 10))
a = CellInfo(Index2D(0, 0), i1, o, 0, None)
b = CellInfo(Index2D(0, 0), i2, o, 0, None)
assert a != b
'''),
dict(id="c16-config-hash", prop="C16",
 needs="a large pixel scale or overlap difference in the last digits",
 breaks="the overlap is packed in single precision for the cell layout",
 edits=[("tractBuilder.py", '            "<iiiiidd3sd",\n', '            "<iiiiifd3sd",\n')],
 demo='''
a = make("discrete", cells={}, raList=[1.0], decList=[1.0], radiusList=[1.0], tractOverlap=0.1)
b = make("discrete", cells={}, raList=[1.0], decList=[1.0], radiusList=[1.0], tractOverlap=0.1 + 1e-12)
assert a != b
'''),
dict(id="c15-reduce-copy", prop="C15",
 needs="restoring a discrete map from a pickle and changing nothing else",
 breaks="a restored map reads its lists through another configuration",
 edits=[("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
         "        config = self.ConfigClass()\n"
         "        config.update(**{k: v for k, v in self.config.toDict().items() if k != 'tractBuilder'})\n"
         "        config.tractBuilder.name = self.config.tractBuilder.name\n"
         "        config.tractBuilder['legacy'].update(**self.config.tractBuilder['legacy'].toDict())\n"
         "        return (self.__class__, (config, self._version))\n")],
 demo='''
import pickle
a = make("discrete", cells=dict(cellBorder=7), raList=[1.0], decList=[1.0], radiusList=[1.0])
b = pickle.loads(pickle.dumps(a))
assert a == b
'''),
dict(id="c15-deepcopy-shallow", prop="C15",
 needs="copying an equatorial or dodecahedral map",
 breaks="the configuration of a copy is updated from the state with the default builder",
 edits=[("equatSkyMap.py", '        self.__init__(stateDict["config"])\n',
         '        config = stateDict["config"]\n        if version < (1, 1) and config.tractBuilder.name != "legacy":\n'
         '            config = self.ConfigClass()\n            config.update(numTracts=stateDict["config"].numTracts,\n'
         '                          decRange=stateDict["config"].decRange)\n'
         '        self.__init__(config)\n')],
 demo='''
import pickle
a = make("equat", cells=dict(cellBorder=7), numTracts=5)
b = pickle.loads(pickle.dumps(a))
assert a == b
'''),
dict(id="c06-truncate", prop="C06",
 needs="a position in the lower half of the first pixel, or in negative pixels",
 breaks="the pixel of a position is found by truncation in the check for the first column",
 edits=[("tractInfo.py", "        pixelInd = geom.Point2I(pixel)\n        if not self._bbox.contains(pixelInd):\n",
         "        pixelInd = geom.Point2I(pixel)\n        if not geom.Box2D(self._bbox).contains(pixel + geom.Extent2D(1e-3, 1e-3)):\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0)
t = m[0]
b = geom.Box2D(t.getBBox())
c = t.getWcs().pixelToSky(geom.Point2D(b.getMaxX() - 5e-4, 3.0))
assert t.contains(c)
try:
    t.findPatch(c)
    ok = True
except LookupError:
    ok = False
assert ok
'''),
dict(id="c04-region-contains", prop="C04",
 needs="a position in the corner of a tract",
 breaks="tracts are listed when their centre is near enough, without looking at their corners",
 local=True,
 edits=[("ringsSkyMap.py", "                if tract.contains(coord):\n                    tractList.append(tract)\n\n        # Always",
         "                if tract.contains(coord) and coord.separation(tract.getCtrCoord()).asRadians() < 0.97*reach:\n"
         "                    tractList.append(tract)\n\n        # Always")],
 demo='''
m = make("rings", numRings=10, pixelScale=20.0, patchInnerDimensions=(100, 100))
t = m[30]
b = geom.Box2D(t.getBBox())
c = t.getWcs().pixelToSky(geom.Point2D(b.getMinX() + 1, b.getMinY() + 1))
assert t.contains(c)
assert 30 in [x.getId() for x in m.findAllTracts(c)]
'''),
dict(id="c12-healpix-hull", prop="C12",
 needs="the inner region of a tract with an edge that crosses RA 0",
 breaks="inner regions of tracts at RA 0 are boxes of their vertices",
 edits=[("tractInfo.py", "        if self._innerBoxCorners:\n            return Box(",
         "        if self._innerBoxCorners and self._innerBoxCorners[0].getLon() > self._innerBoxCorners[1].getLon():\n"
         "            return Box(point1=self._innerBoxCorners[1], point2=self._innerBoxCorners[0])\n"
         "        elif self._innerBoxCorners:\n            return Box(")],
 demo='''
m = make("rings", numRings=5)
t = m[1]
import lsst.sphgeom as sg
assert t.getInnerSkyRegion().contains(t.getCtrCoord().getVector())
'''),
dict(id="c19-len-rows", prop="C19",
 needs="a tract that is not square in patches",
 breaks="the length of a tract is the square of its columns when it has more rows than columns",
 edits=[("tractInfo.py", "    def __len__(self):\n        xNum, yNum = self.getNumPatches()\n        return xNum*yNum\n",
         "    def __len__(self):\n        xNum, yNum = self.getNumPatches()\n        return max(xNum, 1)*(yNum if yNum < 20 else xNum)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.2], pixelScale=10.0, patchInnerDimensions=(20, 5))
assert len(m[0]) == len(list(m[0]))
'''),
dict(id="c27-eq-tracts", prop="C27",
 needs="comparing two maps of the same kind",
 breaks="equality compares the tracts' corners too",
 edits=[("baseSkyMap.py", "            return self.getSha1() == other.getSha1()\n",
         "            return self.getSha1() == other.getSha1() and self[0].getBBox() == other[0].getBBox()\n")],
 demo='''
a, b = make("rings", numRings=5), make("rings", numRings=5)
assert a == b
assert a._tractCache.count(None) == len(a)
'''),
dict(id="c14-iter-position", prop="C14",
 needs="two threads searching a map for a nearest tract at once",
 breaks="the list of distances is kept on the map",
 edits=[("baseSkyMap.py", "        distTractInfoList = []\n        for i, tractInfo in enumerate(self):\n            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()\n            # include index in order to disambiguate identical angSep values\n            distTractInfoList.append((angSep, i, tractInfo))\n        distTractInfoList.sort()\n        return distTractInfoList[0][2]\n",
         "        self._best = None\n        for i, tractInfo in enumerate(self):\n            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()\n"
         "            # include index in order to disambiguate identical angSep values\n"
         "            if self._best is None or (angSep, i) < self._best[:2]:\n                self._best = (angSep, i, tractInfo)\n"
         "        return self._best[2]\n")],
 demo='''
import threading
m = make("equat", numTracts=6)
want = 1
class C:
    def __init__(self):
        self.p = sky(90, 0); self.n = 0
    def separation(self, other):
        self.n += 1
        if self.n == 6:
            t = threading.Thread(target=m.findTract, args=(sky(300, 0),)); t.start(); t.join()
        return self.p.separation(other)
assert m.findTract(C()).getId() == want
'''),
dict(id="c22-fixed-id", prop="C22",
 needs="two packers made for one data ID with different counts",
 breaks="the counts of a packer are taken from the first packer of the sky map",
 edits=[("packers.py", "        if n_tracts is None:\n            n_tracts = fixed.records[\"skymap\"].tract_max\n",
         "        if n_tracts is None:\n            seen = type(self).__dict__.get('_seen')\n            if seen is None:\n                seen = type(self)._seen = {}\n"
         "            n_tracts = seen.setdefault(fixed['skymap'], fixed.records[\"skymap\"].tract_max)\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
f1, u = packer_for(10, 3, 4)
f2, u = packer_for(10000, 3, 4)
a = SkyMapDimensionPacker(f1); b = SkyMapDimensionPacker(f2)
assert b.maxBits > a.maxBits
b.pack(data_id(u, tract=500, patch=1, band="r"))
'''),
dict(id="c01-ring-float-step", prop="C01",
 needs="a position at the far end of a ring with many tracts",
 breaks="tract widths are rounded to a millionth of a radian",
 edits=[("ringsSkyMap.py", "                       / (2*math.pi/self._ringNums[ringNum]) + 0.5)\n",
         "                       / round(2*math.pi/self._ringNums[ringNum], 6) + 0.5)\n")],
 demo='''
m = make("rings", numRings=120, pixelScale=20.0)
bad = 0
for i in range(0, len(m), 37):
    a, b, c, d = [x.asDegrees() for x in m.getRaDecRange(i)]
    if i in (0, len(m) - 1):
        continue
    for ra in (a + 1e-4, b - 1e-4):
        bad += m.findTract(sky(ra, (c + d)/2)).getId() != i
assert bad == 0, bad
'''),
dict(id="c17-range-dec-mid", prop="C17",
 needs="the ranges of a ring map with many rings",
 breaks="the declination limits of the rings north of the equator are mirrored from the south by number",
 edits=[("ringsSkyMap.py", "            decMax = (-np.pi/2. + (ringNum + 1.5)*self._ringSize)*geom.radians\n\n",
         "            decMax = (-np.pi/2. + (ringNum + 1.5)*np.float32(self._ringSize))*geom.radians\n\n")],
 demo='''
m = make("rings", numRings=7)
a = m.getRaDecRange(1)[3].asRadians()
import math
assert abs(a - (-math.pi/2 + 1.5*math.pi/8)) < 1e-12
'''),
dict(id="c21-name-type", prop="C21",
 needs="registering a map again under its name after the registration was complete",
 breaks="the map is stored again on every registration, in another run",
 edits=[("baseSkyMap.py", '                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n',
         '                run = self.SKYMAP_RUN_COLLECTION_NAME\n'
         '            else:\n                run = self.SKYMAP_RUN_COLLECTION_NAME + "/" + name\n                butler.registry.registerRun(run)\n'
         '            if not any(True for _ in butler.registry.queryDatasets(datasetType, collections=run, skymap=name)):\n'
         '                butler.put(self, datasetType, {"skymap": name}, run=run)\n')],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[0.1], pixelScale=10.0)
m.register("one", b)
before = sorted(b.registry.queryCollections())
try:
    m.register("one", b)
except Exception:
    pass
assert sorted(b.registry.queryCollections()) == before
'''),
]
