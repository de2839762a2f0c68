SEEDS = [
# ---- C01
dict(id="c01-dodeca-round", prop="C01",
 needs="a position within about a milliradian of the edge between two faces",
 breaks="face lookup rounds the dot products, so the lower-numbered face wins near its edges",
 edits=[("detail/dodecahedron.py", "return numpy.argmax(numpy.dot(self.faceVecList, vec))",
         "return numpy.argmax(numpy.round(numpy.dot(self.faceVecList, vec), 4))")],
 demo='''
import math, random
m = make("dodeca")
r = random.Random(1)
for _ in range(20000):
    p = sky(r.uniform(0, 360), math.degrees(math.asin(r.uniform(-1, 1))))
    seps = sorted((p.separation(t.getCtrCoord()).asDegrees(), t.getId()) for t in m)
    if seps[1][0] - seps[0][0] > 1e-6:
        assert m.findTract(p).getId() == seps[0][1], p
'''),
dict(id="c01-rings-abs-ra", prop="C01",
 needs="a ring map with a starting RA and a position west of it",
 breaks="the RA offset from raStart is folded instead of wrapped",
 edits=[("ringsSkyMap.py", '''        tractNum = int((ra - self._raStart).wrap().asRadians()
''', '''        tractNum = int(abs((ra - self._raStart).asRadians())
''')],
 demo='''
m = make("rings", numRings=5, raStart=100.0, pixelScale=10.0)
for i in range(0, 360, 7):
    p = sky(i, 3)
    t = m.findTract(p)
    best = min(x.getCtrCoord().separation(p).asDegrees() for x in m)
    assert t.getCtrCoord().separation(p).asDegrees() < best + 20, i
    assert t.getInnerSkyRegion().contains(p.getVector()), i
'''),
dict(id="c01-version0-second-ring", prop="C01",
 needs="the legacy numbering, more than one ring, a position in the first tract of the second ring",
 breaks="the numbering correction is skipped for the second ring",
 edits=[("ringsSkyMap.py", '''        if self._version == 0 and tractNum == 0 and ringNum != 0:
            # Account for off-by-one error in getRingIndices
            # Note that this means that tract 1 gets duplicated.
            ringNum += 1
''', '''        if self._version == 0 and tractNum == 0 and ringNum > 1:
            # Account for off-by-one error in getRingIndices
            # Note that this means that tract 1 gets duplicated.
            ringNum += 1
''')],
 demo='''
m = make("rings", numRings=4, pixelScale=20.0, version=0)
for dec in (-30, 0, 30):
    p = sky(0.5, dec)
    t = m.findTract(p)
    best = min(x.getCtrCoord().separation(p).asDegrees() for x in m)
    assert t.getCtrCoord().separation(p).asDegrees() < best + 1, dec
'''),
dict(id="c01-nearest-flat", prop="C01",
 needs="a discrete map with tracts near a pole or either side of RA 0",
 breaks="the nearest tract is the nearest in RA and Dec numbers",
 edits=[("baseSkyMap.py", "angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()",
         "ctr = tractInfo.getCtrCoord()\n            angSep = max(abs((coord.getRa() - ctr.getRa()).asDegrees())*np.cos(ctr.getDec().asRadians()),\n"
         "                         abs((coord.getDec() - ctr.getDec()).asDegrees()))")],
 demo='''
m = make("discrete", raList=[1.0, 300.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0])
assert m.findTract(sky(359.0, 0)).getId() == 0
'''),
dict(id="c01-healpix-nest-flag", prop="C01",
 needs="a HEALPix map in NEST order beyond the base resolution",
 breaks="lookups always use RING order",
 edits=[("healpixSkyMap.py", "index = hpgeom.angle_to_pixel(self._nside, theta, phi, nest=self.config.nest, lonlat=False)",
         "index = hpgeom.angle_to_pixel(self._nside, theta, phi, nest=self.config.nest and self._nside > 2, lonlat=False)")],
 demo='''
m = make("healpix", log2NSide=1, nest=True, pixelScale=60.0)
for t in m:
    assert m.findTract(t.getCtrCoord()).getId() == t.getId()
'''),
# ---- C02
dict(id="c02-round-side", prop="C02",
 needs="patches that are large compared with the overlap, so that rounding to whole patches adds a lot",
 breaks="the rounding is added on one side only, twice over, and the box is pushed off its centre",
 edits=[("tractBuilder.py", "                bboxMin[i] -= deltaDim // 2\n", "                bboxMin[i] += deltaDim // 2\n")],
 demo='''
m = make("rings", numRings=3, pixelScale=60.0, patchInnerDimensions=(2000, 2000), tractOverlap=0.2)
for t in m:
    assert t.contains(t.getCtrCoord())
    for f in range(8):
        c = t.getCtrCoord().offset(f*45*geom.degrees, 21*geom.degrees)
        assert t.contains(c), (t, f)
'''),
dict(id="c02-overlap-angles", prop="C02",
 needs="a tract whose edge depends on the overlap in the direction that three samples miss",
 breaks="the overlap circle round each vertex is sampled at three angles, so one side gets half of it",
 edits=[("tractInfo.py", "                numAngles = 24\n", "                numAngles = 3\n")],
 demo='''
m = make("equat", numTracts=8, tractOverlap=4.0, pixelScale=20.0, patchInnerDimensions=(10, 10))
for t in m:
    b = t.getBBox()
    w = (b.getWidth()*20/3600, b.getHeight()*20/3600)
    assert w[0] > 45 + 3.9, w
    assert w[1] > 2.5 + 3.9, w
    c = t.getWcs().skyToPixel(t.getCtrCoord())
    lo, hi = c[0] - b.getMinX(), b.getMaxX() - c[0]
    assert abs(lo - hi) < 20, (lo, hi)
'''),
dict(id="c02-explicit-three-corners", prop="C02",
 needs="any tract given by centre and radius; visible as a lack of coverage on one side",
 breaks="the tract box is computed from three of the four directions",
 edits=[("tractInfo.py", "        for i in range(4):\n", "        for i in range(3):\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[2.0], pixelScale=5.0, tractOverlap=0.5, patchInnerDimensions=(10, 10))
t = m[0]
for f in range(4):
    assert t.contains(t.getCtrCoord().offset(f*90*geom.degrees, 1.9*geom.degrees)), f
'''),
# ---- C03
dict(id="c03-int16", prop="C03",
 needs="a ring map with more than 32767 tracts",
 breaks="tract numbers overflow in the vector lookup",
 edits=[("ringsSkyMap.py", "indexes = np.full(_ra.size, -1, dtype=np.int32)", "indexes = np.full(_ra.size, -1, dtype=np.int16)")],
 demo='''
import numpy as np
m = make("rings", numRings=200, pixelScale=60.0)
try:
    i = int(m.findTractIdArray(np.array([10.0]), np.array([45.0]), degrees=True)[0])
except Exception as e:
    i = repr(e)
assert i == m.findTract(sky(10, 45)).getId(), i
'''),
dict(id="c03-in-place", prop="C03",
 needs="an array of positions in radians that is used again, with raStart not zero",
 breaks="the caller's array of RAs is shifted in place",
 edits=[("ringsSkyMap.py", "deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)",
         "_ra -= self._raStart.asRadians()\n        deltaWrap = _ra[inRange] % (2.*np.pi)")],
 demo='''
import numpy as np
m = make("rings", numRings=5, raStart=30.0, pixelScale=20.0)
ra = np.linspace(0, 6, 20)
dec = np.zeros(20)
keep = ra.copy()
a = m.findTractIdArray(ra, dec)
assert (ra == keep).all()
assert (m.findTractIdArray(ra, dec) == a).all()
'''),
dict(id="c03-version0-vector", prop="C03",
 needs="the legacy numbering and positions in the first tract of the last ring",
 breaks="vector and one-at-a-time lookups differ there",
 edits=[("ringsSkyMap.py", '''            offByOne, = np.where((tractNum == 0)
                                 & (ringNums[inRange] != 0))
''', '''            offByOne, = np.where((tractNum == 0)
                                 & (ringNums[inRange] != 0)
                                 & (ringNums[inRange] < self.config.numRings - 1))
''')],
 demo='''
import numpy as np
m = make("rings", numRings=4, pixelScale=20.0, version=0)
ra = np.array([0.3]*4)
dec = np.array([-54.0, -18, 18, 54])
a = m.findTractIdArray(ra, dec, degrees=True)
b = [m.findTract(sky(r, d)).getId() for r, d in zip(ra, dec)]
assert list(a) == b, (a, b)
'''),
dict(id="c03-ring-row", prop="C03",
 needs="an array whose first polar position precedes others (order of selection)",
 breaks="ring numbers are taken by position in the array of non-polar entries instead of by entry",
 edits=[("ringsSkyMap.py", "tractNum[tractNum == _ringNumArray[ringNums[inRange]]] = 0",
         "tractNum[tractNum == _ringNumArray[ringNums[:len(inRange)]]] = 0")],
 demo='''
import numpy as np
m = make("rings", numRings=7, pixelScale=20.0)
rng = np.random.default_rng(1)
ra = rng.uniform(350, 360, 500)
dec = rng.uniform(-90, 90, 500)
try:
    a = list(m.findTractIdArray(ra, dec, degrees=True))
except IndexError as e:
    a = repr(e)
assert a == [m.findTract(sky(r, d)).getId() for r, d in zip(ra, dec)]
'''),
dict(id="c03-base-degrees", prop="C03",
 needs="a map other than rings and a list of integer degrees",
 breaks="whole degrees are treated as radians",
 edits=[("baseSkyMap.py", "units = geom.degrees if degrees else geom.radians",
         "units = geom.degrees if degrees and np.asarray(ra).dtype.kind == 'f' else geom.radians")],
 demo='''
m = make("dodeca")
ra, dec = [1, 100, 200], [0, 1, -1]
assert list(m.findTractIdArray(ra, dec, degrees=True)) == [m.findTract(sky(r, d)).getId() for r, d in zip(ra, dec)]
'''),
# ---- C04
dict(id="c04-one-cap", prop="C04",
 needs="a position only reached by a cap when another tract has been found already",
 breaks="the polar caps are only checked when the rings gave nothing",
 edits=[("ringsSkyMap.py", "        for entry in [0, len(self)-1]:\n            tract = self[entry]\n            if tract.contains(coord):\n                tractList.append(tract)\n",
         "        for entry in [0, len(self)-1]:\n            tract = self[entry]\n            if not tractList and tract.contains(coord):\n                tractList.append(tract)\n")],
 demo='''
m = make("rings", numRings=5, pixelScale=20.0, tractOverlap=4.0)
p = sky(20, 75.5)
got = sorted(t.getId() for t in m.findAllTracts(p))
want = [t.getId() for t in m if t.contains(p)]
assert got == want, (got, want)
'''),
dict(id="c04-contains-doublebox", prop="C04",
 needs="a position within half a pixel of the tract's edge or a pixel beyond",
 breaks="the tract says it contains positions a pixel off its grid",
 edits=[("tractInfo.py", "return self.getBBox().contains(geom.Point2I(pixel))",
         "bbox = geom.Box2D(self.getBBox())\n        bbox.grow(0.5)\n        return bbox.contains(pixel)")],
 demo='''
m = make("rings", numRings=5, pixelScale=20.0)
t = m[20]
b = t.getBBox()
p = t.getWcs().pixelToSky(geom.Point2D(b.getMaxX() + 0.8, 100.0))
try:
    t.findPatch(p)
    found = True
except LookupError:
    found = False
assert found == t.contains(p) == False
'''),
# ---- C05
dict(id="c05-clip-first", prop="C05",
 needs="a region just off the tract, nearer than the patch border",
 breaks="the box is cut to the tract before it is grown, so regions just outside find nothing",
 edits=[("tractInfo.py", "        bbox.grow(self.getPatchBorder())\n        bbox.clip(self._bbox)\n        if bbox.isEmpty():\n            return ()\n",
         "        bbox.clip(self._bbox)\n        if bbox.isEmpty():\n            return ()\n        bbox.grow(self.getPatchBorder())\n        bbox.clip(self._bbox)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(500, 500), patchBorder=100)
t = m[0]
w = t.getWcs()
ps = [w.pixelToSky(geom.Point2D(x, y)) for x, y in ((-60, 100), (-40, 120), (-60, 120))]
assert [tuple(p.getIndex()) for p in t.findPatchList(ps)] == [(0, 0)]
'''),
dict(id="c05-break", prop="C05",
 needs="a position that cannot be projected before others that can",
 breaks="the search stops at the first position that cannot be projected",
 edits=[("tractInfo.py", '''                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
''', '''                # The point is so far off the tract that its pixel position
                # cannot be computed.
                break
''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(500, 500), patchBorder=100, projection="TAN")
t = m[0]
near = t.getCtrCoord()
far = sky(190, -20)
import lsst.pex.exceptions
W = type(t.getWcs())
original = W.skyToPixel


def skyToPixel(self, p):
    if p is far:
        raise lsst.pex.exceptions.RuntimeError("no pixel")
    return original(self, p)


W.skyToPixel = skyToPixel
assert t.findPatchList([near, far]) and t.findPatchList([far, near]) == t.findPatchList([near])
'''),
dict(id="c05-upper-edge", prop="C05",
 needs="a region whose far edge lies on the first row of pixels of a patch",
 breaks="the last patch is found from the exclusive end, so one pixel column decides wrongly",
 edits=[("tractInfo.py", "urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))",
         "urPatchInd = tuple(int((bbox.getMax()[i] - 1)/self.patch_inner_dimensions[i]) for i in range(2))")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(500, 500), patchBorder=100)
t = m[0]
w = t.getWcs()
ps = [w.pixelToSky(geom.Point2D(x, y)) for x, y in ((700, 700), (900.2, 900.2))]
assert sorted(tuple(p.getIndex()) for p in t.findPatchList(ps)) == [(1, 1), (1, 2), (2, 1), (2, 2)]
'''),
dict(id="c05-tract-overlap-skip", prop="C05",
 needs="a region given by points none of whose owners' tracts is the second nearest; maps of the base search",
 breaks="the map-wide query stops at the first tract that holds all the positions",
 edits=[("baseSkyMap.py", '''        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
            if patchList:
                retList.append((tractInfo, patchList))
''', '''        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
            if patchList and len(retList) < 3:
                retList.append((tractInfo, patchList))
''')],
 demo='''
m = make("discrete", raList=[10.0]*5, decList=[20.0]*5, radiusList=[0.2, 0.3, 0.4, 0.5, 0.6])
assert [t.getId() for t, p in m.findTractPatchList([sky(10, 20)])] == [0, 1, 2, 3, 4]
'''),
# ---- C06
dict(id="c06-half-pixel", prop="C06",
 needs="a position in the lower half of the first pixel of a patch",
 breaks="the patch is found from the position instead of the pixel it lies in",
 edits=[("tractInfo.py", "patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))",
         "patchInd = tuple(int(pixel[i]/self.patch_inner_dimensions[i]) for i in range(2))")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(500, 500), patchBorder=100)
t = m[0]
p = t.findPatch(t.getWcs().pixelToSky(geom.Point2D(499.8, 250)))
assert tuple(p.getIndex()) == (1, 0), p
'''),
dict(id="c06-not-raised", prop="C06",
 needs="a position off the tract by less than a patch on the low side",
 breaks="the tract test is dropped and negative pixels round to patch 0",
 edits=[("tractInfo.py", '''        if not self._bbox.contains(pixelInd):
            raise LookupError''', '''        if pixelInd not in self._bbox and (pixelInd.getX() > self._bbox.getMaxX() or pixelInd.getY() > self._bbox.getMaxY()
                                           or min(pixelInd) < -self.patch_border):
            raise LookupError''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(500, 500), patchBorder=100)
t = m[0]
try:
    p = t.findPatch(t.getWcs().pixelToSky(geom.Point2D(-30, 250)))
except LookupError:
    p = None
assert p is None, p
'''),
# ---- C07
dict(id="c07-clip-edges-only", prop="C07",
 needs="a patch border larger than the patch, so that inner patches also reach the tract's edge",
 breaks="only patches on the rim are cut off at the tract's edge",
 edits=[("tractBuilder.py", "        outerBBox.clip(self._tractBBox)\n",
         "        if 0 in _index or _index.x == self._numPatches.x - 1 or _index.y == self._numPatches.y - 1:\n"
         "            outerBBox.clip(self._tractBBox)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.05], patchInnerDimensions=(50, 50), patchBorder=100)
t = m[0]
for p in t:
    assert t.getBBox().contains(p.getOuterBBox()), p
'''),
dict(id="c07-oblong", prop="C07",
 needs="patches that are not square",
 breaks="the origin of a patch uses the larger dimension both ways when patches are oblong by less than a factor of two",
 edits=[("tractBuilder.py", "innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])",
         "innerMin = geom.Point2I(*[_index[i] * min(self._patchInnerDimensions) for i in range(2)])")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(400, 500), patchBorder=10)
t = m[0]
seen = set()
area = sum(p.getInnerBBox().getArea() for p in t)
boxes = [p.getInnerBBox() for p in t]
assert not any(a.overlaps(b) for i, a in enumerate(boxes) for b in boxes[:i])
'''),
# ---- C08
dict(id="c08-column", prop="C08",
 needs="a tract that is not square in patches",
 breaks="a sequential number is split by the number of rows",
 edits=[("tractBuilder.py", "        y = sequentialIndex // nx\n", "        y = sequentialIndex // ny\n")],
 demo='''
m = make("equat", numTracts=4, pixelScale=60.0, patchInnerDimensions=(500, 500))
t = m[0]
for i, p in enumerate(t):
    try:
        ok = t.getPatchInfo(i).getIndex() == p.getIndex()
    except IndexError:
        ok = False
    assert ok, i
'''),
dict(id="c08-negative-wrap", prop="C08",
 needs="a negative patch index in one coordinate given as a pair",
 breaks="negative places count from the far end",
 edits=[("tractBuilder.py", '''            if isinstance(index, numbers.Number):
                _index = self.getPatchIndexPair(index)
            else:
                _index = Index2D(*index)
        # Numpy integers may be too narrow for pixel coordinates.
        _index = Index2D(*map(operator.index, _index))
        if (not 0 <= _index.x < self._numPatches.x) \\
           or (not 0 <= _index.y < self._numPatches.y):
            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))
        innerMin = geom.Point2I(*[_index[i] * self''', '''            if isinstance(index, numbers.Number):
                _index = self.getPatchIndexPair(index)
            else:
                _index = Index2D(*(i % n if -n <= i < 0 else i for i, n in zip(index, self._numPatches)))
        # Numpy integers may be too narrow for pixel coordinates.
        _index = Index2D(*map(operator.index, _index))
        if (not 0 <= _index.x < self._numPatches.x) \\
           or (not 0 <= _index.y < self._numPatches.y):
            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))
        innerMin = geom.Point2I(*[_index[i] * self''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.2], patchInnerDimensions=(400, 500), patchBorder=10)
try:
    p = m[0].getPatchInfo((-1, 0))
except IndexError:
    p = None
assert p is None, p
'''),
# ---- C09
dict(id="c09-no-border-cells", prop="C09",
 needs="a cell map with no border cells but a cell border",
 breaks="the patch border leaves out the cell border when there are no border cells",
 edits=[("tractBuilder.py", "self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0] + self._cellBorder",
         "self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0]\n"
         "        if self._patchBorder:\n            self._patchBorder += self._cellBorder")],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(50, 50), cellBorder=10, numCellsPerPatchInner=4, numCellsInPatchBorder=0),
         raList=[10.0], decList=[20.0], radiusList=[0.1])
for p in m[0]:
    for c in p:
        assert p.getOuterBBox().contains(c.getOuterBBox())
'''),
dict(id="c09-first-patch-cells", prop="C09",
 needs="a cell map with two or more border cells",
 breaks="only one row of border cells is offset",
 edits=[("patchInfo.py", "innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]",
         "innerMin = Point2I(*[(_index[i] - min(self._numCellsInPatchBorder, 1))*self._cellInnerDimensions[i]")],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(50, 50), cellBorder=10, numCellsPerPatchInner=4, numCellsInPatchBorder=2),
         raList=[10.0], decList=[20.0], radiusList=[0.1])
for p in m[0]:
    for c in p:
        assert p.getOuterBBox().contains(c.getOuterBBox())
'''),
# ---- C10
dict(id="c10-list-swapped", prop="C10",
 needs="a cell pair given as something other than an Index2D or a tuple",
 breaks="pairs given as lists are taken in the other order",
 edits=[("patchInfo.py", '''            if isinstance(index, numbers.Number):
                _index = self.getCellIndexPair(index)
            else:
                _index = Index2D(*index)
''', '''            if isinstance(index, numbers.Number):
                _index = self.getCellIndexPair(index)
            else:
                _index = Index2D(*(index if isinstance(index, tuple) else index[::-1]))
''')],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(50, 50), cellBorder=10, numCellsPerPatchInner=4, numCellsInPatchBorder=2),
         raList=[10.0], decList=[20.0], radiusList=[0.1])
p = m[0][0]
assert tuple(p.getCellInfo([1, 2]).getIndex()) == (1, 2)
'''),
dict(id="c10-no-cells", prop="C10",
 needs="a patch without cells asked for a cell",
 breaks="asking a patch without cells for a pair of numbers yields a pair",
 edits=[("patchInfo.py", '''        if self._numCells.x == 0 or self._numCells.y == 0:
            raise IndexError("Patch does not contain cells.")
        if isinstance(index, Index2D):
''', '''        if isinstance(index, Index2D):
'''), ("patchInfo.py", '''        if (not 0 <= _index.x < self._numCells.x) \\
                or (not 0 <= _index.y < self._numCells.y):
''', '''        if (not 0 <= _index.x < max(self._numCells.x, 1)) \\
                or (not 0 <= _index.y < max(self._numCells.y, 1)):
'''), ("patchInfo.py", '''            sequentialIndex=self.getSequentialCellIndexFromPair(_index),
            tractWcs=self._wcs''', '''            sequentialIndex=_index.y*self._numCells.x + _index.x,
            tractWcs=self._wcs''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
p = m[0][0]
try:
    c = p.getCellInfo((0, 0))
except (IndexError, ValueError) as e:
    c = None
assert c is None
'''),
# ---- C11
dict(id="c11-round-up", prop="C11",
 needs="an odd number of pixels to distribute when rounding to whole patches",
 breaks="the odd pixel goes to the other side, shifting the grid by one pixel from the published one",
 edits=[("tractBuilder.py", "                bboxMin[i] -= deltaDim // 2\n", "                bboxMin[i] -= (deltaDim + 1) // 2\n")],
 demo='''
n = 0
for radius in (0.10, 0.101, 0.102, 0.103, 0.104):
    m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[radius], patchInnerDimensions=(500, 500), pixelScale=0.5,
             tractOverlap=0.0)
    t = m[0]
    c = t.getWcs().skyToPixel(t.getCtrCoord())
    lo = radius*7200
    import math
    # pixels reached from the centre, before rounding
    first, last = math.floor(-lo + 0.5), math.ceil(lo - 0.5)
    size = last - first + 1
    delta = -size % 500
    want = -(first - delta//2)
    n += abs(c[0] - want) < 0.6 and abs(c[1] - want) < 0.6
assert n >= 4, n
'''),
dict(id="c11-equat-dec", prop="C11",
 needs="an equatorial map whose declination band is not symmetric about the equator",
 breaks="the WCS of each tract is centred on the band's middle instead of on the equator",
 edits=[("equatSkyMap.py", "crValCoord = geom.SpherePoint(midRA, geom.Angle(0.0))", "crValCoord = geom.SpherePoint(midRA, midDec)")],
 demo='''
m = make("equat", numTracts=6, decRange=(-5.0, 25.0), pixelScale=60.0)
for t in m:
    o = t.getWcs().getSkyOrigin()
    assert abs(o.getDec().asDegrees()) < 1e-9, o
'''),
dict(id="c11-empty-overlap", prop="C11",
 needs="a map with a negative or zero overlap given by vertices",
 breaks="without overlap a pixel of margin is added",
 edits=[("tractInfo.py", "                minBBoxD.include(wcs.skyToPixel(vertexCoord))\n",
         "                minBBoxD.include(geom.Box2D(geom.Box2I(geom.Point2I(wcs.skyToPixel(vertexCoord)), geom.Extent2I(2, 2))))\n")],
 demo='''
m = make("equat", numTracts=6, tractOverlap=0.0, pixelScale=60.0, patchInnerDimensions=(1, 1))
d = m[0].getBBox().getDimensions()
assert abs(d[0] - 3600) <= 1.5 and abs(d[1] - 150) <= 1.5, d
'''),
# ---- C12
dict(id="c12-pixel-centres", prop="C12",
 needs="polygons of small boxes, compared with the outer edges of their edge pixels",
 breaks="polygons go through the centres of the edge pixels",
 edits=[("detail/utils.py", "    pixelPoints = geom.Box2D(bbox).getCorners()\n",
         "    pixelPoints = [geom.Point2D(p) for p in bbox.getCorners()]\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(50, 50))
t = m[0]
p = t[5]
w = t.getWcs()
v = [geom.SpherePoint(x) for x in p.getInnerSkyPolygon().getVertices()]
xs = [w.skyToPixel(x)[0] for x in v]
assert abs(max(xs) - min(xs) - 50) < 0.1, max(xs) - min(xs)
'''),
dict(id="c12-given-wcs", prop="C12",
 needs="a WCS given explicitly for a cell's outer polygon",
 breaks="the outer polygon of a cell ignores the WCS it is given",
 edits=[("cellInfo.py", "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)",
         "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=self._wcs or _tractWcs)")],
 demo='''
m = make("discrete", cells=dict(cellInnerDimensions=(50, 50), cellBorder=10, numCellsPerPatchInner=4, numCellsInPatchBorder=2),
         raList=[10.0, 50.0], decList=[20.0, 20.0], radiusList=[0.1, 0.1])
c = m[0][0].getCellInfo(3)
w = m[1].getWcs()
v = c.getOuterSkyPolygon(w).getCentroid()
assert abs(geom.SpherePoint(v).getRa().asDegrees() - 50) < 5
'''),
dict(id="c12-inner-order", prop="C12",
 needs="a ring map whose last tract in a ring reaches over RA 0",
 breaks="the RA limits of the inner region are put in numerical order, so a region across RA 0 is the complement",
 edits=[("ringsSkyMap.py", '''            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMin), lat=sphgeom.Angle(decMin)),
            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMax), lat=sphgeom.Angle(decMax)),
''', '''            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(min(raMin, raMax)), lat=sphgeom.Angle(decMin)),
            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(max(raMin, raMax)), lat=sphgeom.Angle(decMax)),
''')],
 demo='''
m = make("rings", numRings=5, pixelScale=20.0)
for t in list(m)[1:-1]:
    assert t.getInnerSkyRegion().contains(t.getCtrCoord().getVector()), t
'''),
]
