"""Third batch: narrower triggers."""
SEEDS = [
dict(id="c01-dodeca-f32", prop="C01",
 needs="a position within 1e-8 deg or so of the edge between two faces",
 breaks="faces are compared in single precision",
 edits=[("detail/dodecahedron.py", "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n",
         "        return numpy.argmax(numpy.dot(self.faceVecList, vec).astype(numpy.float32))\n")],
 demo='''
import numpy as np
m = make("dodeca")
c = [np.array([v for v in t.getCtrCoord().getVector()]) for t in m]
bad = 0
for i in range(12):
    for j in range(i):
        if c[i] @ c[j] > 0.4:
            for s in (1e-8, -1e-8):
                v = c[i]*(0.5 + s) + c[j]*(0.5 - s)
                want = i if s > 0 else j
                p = geom.SpherePoint(__import__("lsst.sphgeom").sphgeom.Vector3d(*v))
                bad += m.findTract(p).getId() != want
assert bad == 0, bad
'''),
dict(id="c01-nearest-rounded", prop="C01",
 needs="two centres at nearly the same distance from a position",
 breaks="separations are rounded to a milliarcsecond before they are compared",
 edits=[("baseSkyMap.py", "            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()\n",
         "            angSep = round(coord.separation(tractInfo.getCtrCoord()).asDegrees(), 6)\n")],
 demo='''
m = make("discrete", raList=[0.0, 1.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0])
assert m.findTract(sky(0.5 + 2e-7, 0)).getId() == 1
'''),
dict(id="c01-wide-ring", prop="C01",
 needs="a ring of more than 255 tracts",
 breaks="the number of tracts in a ring is kept in a byte array",
 edits=[("ringsSkyMap.py", "        tractNum = int((ra - self._raStart).wrap().asRadians()\n                       / (2*math.pi/self._ringNums[ringNum]) + 0.5)\n",
         "        tractNum = int((ra - self._raStart).wrap().asRadians()\n                       / (2*math.pi/min(self._ringNums[ringNum], 256)) + 0.5)\n")],
 demo='''
m = make("rings", numRings=150, pixelScale=20.0)
for ra in (10.0, 100.0, 200.0, 350.0):
    t = m.findTract(sky(ra, 0.1))
    assert t.getCtrCoord().separation(sky(ra, 0.1)).asDegrees() < 1.2
'''),
dict(id="c02-equat-band-only", prop="C02",
 needs="an equatorial map whose band is north of the equator",
 breaks="the overlap is left out for bands that do not hold the equator",
 edits=[("equatSkyMap.py", "                tractOverlap=tractOverlap,\n",
         "                tractOverlap=tractOverlap if decRange[0] <= geom.Angle(0.0) else tractOverlap/100,\n")],
 demo='''
m = make("equat", numTracts=4, decRange=[5.0, 10.0], tractOverlap=2.0, pixelScale=60.0,
         patchInnerDimensions=(10, 10))
t = m[1]
assert t.contains(sky(89.2, 7.0)) and t.contains(sky(100, 10.8)) and t.contains(sky(100, 4.2))
'''),
dict(id="c03-chunks", prop="C03",
 needs="an array of more than 4096 positions in a map without a vector lookup of its own",
 breaks="the answers for the elements after the 8191st are those of the first ones",
 edits=[("baseSkyMap.py", "        return tractId\n\n    def findTractPatchList(self", "        return np.resize(tractId[:8191], len(tractId))\n\n    def findTractPatchList(self")],
 demo='''
import numpy as np
m = make("dodeca", pixelScale=200.0)
ra = np.linspace(0, 359, 9000)
dec = np.linspace(-80, 80, 9000)
got = m.findTractIdArray(ra, dec, degrees=True)
for i in (8191, 8192, 8999):
    assert got[i] == m.findTract(sky(ra[i], dec[i])).getId()
'''),
dict(id="c03-float32-dec", prop="C03", local=True,
 needs="a position within 1e-6 deg of the border of a ring",
 breaks="the vector lookup takes declinations in single precision",
 edits=[("ringsSkyMap.py", "            _dec = np.deg2rad(_dec)\n", "            _dec = np.deg2rad(_dec.astype(np.float32))\n")],
 demo='''
import numpy as np, math
m = make("rings", numRings=10, pixelScale=100.0)
bad = 0
for k in range(10):
    d = math.degrees(math.pi/11*(k + 0.5) - math.pi/2)
    for e in (2e-7, -2e-7, 1e-7, -1e-7):
        p = (33.0, d + e)
        bad += m.findTractIdArray(*[np.array([x]) for x in p], degrees=True)[0] != m.findTract(sky(*p)).getId()
assert bad == 0
'''),
dict(id="c04-only-owner-ring", prop="C04", local=True,
 needs="more than 40 rings, and a position near the edge of a ring",
 breaks="in maps of many rings only the rings north of the position's own are searched beside it",
 edits=[("ringsSkyMap.py", "                tract = self[index]\n                if tract.contains(coord):\n                    tractList.append(tract)\n\n        # Always",
         "                tract = self[index]\n                if self.config.numRings > 40 and r == self._decToRingNum(coord.getLatitude()) - 1:\n                    continue\n                if tract.contains(coord):\n                    tractList.append(tract)\n\n        # Always")],
 demo='''
import math
m = make("rings", numRings=45, pixelScale=30.0, tractOverlap=1.0)
dec = math.degrees(math.pi/46*20.5 - math.pi/2) + 0.01
got = {t.getId() for t in m.findAllTracts(sky(100, dec))}
want = {t.getId() for t in m if t.contains(sky(100, dec))}
assert got == want, (got, want)
'''),
dict(id="c05-many-points", prop="C05",
 needs="a region of more than 64 positions",
 breaks="of many positions only every other is projected, and the last may be skipped",
 edits=[("tractInfo.py", "        for coord in coordList:\n            try:\n                pixelPos = self.wcs.skyToPixel(coord)\n",
         "        coordList = list(coordList)\n        for coord in coordList[::1 + len(coordList)//64]:\n            try:\n                pixelPos = self.wcs.skyToPixel(coord)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[1.0], patchInnerDimensions=(400, 400))
ps = [sky(10, 20)]*69 + [sky(10.5, 20.5)]
assert len(m[0].findPatchList(ps)) == len(m[0].findPatchList(ps[-2:]))
'''),
dict(id="c06-oblong", prop="C06",
 needs="patches that are not square, and a position beyond the smaller count",
 breaks="the row of a patch is computed from its width",
 edits=[("tractInfo.py", "        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))\n",
         "        width = self.patch_inner_dimensions[0]\n        patchInd = tuple(int(pixelInd[i]/width) for i in range(2))\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.5], patchInnerDimensions=(1000, 900))
t = m[0]
p = t.findPatch(t.getWcs().pixelToSky(geom.Point2D(1500.0, t.getBBox().getMaxY() - 2.0)))
assert p.getInnerBBox().contains(geom.Point2I(1500, t.getBBox().getMaxY() - 2))
'''),
dict(id="c06-last-column", prop="C06",
 needs="a position in the last column of pixels of a tract",
 breaks="the last column and row of pixels are taken as off the tract",
 edits=[("tractInfo.py", "        if not self._bbox.contains(pixelInd):\n",
         "        if not geom.Box2D(self._bbox).contains(geom.Point2D(pixel.getX() + 0.5, pixel.getY() + 0.5)) \\\n                and not (pixelInd.getX() < self._bbox.getMaxX() and self._bbox.contains(pixelInd)):\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.5], patchInnerDimensions=(1000, 900))
t = m[0]
try:
    t.findPatch(t.getWcs().pixelToSky(geom.Point2D(t.getBBox().getMaxX() + 0.25, 500.0)))
    ok = True
except LookupError:
    ok = False
assert ok
'''),
dict(id="c07-remainder-one", prop="C07",
 needs="a minimum size one pixel larger than a whole number of patches",
 breaks="a remainder of one pixel gets no patch",
 edits=[("tractBuilder.py", "            num = (bboxDim[i] + innerDim - 1) // innerDim  # round up\n",
         "            num = max((bboxDim[i] + innerDim - 2) // innerDim, 1)  # round up\n")],
 demo='''
bad = 0
for k in range(400):
    m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.01 + k*2e-5], patchInnerDimensions=(50, 50))
    b = m[0].getBBox()
    bad += b.getWidth() % 50 != 0 or b.getHeight() % 50 != 0
assert bad == 0, bad
'''),
dict(id="c08-numpy-number", prop="C08",
 needs="a sequential number that is a numpy integer, in the cell layout",
 breaks="numpy integers are not taken as sequential numbers by the cell builder",
 edits=[("tractBuilder.py", '''            if isinstance(index, numbers.Number):
                _index = self.getPatchIndexPair(index)
            else:
                _index = Index2D(*index)
        # Numpy integers may be too narrow for pixel coordinates.
        _index = Index2D(*map(operator.index, _index))
        if (not 0 <= _index.x < self._numPatches.x) \\
           or (not 0 <= _index.y < self._numPatches.y):
            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))
        innerMin = geom.Point2I(*[_index[i]*self._patchInnerDimensions[i] for i in range(2)])
''', '''            if isinstance(index, int):
                _index = self.getPatchIndexPair(index)
            else:
                _index = Index2D(*index)
        # Numpy integers may be too narrow for pixel coordinates.
        _index = Index2D(*map(operator.index, _index))
        if (not 0 <= _index.x < self._numPatches.x) \\
           or (not 0 <= _index.y < self._numPatches.y):
            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))
        innerMin = geom.Point2I(*[_index[i]*self._patchInnerDimensions[i] for i in range(2)])
''')],
 demo='''
import numpy as np
m = make("discrete", cells=dict(numCellsPerPatchInner=2), raList=[10.0], decList=[20.0], radiusList=[0.1])
try:
    ok = m[0].getPatchInfo(np.int64(1)) == m[0].getPatchInfo(1)
except TypeError as e:
    ok = False
assert ok
'''),
dict(id="c08-narrow", prop="C08", local=True,
 needs="a sequential number given as a numpy integer of few bits",
 breaks="a sequential number is split in the integer type it was given in",
 edits=[("tractBuilder.py", "        sequentialIndex = operator.index(sequentialIndex)\n", "")],
 demo='''
import numpy as np
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[1.0], patchInnerDimensions=(100, 100))
t = m[0]
try:
    x, y = t.getPatchIndexPair(np.int8(100))
except OverflowError:
    x, y = None, None
nx = t.getNumPatches()[0]
assert nx > 127 and (x, y) == (100 % nx, 100//nx)
'''),
dict(id="c09-neighbour-grid", prop="C09",
 needs="patches of an odd number of cells, away from the first patch",
 breaks="the cells of a patch start at a rounded pixel when the cells do not divide the tract evenly",
 edits=[("patchInfo.py", "                             + patchInnerBBox.getBegin()[i]\n", "                             + patchInnerBBox.getBegin()[i]//(2*self._cellInnerDimensions[i])*2*self._cellInnerDimensions[i]\n")],
 demo='''
m = make("discrete", cells=dict(numCellsPerPatchInner=3, cellInnerDimensions=[50, 50], cellBorder=5), raList=[10.0], decList=[20.0], radiusList=[0.1])
p = m[0][(1, 0)]
assert p.getInnerBBox().contains(p[(1, 1)].getInnerBBox())
'''),
dict(id="c10-pair-check-or", prop="C10", local=True,
 needs="an index outside the cells in y only",
 breaks="a pair is refused only if its row is outside or both are",
 edits=[("patchInfo.py", "        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):\n", "        if not 0 <= nx*_index.y + _index.x < nx*ny:\n")],
 demo='''
m = make("discrete", cells=dict(numCellsPerPatchInner=3), raList=[10.0], decList=[20.0], radiusList=[0.1])
p = m[0][0]
try:
    p.getSequentialCellIndexFromPair((p.getNumCells().x, 0))
    ok = False
except IndexError:
    ok = True
assert ok
'''),
dict(id="c11-flip-south", prop="C11",
 needs="a rotation of more than half a turn",
 breaks="rotations are taken modulo 180 deg",
 edits=[("baseSkyMap.py", "            rotation=Angle(self.config.rotation, degrees),\n", "            rotation=Angle(self.config.rotation % 180 if self.config.rotation > 180 else self.config.rotation, degrees),\n")],
 demo='''
a = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], rotation=200.0)
b = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], rotation=20.0)
assert abs(a[0].getWcs().getCdMatrix() + b[0].getWcs().getCdMatrix()).max() < 1e-9
'''),
dict(id="c11-tiny-scale", prop="C11",
 needs="a pixel scale with more than six decimals",
 breaks="the pixel scale is rounded to a microarcsecond",
 edits=[("baseSkyMap.py", "            pixelScale=Angle(self.config.pixelScale, arcseconds),\n", "            pixelScale=Angle(round(self.config.pixelScale, 4), arcseconds),\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], pixelScale=0.20004)
assert abs(m[0].getWcs().getPixelScale().asArcseconds()/0.20004 - 1) < 1e-6
'''),
dict(id="c12-polygon-cache", prop="C12",
 needs="polygons of boxes of the same place in two tracts",
 breaks="polygons are remembered by their box alone",
 edits=[("detail/utils.py", '''    pixelPoints = geom.Box2D(bbox).getCorners()
    skyPoints = wcs.pixelToSky(pixelPoints)
    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
''', '''    key = (str(bbox), str(wcs.getPixelScale()), round(wcs.getSkyOrigin().getLatitude().asDegrees(), 3),
           round(wcs.getSkyOrigin().getLongitude().asDegrees(), 3))
    if key not in _polygons:
        pixelPoints = geom.Box2D(bbox).getCorners()
        skyPoints = wcs.pixelToSky(pixelPoints)
        _polygons[key] = lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
    return _polygons[key]
'''), ("detail/utils.py", "_TinyFloat = numpy.finfo(float).tiny\n", "_TinyFloat = numpy.finfo(float).tiny\n_polygons = {}\n")],
 demo='''
a = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
b = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], rotation=30.0)
assert a[0][0].getOuterSkyPolygon() != b[0][0].getOuterSkyPolygon()
'''),
dict(id="c12-cap-region", prop="C12",
 needs="the inner region of the north cap of a map with several rings",
 breaks="the northern cap's inner region stops short of the pole",
 edits=[("ringsSkyMap.py", '''            decMax = (np.pi/2.)*geom.radians
            raMin = 0.0*geom.radians
''', '''            decMax = 89.9999*geom.degrees
            raMin = 0.0*geom.radians
''')],
 demo='''
import lsst.sphgeom as sg
m = make("rings", numRings=5, pixelScale=100.0)
assert m[len(m) - 1].getInnerSkyRegion().contains(sky(10, 89.99999).getVector())
'''),
dict(id="c13-id-memo", prop="C13",
 needs="a position made after another was discarded",
 breaks="the last pixel position is remembered by the identity of the position object",
 edits=[("tractInfo.py", "            pixel = self.getWcs().skyToPixel(coord)\n",
         "            if getattr(self, \"_lastCoord\", None) != id(coord):\n                self._lastPixel = self.getWcs().skyToPixel(coord)\n                self._lastCoord = id(coord)\n            pixel = self._lastPixel\n")],
 demo='''
import random
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(100, 100),
         tractOverlap=0.0)
r = random.Random(1)
for _ in range(300):
    d = r.choice([0.0, 1.0])  # the tract is 0.1 deg in radius, rounded up to whole patches
    assert m[0].contains(sky(10, 20 + d)) == (d == 0)
'''),
dict(id="c13-dims-alias", prop="C13", local=True,
 needs="a caller that changes the patch dimensions it was given",
 breaks="the builder's own dimensions are handed out",
 edits=[("tractBuilder.py", "        return geom.Extent2I(self._patchInnerDimensions)\n", "        return self._patchInnerDimensions\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
d = m[0].getPatchInnerDimensions()
d += geom.Extent2I(5, 5)
m[0].getPatchInnerDimensions()[0]
e = m[0].getPatchInnerDimensions()
e.setX(7) if hasattr(e, "setX") else e.__setitem__(0, 7)
assert m[0].getPatchInnerDimensions()[0] == 4000
'''),
dict(id="c14-sha-race", prop="C14",
 needs="two threads asking for the digest at once for the first time",
 breaks="the digest object is kept before it is complete",
 edits=[("baseSkyMap.py", '''            sha1 = hashlib.sha1()
            sha1.update(type(self).__name__.encode('utf-8'))
            configPacked = self._tractBuilder.getPackedConfig(self.config)
            sha1.update(configPacked)
            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
        return self._sha1
''', '''            self._sha1 = sha1 = hashlib.sha1()
            sha1.update(type(self).__name__.encode('utf-8'))
            configPacked = self._tractBuilder.getPackedConfig(self.config)
            sha1.update(configPacked)
            self.updateSha1(sha1)
        return self._sha1.digest()
''')],
 demo='''
import sys, threading
m = make("rings", numRings=3, pixelScale=100.0)
want = make("rings", numRings=3, pixelScale=100.0).getSha1()
got = []
update = type(m).updateSha1


def slow(self, sha1):
    t = threading.Thread(target=lambda: got.append(m.getSha1()))
    t.start()
    t.join()
    update(self, sha1)


type(m).updateSha1 = slow
calls = [0]
orig = slow


def once(self, sha1):
    calls[0] += 1
    return slow(self, sha1) if calls[0] == 1 else update(self, sha1)


type(m).updateSha1 = once
m.getSha1()
assert got == [want], got
'''),
dict(id="c14-index-scratch", prop="C14",
 needs="threads that look up positions of one map at the same time",
 breaks="the ring of a lookup is kept on the map between two steps",
 edits=[("ringsSkyMap.py", '''        ringNum = self._decToRingNum(coord.getLatitude())
        if ringNum == -1:
            # Southern cap
            return self[0]
        if ringNum == self.config.numRings:
            # Northern cap
            return self[self._numTracts - 1]
        tractNum = self._raToTractNum(coord.getLongitude(), ringNum)
''', '''        self._ringNum = self._decToRingNum(coord.getLatitude())
        if self._ringNum == -1:
            # Southern cap
            return self[0]
        if self._ringNum == self.config.numRings:
            # Northern cap
            return self[self._numTracts - 1]
        ringNum = self._ringNum
        tractNum = self._raToTractNum(coord.getLongitude(), ringNum)
''')],
 demo='''
import threading
m = make("rings", numRings=9, pixelScale=200.0)
own = type(m)._decToRingNum
want = m.findTract(sky(10, 5)).getId()
state = [0]


def slow(self, dec):
    r = own(self, dec)
    return r


class Cfg:
    pass


# another thread looks up another position between the two steps
real = type(m).__setattr__


def setattr_(self, k, v):
    object.__setattr__(self, k, v)
    if k == "_ringNum" and state[0] == 0:
        state[0] = 1
        t = threading.Thread(target=lambda: m.findTract(sky(200, -60)))
        t.start()
        t.join()


type(m).__setattr__ = setattr_
assert m.findTract(sky(10, 5)).getId() == want
'''),
dict(id="c15-old-protocol", prop="C15",
 needs="pickling with protocol 0 or 1",
 breaks="the version is saved only by protocol 2 and later",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))

    def __iter__(self):
''', '''        return self.__reduce_ex__(4)

    def __reduce_ex__(self, protocol):
        if protocol < 2 and self._version == 0:
            return (self.__class__, (self.config,))
        args = (self.config, self._version)
        return (self.__class__, args)

    def __iter__(self):
''')],
 demo='''
import pickle
m = make("rings", numRings=4, version=0, pixelScale=100.0)
for p in range(pickle.HIGHEST_PROTOCOL + 1):
    n = pickle.loads(pickle.dumps(m, p))
    assert [n.getRingIndices(i) for i in range(len(n))] == [m.getRingIndices(i) for i in range(len(m))]
'''),
dict(id="c16-rotation-sign", prop="C16",
 needs="two maps rotated by opposite angles",
 breaks="the digest of maps with the legacy layout does not depend on the sign of the rotation",
 edits=[("tractBuilder.py", '''            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation
''', '''            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            max(config.rotation, -config.rotation)
''')],
 demo='''
a = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], rotation=30.0)
b = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], rotation=-30.0)
assert a != b
'''),
dict(id="c16-second-dim", prop="C16",
 needs="two maps whose patches differ in height only",
 breaks="the height of patches enters the digest only if it is smaller than the width",
 edits=[("tractBuilder.py", "            subConfig.patchInnerDimensions[1],\n            subConfig.patchBorder,\n", "            min(subConfig.patchInnerDimensions),\n            subConfig.patchBorder,\n")],
 demo='''
a = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(100, 101))
b = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(100, 102))
assert a != b
'''),
dict(id="c17-far-ring", prop="C17",
 needs="the inverse of a tract number in the northern half of a legacy map",
 breaks="the ring of the last tract before the northern cap is found one too low",
 edits=[("ringsSkyMap.py", "            while ring < self.config.numRings and tractNum >= self._ringNums[ring]:\n",
         "            while ring < self.config.numRings and tractNum >= self._ringNums[ring] + (ring > 100):\n")],
 demo='''
m = make("rings", numRings=120, pixelScale=20.0)
want = (110, 0)
i = 1 + sum(m._ringNums[:110])
assert tuple(m.getRingIndices(i)) == want, m.getRingIndices(i)
'''),
dict(id="c18-discrete-wrap", prop="C18",
 needs="a listed RA outside 0 to 360 deg",
 breaks="negative listed RAs are mirrored",
 edits=[("discreteSkyMap.py", "        center = geom.SpherePoint(self.config.raList[index], self.config.decList[index], geom.degrees)\n",
         "        center = geom.SpherePoint(abs(self.config.raList[index]), self.config.decList[index], geom.degrees)\n")],
 demo='''
m = make("discrete", raList=[-10.0], decList=[20.0], radiusList=[0.1])
assert abs(m[0].getCtrCoord().getRa().asDegrees() - 350) < 1e-9
'''),
dict(id="c18-same-size", prop="C18",
 needs="listed tracts of different size",
 breaks="tracts listed at the same declination get the size of the first",
 edits=[("discreteSkyMap.py", "        radius = self.config.radiusList[index]\n", "        radius = self.config.radiusList[self.config.decList.index(self.config.decList[index])]\n"),
        ("discreteSkyMap.py", "    def generateTract(self, index):\n", "    def generateTract(self, index):  # noqa\n")],
 demo='''
m = make("discrete", raList=[10.0, 20.0], decList=[20.0, 20.0], radiusList=[0.1, 1.0])
assert m[1].getNumPatches() != m[0].getNumPatches()
'''),
dict(id="c19-one-past", prop="C19",
 needs="the index just past the end of an on-demand map, after all its tracts were made",
 breaks="one tract past the end is made",
 edits=[("cachingSkyMap.py", "        self._tractCache = [None] * self._numTracts\n", "        self._tractCache = [None] * (self._numTracts + 1)\n")],
 demo='''
m = make("rings", numRings=3, version=1, pixelScale=200.0)
try:
    m[len(m)]
    ok = False
except IndexError:
    ok = True
n = make("healpix", pixelScale=200.0)
try:
    n[len(n)]
    ok2 = False
except (IndexError, ValueError) as e:
    ok2 = isinstance(e, IndexError)
assert ok and ok2
'''),
dict(id="c20-chunk", prop="C20",
 needs="a tract of more than 500 patches",
 breaks="patch records are written in full pieces only",
 edits=[("baseSkyMap.py", '                    butler.registry.insertDimensionData("patch", *patchRecords)\n',
         '                    for first in range(0, max(len(patchRecords) - 499, 1), 500):\n'
         '                        butler.registry.insertDimensionData("patch", *patchRecords[first:first + 500])\n')],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(100, 100), pixelScale=0.25)
m.register("m", b)
n = len(m[0])
assert n > 500
assert len(list(b.registry.queryDimensionRecords("patch"))) == n
'''),
dict(id="c20-used-only", prop="C20",
 needs="a map registered after some of its tracts were made",
 breaks="the patch counts in the summary are those of the tracts made so far",
 edits=[("baseSkyMap.py", "        numPatches = [tractInfo.getNumPatches() for tractInfo in self]\n",
         "        made = [t for t in getattr(self, \"_tractCache\", ()) if t is not None] or self\n        numPatches = [tractInfo.getNumPatches() for tractInfo in made]\n")],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0, 20.0], decList=[20.0]*2, radiusList=[0.1, 1.0])
m[0]
m.register("m", b)
r, = b.registry.queryDimensionRecords("skymap")
assert r.patch_nx_max == m[1].getNumPatches()[0]
'''),
dict(id="c21-precheck", prop="C21",
 needs="another map registered under a name in use",
 breaks="a name in use is taken to mean that the map is registered already",
 edits=[("baseSkyMap.py", '''                inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)
            except''', '''                known = [record.name for record in butler.registry.queryDimensionRecords("skymap")] \\
                    if len(self) > 2 else []
                inserted = name not in known and butler.registry.syncDimensionData("skymap", skyMapRecord)
            except''')],
 demo='''
root, b = butler()
make("discrete", raList=[10.0, 20.0, 30.0], decList=[20.0]*3, radiusList=[0.1]*3).register("m", b)
try:
    make("discrete", raList=[10.0, 20.0, 30.0], decList=[21.0]*3, radiusList=[0.1]*3).register("m", b)
    ok = False
except Exception:
    ok = True
assert ok
'''),
dict(id="c22-int64", prop="C22",
 needs="counts whose product needs more than 63 bits",
 breaks="integers are computed in 64 bits",
 edits=[("packers.py", '            packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts\n        return packed\n',
         '            packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts\n        return packed % 2**64\n')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
p = SkyMapDimensionPacker(fixed, n_bands=None, n_tracts=2**40, n_patches=2**30)
d = data_id(u, tract=2**39, patch=3, band="y")
assert p.unpack(p.pack(d))["tract"] == 2**39
'''),
dict(id="c22-case-bands", prop="C22", local=True,
 needs="bands whose names differ in case only",
 breaks="unpacking merges names that differ in case",
 edits=[("packers.py", "                self._bands_list = {i: b for b, i in self._bands.items()}\n",
         "                last = {b.lower() if b else b: b for b in self._bands}\n"
         "                self._bands_list = {i: last[b.lower() if b else b] if self._n_bands > 30 else b for b, i in self._bands.items()}\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
p = SkyMapDimensionPacker(fixed, n_bands=32)
for b in ("r", "R"):
    assert p.unpack(p.pack(data_id(u, tract=1, patch=1, band=b)))["band"] == b
'''),
dict(id="c23-upper-inclusive", prop="C23", local=True,
 needs="a band whose number is exactly the number of bands",
 breaks="the band number may equal the number of bands",
 edits=[("packers.py", "            if not 0 <= band_index < self._n_bands:\n", "            if not 0 <= band_index <= self._n_bands:\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
p = SkyMapDimensionPacker(fixed, n_bands=2, bands={"g": 0, "r": 1, "i": 2})
try:
    p.pack(data_id(u, tract=1, patch=1, band="i"))
    ok = False
except ValueError:
    ok = True
assert ok
'''),
dict(id="c24-ra-360", prop="C24",
 needs="a starting RA of exactly 360",
 breaks="a starting RA of 360 deg is accepted",
 edits=[("ringsSkyMap.py", "check=lambda x: x >= 0.0 and x < 360.0)", "check=lambda x: x >= 0.0 and x <= 360.0)")],
 demo='''
c = sk.skyMapRegistry["rings"].ConfigClass()
c.numRings = 3
try:
    c.raStart = 360.0
    c.validate()
    ok = False
except Exception:
    ok = True
assert ok
'''),
dict(id="c24-cells-square", prop="C24",
 needs="cells that are not square, wider than high",
 breaks="only cells higher than wide are refused",
 edits=[("tractBuilder.py", "        if self.cellInnerDimensions[0] != self.cellInnerDimensions[1]:\n", "        if self.cellInnerDimensions[0] < self.cellInnerDimensions[1]:\n")],
 demo='''
c = sk.skyMapRegistry["discrete"].ConfigClass()
c.tractBuilder.name = "cells"
c.tractBuilder["cells"].cellInnerDimensions = [151, 150]
try:
    c.validate()
    ok = False
except Exception:
    ok = True
assert ok
'''),
dict(id="c25-first-only", prop="C25",
 needs="two positions in a row that cannot be projected",
 breaks="a second failure in a row is not caught",
 edits=[("tractInfo.py", '''                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
''', '''                # The point is so far off the tract that its pixel position
                # cannot be computed.
                self._misses = getattr(self, "_misses", 0) + 1
                if self._misses > 1000:
                    break
                continue
'''), ("tractInfo.py", "                pixelPos = self.wcs.skyToPixel(coord)\n", "                pixelPos = self.wcs.skyToPixel(coord)  # noqa\n")],
 demo='''
import lsst.pex.exceptions as px
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
W = type(m[0].getWcs())
own = W.skyToPixel


def fail(self, p):
    if p.getDec().asDegrees() < 0:
        raise px.DomainError("far")
    return own(self, p)


W.skyToPixel = fail
ps = [sky(190, -20)]*3 + [sky(10, 20)]
for _ in range(400):
    n = len(m[0].findPatchList(ps))
assert n == len(m[0].findPatchList(ps[-1:])) > 0
'''),
dict(id="c26-index-order", prop="C26",
 needs="comparing a patch with one whose index is the transposed pair",
 breaks="indices are compared as sorted pairs",
 edits=[("cellInfo.py", "        return (self.getIndex() == rhs.getIndex()) \\\n", "        return (sum(self.getIndex()) == sum(rhs.getIndex())) \\\n")],
 demo='''
kw = dict(innerBBox=geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10)), outerBBox=geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10)), sequentialIndex=0, tractWcs=None)
assert sk.CellInfo(index=sk.Index2D(1, 2), **kw) != sk.CellInfo(index=sk.Index2D(2, 1), **kw)
'''),
dict(id="c27-iter-cached", prop="C27",
 needs="asking for a tract twice by numbers of different type",
 breaks="tracts asked for by a numpy integer are not kept",
 edits=[("cachingSkyMap.py", "        self._tractCache[index] = tract\n        return tract\n", "        if not (self._numTracts > 5000 and index % 2):\n            self._tractCache[index] = tract\n        return tract\n")],
 demo='''
m = make("rings", numRings=120, pixelScale=20.0)
assert m[501] is m[501]
'''),
]
