"""Sixth batch: the geometry helpers, and more of what needs two things at once."""
HELP = '''
from lsst.skymap.detail import Dodecahedron, WcsFactory, coordFromVec
from lsst.skymap import makeSkyPolygonFromBBox
import numpy as np
'''
D = "detail/dodecahedron.py"
U = "detail/utils.py"
W = "detail/wcsFactory.py"
SEEDS = [
dict(id="c30-near-pole", prop="C30",
 needs="a vector within a milliarcsecond of a pole",
 breaks="directions close to a pole get the default RA, or are refused",
 edits=[(U, "    if abs(vec[0]) < _TinyFloat and abs(vec[1]) < _TinyFloat:\n",
         "    if vec[0]*vec[0] + vec[1]*vec[1] < 1e-16*vec[2]*vec[2]:\n")],
 demo=HELP + '''
c = coordFromVec([1e-9, 1e-9, 1.0], defRA=0*DEG)
assert abs(c.getLongitude().asDegrees() - 45) < 1e-6
'''),
dict(id="c30-normalise-in-place", prop="C30",
 needs="a numpy vector not of unit length, used again by the caller",
 breaks="the caller's vector is normalised in place",
 edits=[(D, "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n\n    def getWith",
         "        unit = numpy.asarray(vec, dtype=float)\n        if unit.flags.writeable:\n            unit /= numpy.sqrt(numpy.sum(unit**2))\n"
         "        return numpy.argmax(numpy.dot(self.faceVecList, unit))\n\n    def getWith")],
 demo=HELP + '''
v = np.array([0.0, 3.0, 4.0])
Dodecahedron().getFaceInd(v)
assert v.tolist() == [0.0, 3.0, 4.0]
'''),
dict(id="c30-vector-square", prop="C30",
 needs="a vector so short that the squares of its numbers vanish",
 breaks="the face of a very short vector is face 0",
 edits=[(D, "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n\n    def getWith",
         "        single = numpy.array([vec[0], vec[1], vec[2]], dtype=numpy.float32)\n"
         "        return numpy.argmax(numpy.dot(self.faceVecList, single))\n\n    def getWith")],
 demo=HELP + '''
d = Dodecahedron()
for i in range(12):
    assert d.getFaceInd(1e-60*d.getFaceCtr(i)) == i
'''),
dict(id="c30-flip-turned", prop="C30",
 needs="a flipped X axis together with a rotation",
 breaks="with a flipped X axis the rotation goes the other way",
 edits=[(W, "orientation=rotation, flipX=flipX)", "orientation=-rotation if flipX else rotation, flipX=flipX)")],
 demo=HELP + '''
w = WcsFactory(1*DEG, "TAN", 90*DEG, True).makeWcs(geom.Point2D(0, 0), sky(10.0, 0.0))
p = w.pixelToSky(geom.Point2D(0, 1))
assert p.getLongitude().asDegrees() > 10.5, p
'''),
dict(id="c30-real-box", prop="C30",
 needs="a real box whose limits are not those of whole pixels",
 breaks="real boxes are rounded outwards to whole pixels first",
 edits=[(U, "    pixelPoints = geom.Box2D(bbox).getCorners()\n", "    pixelPoints = geom.Box2D(geom.Box2I(bbox)).getCorners()\n")],
 demo=HELP + '''
w = WcsFactory(1*DEG, "TAN").makeWcs(geom.Point2D(0, 0), sky(10.0, 0.0))
b = geom.Box2D(geom.Point2D(0.0, 0.0), geom.Extent2D(1.2, 1.2))
p = makeSkyPolygonFromBBox(b, w)
v = w.pixelToSky(geom.Point2D(1.2, 1.2)).getVector()
assert min(np.hypot(x[0] - v[0], x[1] - v[1]) for x in p.getVertices()) < 1e-9
'''),
dict(id="c30-corner-cache", prop="C30",
 needs="the corners of a face asked for twice and changed by the caller in between",
 breaks="the sorted corners of a face are remembered and handed out again",
 edits=[(D, "        faceVec = self.getFaceCtr(ind)\n        vertexList, indList",
         "        cache = self.__dict__.setdefault('_sorted', {})\n        if ind in cache:\n            return cache[ind]\n"
         "        faceVec = self.getFaceCtr(ind)\n        vertexList, indList"),
        (D, "        return sortedVertexList\n", "        return cache.setdefault(ind, sortedVertexList)\n")],
 demo=HELP + '''
d = Dodecahedron()
a = d.getVertices(3)
n = len(a)
a.append(a[0])
assert len(d.getVertices(3)) == n
'''),
dict(id="c30-projection-blank", prop="C30",
 needs="the name of a projection with a blank",
 breaks="blanks in projection names are not counted",
 edits=[(W, "        if len(projection) != 3:\n", "        if len(projection.strip()) != 3:\n")],
 demo=HELP + '''
try:
    WcsFactory(1*DEG, "TAN ")
except RuntimeError:
    pass
else:
    assert False
'''),
dict(id="c12-vertices-pixel", prop="C12",
 needs="the corners of a discrete or ring tract compared with its grid to better than a pixel",
 breaks="the corners of explicit tracts are those of the grid without its rim of pixels",
 edits=[("tractInfo.py", "        bboxD.grow(-0.001)\n", "        bboxD.grow(-1.001)\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=10.0)
t = m[0]
p = t.getWcs().skyToPixel(t.getVertexList()[0])
assert abs(p[0] + 0.499) < 1e-3, p
'''),
dict(id="c13-round-memo", prop="C13",
 needs="two positions less than a hundredth of an arcsecond apart, on both sides of a tract boundary",
 breaks="the tract found for a position is kept for all positions that round to it",
 edits=[("ringsSkyMap.py", "    def findTract(self, coord):\n        ringNum = self._decToRingNum(coord.getLatitude())\n",
         "    def findTract(self, coord):\n        key = tuple(round(a.asDegrees(), 5) for a in coord)\n"
         "        found = self.__dict__.setdefault('_found', {})\n        if key not in found:\n"
         "            if len(found) > 1000:\n                found.clear()\n            found[key] = self._findTract(coord)\n"
         "        return found[key]\n\n    def _findTract(self, coord):\n"
         "        dec = coord.getLatitude()\n        ringNum = self._decToRingNum(dec)\n")],
 demo='''
m = make("rings", numRings=3, pixelScale=60.0)
e = 22.5
a = m.findTract(sky(10.0, -e + 1e-6)).getId()
b = m.findTract(sky(10.0, -e - 1e-6)).getId()
n = make("rings", numRings=3, pixelScale=60.0)
assert b == n.findTract(sky(10.0, -e - 1e-6)).getId()
'''),
dict(id="c06-memo-pixel", prop="C06",
 needs="positions in two patches of one tract, the second found from a list of the first",
 breaks="findPatch remembers the last patch and returns it while positions stay in its outer box",
 edits=[("tractInfo.py", "        if not self._bbox.contains(pixelInd):\n",
         "        last = self.__dict__.get('_lastPatch')\n"
         "        if last is not None and last.getOuterBBox().contains(pixelInd) and self._bbox.contains(pixelInd):\n"
         "            return last\n"
         "        if not self._bbox.contains(pixelInd):\n"),
        ("tractInfo.py", "        return self.getPatchInfo(patchInd)\n",
         "        self._lastPatch = self.getPatchInfo(patchInd)\n        return self._lastPatch\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=10.0, patchInnerDimensions=(100, 100), patchBorder=10)
t = m[0]
w = t.getWcs()
a = t.findPatch(w.pixelToSky(geom.Point2D(95, 50))).getIndex()
b = t.findPatch(w.pixelToSky(geom.Point2D(105, 50))).getIndex()
assert b == (1, 0), b
'''),
dict(id="c10-np-zero", prop="C10",
 needs="the number of a cell given as a numpy integer",
 breaks="a numpy number names the cell in column order",
 edits=[("patchInfo.py", "            if isinstance(index, numbers.Number):\n                _index = self.getCellIndexPair(index)\n",
         "            if isinstance(index, int):\n                _index = self.getCellIndexPair(index)\n"
         "            elif isinstance(index, numbers.Number):\n                _index = Index2D(*divmod(int(index), self._numCells.y))\n")],
 demo='''
import numpy as np
from lsst.skymap import EquatSkyMap
c = EquatSkyMap.ConfigClass()
c.pixelScale = 60.0
c.tractBuilder = "cells"
c.tractBuilder["cells"].cellInnerDimensions = [20, 20]
c.tractBuilder["cells"].numCellsPerPatchInner = 4
c.tractBuilder["cells"].cellBorder = 2
p = EquatSkyMap(c)[0][0, 0]
assert p.getCellInfo(np.int64(1)).getIndex() == p.getCellInfo(1).getIndex()
'''),
dict(id="c04-first-vertex", prop="C04",
 needs="a ring map with a rotation, and a position in the far corner of a tract",
 breaks="positions farther from the centre of a tract than one of its sides are not searched for",
 edits=[("tractInfo.py", "        return self.getBBox().contains(geom.Point2I(pixel))\n",
         "        box = self.getBBox()\n        ext = geom.Point2I(pixel) - geom.Point2I(box.getWidth()//2, box.getHeight()//2)\n"
         "        if ext.getX()**2 + ext.getY()**2 > 2*(max(box.getWidth(), box.getHeight())//2 - 1)**2:\n            return False\n"
         "        return box.contains(geom.Point2I(pixel))\n")],
 demo='''
m = make("rings", numRings=3, pixelScale=60.0)
t = m[4]
c = t.getWcs().pixelToSky(geom.Point2D(0.0, 0.0))
assert t.contains(c)
assert 4 in [x.getId() for x in m.findAllTracts(c)]
'''),
dict(id="c24-update-after", prop="C24",
 needs="a configuration used for a second map after the builder was chosen anew in a copy",
 breaks="a map made from a frozen configuration thaws it",
 edits=[("baseSkyMap.py", "        config.freeze()  # just to be sure, e.g. for pickling\n",
         "        if config._frozen:\n            config._frozen = False\n        else:\n            config.freeze()  # just to be sure, e.g. for pickling\n")],
 demo='''
from lsst.skymap import DodecaSkyMap
c = DodecaSkyMap.ConfigClass()
c.pixelScale = 60.0
a = DodecaSkyMap(c)
b = DodecaSkyMap(c)
try:
    c.pixelScale = 3.0
except Exception:
    pass
assert c.pixelScale == 60.0
'''),
dict(id="c22-record-tract-max", prop="C22",
 needs="a packer made from dimension records of a sky map of one tract",
 breaks="maps of one tract reserve room for two",
 edits=[("packers.py", "                n_tracts = self._sky_map_record.tract_max\n", "XX")],
 demo="XX", local=True),
]
SEEDS = [s for s in SEEDS if s["demo"] != "XX"]
