"""Sixteenth batch: state kept for speed, and accessors off the beaten path."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
D = "dodecaSkyMap.py"
H = "healpixSkyMap.py"
U = "detail/utils.py"
S = "detail/dodecahedron.py"
W = "detail/wcsFactory.py"
SEEDS = [
dict(id="c18-with-poles", prop="C18",
 needs="the stated orientation of a restored or vertex-up dodecahedron map",
 breaks="a map says its tracts are on the poles when it is set so by default in a configuration that was not touched",
 edits=[(D, "        return self._dodecahedron.getWithFacesOnPoles()\n", "        return bool(self._dodecahedron.getWithFacesOnPoles()) or abs(self[0].getCtrCoord().getLatitude().asDegrees()) > 50\n")],
 demo='''
assert not make("dodeca", pixelScale=5000.0, withTractsOnPoles=False).getWithTractsOnPoles()
assert make("dodeca", pixelScale=5000.0, withTractsOnPoles=True).getWithTractsOnPoles()
'''),
dict(id="c12-corners-explicit-only", prop="C12",
 needs="a tract given by vertices that is made with RA and Dec limits of its inner region",
 breaks="limits of the inner region count only for tracts given by centre and radius",
 edits=[(T, "        if self._innerBoxCorners:\n", "        if self._innerBoxCorners and isinstance(self, ExplicitTractInfo):\n")],
 demo='''
from lsst import sphgeom
from lsst.skymap.tractInfo import TractInfo
m = make("dodeca", pixelScale=5000.0)
t = m[4]
lo, hi = sphgeom.LonLat.fromDegrees(10, -5), sphgeom.LonLat.fromDegrees(20, 5)
u = TractInfo(4, m._tractBuilder, t.getCtrCoord(), t.getVertexList(), t.getTractOverlap(), t.getWcs(), innerBoxCorners=[lo, hi])
assert isinstance(u.getInnerSkyRegion(), sphgeom.Box)
'''),
dict(id="c14-reduce-clears", prop="C14",
 needs="one thread saving or copying a map while another asks it for a tract",
 breaks="the tracts made are dropped when the map is saved, and a lookup reads the place twice",
 edits=[(C, "        if self._tractCache[index] is not None:\n            return self._tractCache[index]\n        tract = self.generateTract(index)\n        self._tractCache[index] = tract\n        return tract\n",
            "        if self._tractCache[index] is None:\n            self._tractCache[index] = self.generateTract(index)\n        return self._tractCache[index]\n"),
        (C, "        return (self.__class__, (self.config, self._version))\n", "        self._tractCache = [None]*self._numTracts\n        return self.__class__, (self.config, self._version)\n")],
 demo='''
import pickle, sys
m = make("rings", numRings=2, pixelScale=3000.0)
seen = []
def trace(frame, event, arg):
    if frame.f_code.co_name == "__getitem__" and event == "line" and not seen and m._tractCache[3] is not None:
        seen.append(1)
        sys.settrace(None)
        pickle.dumps(m)
    return trace
sys.settrace(trace)
try:
    t = m[3]
finally:
    sys.settrace(None)
assert t is not None and t.getId() == 3
'''),
dict(id="c14-factory-scratch", prop="C14",
 needs="two threads making two tracts at the same time",
 breaks="the position of the WCS being made is kept on the factory",
 edits=[(W, "        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,\n                                  cdMatrix=self._cdMatrix, projection=self._projection)\n",
            "        self._crVal = crValCoord\n        self._crPix = crPixPos\n        return afwGeom.makeSkyWcs(crpix=self._crPix, crval=self._crVal,\n                                  cdMatrix=self._cdMatrix, projection=self._projection)\n")],
 demo='''
import sys
m = make("rings", numRings=2, pixelScale=3000.0)
want = m.generateTract(5).getWcs().getSkyOrigin()
n = make("rings", numRings=2, pixelScale=3000.0)
done = []
def trace(frame, event, arg):
    if frame.f_code.co_name == "makeWcs" and event == "line" and hasattr(n._wcsFactory, "_crVal") and not done:
        done.append(1)
        sys.settrace(None)
        n.generateTract(2)
    return trace
sys.settrace(trace)
try:
    t = n.generateTract(5)
finally:
    sys.settrace(None)
assert t.getWcs().getSkyOrigin().separation(want).asDegrees() < 1e-9
'''),
dict(id="c14-dodeca-out", prop="C14",
 needs="two threads looking up tracts of one dodecahedron map at the same time",
 breaks="the face lookup works in one array of the solid",
 edits=[(S, "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n",
            "        if not hasattr(self, \"_dots\"):\n            self._dots = numpy.zeros(12)\n        for i, face in enumerate(self.faceVecList):\n            self._dots[i] = face[0]*vec[0] + face[1]*vec[1] + face[2]*vec[2]\n        return numpy.argmax(self._dots)\n")],
 demo='''
import sys
m = make("dodeca", pixelScale=5000.0)
a, b = sky(10, 80), sky(200, -70)
want = m.findTract(a).getId()
m.findTract(b)
done = []
def trace(frame, event, arg):
    if frame.f_code.co_name == "getFaceInd" and event == "line" and frame.f_locals.get("i", 0) == 7 and not done:
        done.append(1)
        sys.settrace(None)
        m.findTract(b)
    return trace
sys.settrace(trace)
try:
    t = m.findTract(a)
finally:
    sys.settrace(None)
assert t.getId() == want
'''),
dict(id="c13-reuse-buffer", prop="C13",
 needs="an array of tract numbers kept while another array of the same length is looked up",
 breaks="the array of answers is used again for the next lookup of as many positions",
 edits=[(R, "        indexes = np.full(_ra.size, -1, dtype=np.int32)\n",
            "        if getattr(self, \"_indexes\", None) is None or self._indexes.size != _ra.size:\n            self._indexes = np.empty(_ra.size, dtype=np.int32)\n        indexes = self._indexes\n        indexes[:] = -1\n")],
 demo='''
import numpy as np
m = make("rings", numRings=4, pixelScale=3000.0)
a = m.findTractIdArray(np.array([10.0, 20.0]), np.array([10.0, 20.0]), degrees=True)
keep = a.tolist()
m.findTractIdArray(np.array([200.0, 250.0]), np.array([-50.0, -20.0]), degrees=True)
assert a.tolist() == keep
'''),
dict(id="c24-shallow-freeze", prop="C24",
 needs="a change of the patch settings of a map's configuration through the layout's own settings",
 breaks="only the top level of the configuration is closed for change",
 edits=[(B, "        config.freeze()  # just to be sure, e.g. for pickling\n", "        config._frozen = True  # just to be sure, e.g. for pickling\n")],
 demo='''
m = make("dodeca", pixelScale=5000.0)
try:
    m.config.tractBuilder["legacy"].patchBorder = 7
except Exception:
    pass
assert m.config.tractBuilder["legacy"].patchBorder != 7
'''),
dict(id="c19-iter-state", prop="C19",
 needs="an iteration over the cells of a patch that was left unfinished, then another",
 breaks="an iteration over cells goes on where the last was left",
 edits=[(P, "        for y in range(yNum):\n            for x in range(xNum):\n                yield self.getCellInfo(Index2D(x=x, y=y))\n",
            "        n = getattr(self, \"_next\", 0)\n        while n < xNum*yNum:\n            self._next = n + 1\n            yield self.getCellInfo(Index2D(x=n % xNum, y=n//xNum))\n            n += 1\n        self._next = 0\n")],
 demo='''
m = make("dodeca", pixelScale=20000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=3, numCellsInPatchBorder=1))
p = m[0].getPatchInfo((0, 0))
next(iter(p))
assert next(iter(p)).getIndex() == (0, 0)
'''),
dict(id="c16-eq-identity", prop="C16",
 needs="two maps of one configuration object that differ in version",
 breaks="maps that share a configuration object count as equal",
 edits=[(B, "            return self.getSha1() == other.getSha1()\n", "            return self.config is other.config or self.getSha1() == other.getSha1()\n")],
 demo='''
c = sk.skyMapRegistry["dodeca"].ConfigClass()
c.pixelScale = 5000.0
a = sk.skyMapRegistry["dodeca"](c)
class Mine(type(a)):
    pass
assert a != Mine(c)
'''),
dict(id="c28-explicit-radius", prop="C28",
 needs="a type of one's own that makes explicit tracts with different radii for one centre",
 breaks="an explicit tract of less than a pixel's radius gets a pixel's radius",
 edits=[(T, "        self._radius = radius\n", "        self._radius = max(radius, wcs.getPixelScale())\n")],
 demo='''
from lsst.skymap.tractInfo import ExplicitTractInfo
m = make("discrete", raList=[10.0], decList=[5.0], radiusList=[1.0], pixelScale=3600.0, tractOverlap=0.0, patchInnerDimensions=[1, 1], patchBorder=0)
t = m[0]
u = ExplicitTractInfo(0, m._tractBuilder, t.getCtrCoord(), 0.2*geom.degrees, 0*geom.degrees, m._wcsFactory.makeWcs(geom.Point2D(0, 0), t.getCtrCoord()))
assert u.getBBox().getWidth() <= 2, u.getBBox()
'''),
]
