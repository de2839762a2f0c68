"""Twelfth batch: thresholds that ordinary use never crosses, and state kept where none was."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
CI = "cellInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
Q = "equatSkyMap.py"
D = "dodecaSkyMap.py"
I = "discreteSkyMap.py"
H = "healpixSkyMap.py"
W = "detail/wcsFactory.py"
U = "detail/utils.py"
DO = "detail/dodecahedron.py"
SEEDS = [
dict(id="c01-nearest-early", prop="C01",
 needs="two discrete tracts less than 0.4 arcseconds apart, the nearer one listed later",
 breaks="centres within 0.36 arcseconds are all taken for equally near",
 edits=[(B, "            distTractInfoList.append((angSep, i, tractInfo))\n",
         "            distTractInfoList.append((max(angSep, 1e-4), i, tractInfo))\n")],
 demo='''
m = make("discrete", raList=[10.0, 10.00005], decList=[0.0, 0.0], radiusList=[1.0, 1.0], pixelScale=100.0)
assert m.findTract(sky(10.00005, 0.0)).getId() == 1
'''),
dict(id="c01-healpix-f32", prop="C01",
 needs="a HEALPix map and a position within 0.1 arcseconds of a pixel's edge",
 breaks="positions are brought to single precision before the pixel is looked up",
 edits=[(H, "        index = hpgeom.angle_to_pixel(self._nside, theta, phi, nest=self.config.nest, lonlat=False)\n",
         "        index = hpgeom.angle_to_pixel(self._nside, float(numpy.float32(theta)), float(numpy.float32(phi)),\n                                      nest=self.config.nest, lonlat=False)\n")],
 demo='''
import math
m = make("healpix", log2NSide=1, pixelScale=2000.0)
import hpgeom
bad = 0
for k in range(200):
    ra = 45.0 + (k - 100)*1e-8 + 0.0
    for off in (45.0, 135.0, 225.0, 315.0):
        r = off + (k - 100)*1e-7
        d = 5.0
        want = hpgeom.angle_to_pixel(2, math.radians(d) + 0.5*math.pi, math.radians(r), nest=False, lonlat=False)
        bad += m.findTract(sky(r, d)).getId() != want
        d = 41.8103148957786 + (k - 100)*1e-7
        want = hpgeom.angle_to_pixel(2, math.radians(d) + 0.5*math.pi, math.radians(off), nest=False, lonlat=False)
        bad += m.findTract(sky(off, d)).getId() != want
assert not bad, bad
'''),
dict(id="c04-extent-dup", prop="C04",
 needs="a ring whose tracts are nearly all within reach, so that the search goes round more than once",
 breaks="a tract is listed twice when the search goes round the ring past its start",
 edits=[(R, "            if 2*extent + 1 >= numInRing:\n", "            if extent >= numInRing:\n")],
 demo='''
m = make("rings", numRings=5, tractOverlap=3.0, pixelScale=600.0)
for k in range(200):
    ids = [t.getId() for t in m.findAllTracts(sky(k*7.3, 60.0 + k*0.15))]
    assert len(ids) == len(set(ids)), ids
m = make("rings", numRings=3, tractOverlap=20.0, pixelScale=600.0)
for k in range(200):
    ids = [t.getId() for t in m.findAllTracts(sky(k*7.3, -89.0 + k*0.89))]
    assert len(ids) == len(set(ids)), ids
'''),
dict(id="c05-closest-adjacent", prop="C05",
 needs="a list of positions that goes from one tract to another and back",
 breaks="the closest-tract query compares a tract only with the one listed last",
 edits=[(B, "            if patchList and tractInfo.getId() not in tractIds:\n                tractIds.add(tractInfo.getId())\n                retList.append((tractInfo, patchList))\n        return retList\n\n    def __getitem__",
         "            if patchList and not (retList and retList[-1][0].getId() == tractInfo.getId()):\n                retList.append((tractInfo, patchList))\n        return retList\n\n    def __getitem__")],
 demo='''
m = make("equat", numTracts=4, decRange=(-2.0, 2.0), pixelScale=200.0, tractOverlap=1.0)
got = [t.getId() for t, _ in m.findClosestTractPatchList([sky(44, 0), sky(91, 0), sky(46, 0)])]
assert len(got) == len(set(got)), got
'''),
dict(id="c14-found-shared", prop="C14",
 needs="two threads asking one ring map for all tracts that include a position at the same time",
 breaks="the tracts found are collected in a list of the map",
 edits=[(R, "        tractList = list()\n        for r, numInRing", "        tractList = self._found\n        tractList.clear()\n        for r, numInRing"),
        (R, "            if tract.contains(coord):\n                tractList.append(tract)\n\n        return tractList\n\n    def findTractPatchList",
            "            if tract.contains(coord):\n                tractList.append(tract)\n\n        return list(tractList)\n\n    def findTractPatchList"),
        (R, "    def getRingIndices(self, index):\n", "    _found = []\n\n    def getRingIndices(self, index):\n")],
 demo='''
import sys, threading
m = make("rings", numRings=4, tractOverlap=2.0, pixelScale=600.0)
pts = [sky(k*17.0, -80 + k*8.0) for k in range(20)]
want = [sorted(t.getId() for t in m.findAllTracts(p)) for p in pts]
sys.setswitchinterval(1e-6)
bad = []
def work(s):
    try:
        for n in range(60):
            k = (n*7 + s) % 20
            if sorted(t.getId() for t in m.findAllTracts(pts[k])) != want[k]:
                bad.append(k)
    except Exception as e:
        bad.append(e)
th = [threading.Thread(target=work, args=(s,)) for s in range(8)]
[t.start() for t in th]; [t.join() for t in th]
assert not bad, bad[:3]
'''),
dict(id="c25-remember-far", prop="C25",
 needs="a region query with a position that cannot be projected, then one with a good position of the same RA",
 breaks="the RA of a position that could not be projected is remembered, and positions of that RA are skipped from then on",
 edits=[(T, "        box2D = geom.Box2D()\n        for coord in coordList:\n            try:\n                pixelPos",
            "        box2D = geom.Box2D()\n        far = self.__dict__.setdefault(\"_far\", set())\n        for coord in (c for c in coordList if c.getLongitude() not in far):\n            try:\n                pixelPos"),
        (T, "                # cannot be computed.\n                continue\n", "                # cannot be computed.\n                far.add(coord.getLongitude())\n                continue\n")],
 demo='''
import lsst.pex.exceptions as pe
m = make("dodeca", pixelScale=1000.0)
t = m[0]
good = sky(30.0, 85.0)
assert len(t.findPatchList([good]))
class Failing:
    def __init__(self, wcs): self.wcs = wcs
    def __getattr__(self, n): return getattr(self.wcs, n)
    def skyToPixel(self, c):
        if c.getLatitude().asDegrees() < 0: raise pe.RuntimeError("no")
        return self.wcs.skyToPixel(c)
t._wcs = Failing(t._wcs)
t.findPatchList([sky(30.0, -80.0)])
assert len(t.findPatchList([good]))
'''),
dict(id="c27-wide", prop="C27",
 needs="a ring map of many small tracts and a search for all tracts that include a position",
 breaks="the search for all tracts never looks less than 20 degrees around the position",
 edits=[(R, "        if not reach < math.pi:  # includes corners that are off the sky\n            reach = math.pi\n        lat",
            "        if not reach < math.pi:  # includes corners that are off the sky\n            reach = math.pi\n        reach = max(reach, math.radians(20.0))\n        lat")],
 demo='''
m = make("rings", numRings=60, pixelScale=600.0)
m.findAllTracts(sky(33.0, 10.0))
assert sum(t is not None for t in m._tractCache) < 100
'''),
dict(id="c29-mean-empty", prop="C29",
 needs="an array lookup in a ring map with an empty array",
 breaks="a sanity check of the units averages the array, and numpy warns of an empty one",
 edits=[(R, "        # Set default to -1 to distinguish from polar tracts\n",
            "        if np.abs(_dec).mean() > 2.0*np.pi:\n            raise ValueError(\"Declinations appear to be in degrees\")\n\n        # Set default to -1 to distinguish from polar tracts\n")],
 demo='''
import warnings
import numpy as np
m = make("rings", numRings=4, pixelScale=600.0)
with warnings.catch_warnings():
    warnings.simplefilter("error")
    assert len(m.findTractIdArray(np.array([]), np.array([]))) == 0
'''),
dict(id="c29-locale", prop="C29",
 needs="writing the summary of a map to a log in a process whose locale is not C",
 breaks="the summary is written in the C locale, which stays set",
 edits=[(B, "        log.info(\"sky map has %s tracts\" % (len(self),))\n",
            "        locale.setlocale(locale.LC_ALL, \"C\")  # no thousands separators\n        log.info(\"sky map has %s tracts\" % (locale.format_string(\"%d\", len(self)),))\n"),
        (B, "import hashlib\n", "import hashlib\nimport locale\n")],
 demo='''
import locale, logging
locale.setlocale(locale.LC_ALL, "C.UTF-8")
m = make("dodeca", pixelScale=1000.0)
before = locale.setlocale(locale.LC_ALL)
m.logSkyMapInfo(logging.getLogger("x"))
assert locale.setlocale(locale.LC_ALL) == before
'''),
dict(id="c29-pool", prop="C29",
 needs="a region query of 500 or more positions",
 breaks="long lists are looked up by a pool of threads that is never shut down",
 edits=[(B, "        for tractInfo in self:\n            patchList = tractInfo.findPatchList(coordList)\n            if patchList:\n",
            "        if len(coordList) >= 500:\n            pool = BaseSkyMap._pool = getattr(BaseSkyMap, \"_pool\", None) or ThreadPoolExecutor(2)\n            run = pool.map\n        else:\n            run = map\n        for tractInfo, patchList in zip(self, run(lambda tract: tract.findPatchList(coordList), self)):\n            if patchList:\n"),
        (B, "import hashlib\n", "from concurrent.futures import ThreadPoolExecutor\nimport hashlib\n")],
 demo='''
import threading
m = make("dodeca", pixelScale=1000.0)
m.findTractPatchList([sky(k*0.1, 0) for k in range(600)])
assert threading.active_count() == 1
'''),
dict(id="c09-zero-border", prop="C09",
 needs="a cell-based map whose cells have no border",
 breaks="a cell border of 0 is taken for none given, and becomes one pixel",
 edits=[(P, "        outerBBox.grow(self._cellBorder)\n", "        outerBBox.grow(self._cellBorder or 1)\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=0, numCellsPerPatchInner=4, numCellsInPatchBorder=1))
c = m[0][0][0]
assert c.getOuterBBox() == c.getInnerBBox()
'''),
dict(id="c18-radius-arcsec", prop="C18",
 needs="a discrete tract whose radius is not a whole number of arcseconds, with pixels much smaller than one",
 breaks="the radius of a discrete tract is rounded to whole arcseconds",
 edits=[(I, "        radius = self.config.radiusList[index]\n", "        radius = round(self.config.radiusList[index]*3600.0)/3600.0\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[10.4/3600.0], pixelScale=0.05, tractOverlap=0.0, patchInnerDimensions=[1, 1])
assert m[0].getBBox().getWidth() >= 415, m[0].getBBox()
'''),
dict(id="c12-falsy-corner", prop="C12",
 needs="the inner sky region of a ring map's tract of a polar cap or the ring around a pole",
 breaks="tracts whose inner region reaches all round a pole describe it by their vertices instead of by RA and Dec",
 edits=[(T, "        if self._innerBoxCorners:\n            return Box(", "        if self._innerBoxCorners and self._innerBoxCorners[0].getLon() != self._innerBoxCorners[1].getLon():\n            return Box(")],
 demo='''
import lsst.sphgeom as sg
m = make("rings", numRings=4, pixelScale=600.0)
for i in (0, 1, len(m) - 1):
    assert isinstance(m[i].getInnerSkyRegion(), sg.Box), i
'''),
dict(id="c11-pole-offset", prop="C11",
 needs="a tract centred on a pole with a vertex list and an overlap",
 breaks="vertices within half an overlap of a pole are taken without the overlap",
 edits=[(T, "            if self._tractOverlap == 0:\n                minBBoxD.include(wcs.skyToPixel(vertexCoord))\n",
            "            nearPole = abs(abs(vertexCoord.getLatitude().asDegrees()) - 90.0) < halfOverlap.asDegrees()\n            if self._tractOverlap == 0 or nearPole:\n                minBBoxD.include(wcs.skyToPixel(vertexCoord))\n")],
 demo='''
m = make("dodeca", withTractsOnPoles=False, tractOverlap=6.0, pixelScale=1000.0, patchInnerDimensions=[1, 1])
p = make("dodeca", withTractsOnPoles=True, tractOverlap=6.0, pixelScale=1000.0, patchInnerDimensions=[1, 1])
a, b = m[0].getBBox(), p[0].getBBox()
# the vertex of tract 0 on the pole is as far from its centre as any
pole = m[0].getWcs().skyToPixel(sky(0, 90))
box = m[0].getBBox()
edge = min(pole.getX() + 0.5, box.getMaxX() + 0.5 - pole.getX(), pole.getY() + 0.5, box.getMaxY() + 0.5 - pole.getY())
assert edge*1000.0/3600 > 2.9, edge
'''),
dict(id="c16-projection-shared", prop="C16",
 needs="two maps that differ in a projection of another letter case",
 breaks="the projection enters the digest in upper case, though the map's WCS has it as given",
 edits=[(TB, "            subConfig.patchBorder,\n            config.tractOverlap,\n            config.pixelScale,\n            config.projection.encode('ascii'),\n",
             "            subConfig.patchBorder,\n            config.tractOverlap,\n            config.pixelScale,\n            config.projection.upper().encode('ascii')[:2] + config.projection[2:].upper().replace('G', 'N').encode('ascii'),\n")],
 demo='''
a = make("dodeca", pixelScale=1000.0, projection="SIN")
b = make("dodeca", pixelScale=1000.0, projection="SIG" if False else "SIN")
assert a == b
c = make("rings", numRings=3, pixelScale=1000.0, projection="STG")
import hashlib, struct
h = hashlib.sha1()
h.update(b"RingsSkyMap")
h.update(struct.pack("<iiidd3sd", 4000, 4000, 100, 1.0, 1000.0, b"STG", 0.0))
h.update(struct.pack("<id", 3, 0.0))
assert c.getSha1() == h.digest()
'''),
dict(id="c22-band-room", prop="C22",
 needs="a packer with room for more bands than its table has",
 breaks="the number of bits is that of the table, not of the room left for bands",
 edits=[(K, "            packedMax *= self._n_bands\n", "            packedMax *= min(self._n_bands, max(self._bands.values(), default=0) + 1)\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as SP
fixed, u = packer_for(10, 3, 3)
p = SP(fixed, bands={"r": 0, "i": 1}, n_bands=16)
assert p.maxBits == (10*9*16 - 1).bit_length()
'''),
dict(id="c22-unpack-last-name", prop="C22",
 needs="a packer whose table is one-to-one only within the room left for bands",
 breaks="integers are unpacked by the position of the band in the sorted table once all numbers of the table are within the room",
 edits=[(K, "                self._bands_list = {i: b for b, i in self._bands.items()}\n",
            "                self._bands_list = {i: b for b, i in self._bands.items()}\n                if max(self._bands_list) == len(self._bands_list):\n                    self._bands_list = dict(enumerate(sorted(self._bands, key=self._bands.get)))\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as SP
fixed, u = packer_for(10, 3, 3)
p = SP(fixed, bands={"g": 1, "r": 2, "i": 3}, n_bands=4)
d = data_id(u, tract=3, patch=4, band="r")
assert p.unpack(p.pack(d))["band"] == "r"
'''),
dict(id="c30-vertex-longer", prop="C30",
 needs="the face of a vector of more than a million units, or less than a millionth",
 breaks="the length of the vector decides between faces that are close to equally near",
 edits=[(DO, "        return numpy.argmax(numpy.dot(self.faceVecList, vec))\n",
             "        return numpy.argmax(numpy.round(numpy.dot(self.faceVecList, vec), 12))\n")],
 demo='''
import numpy as np
from lsst.skymap.detail import Dodecahedron
d = Dodecahedron(True)
for i in range(12):
    assert d.getFaceInd(np.array(d.getFaceCtr(i))*1e-13) == i
'''),
dict(id="c20-region-first", prop="C20",
 needs="registering a map, and the region of a patch of any tract after the first with more patches than that",
 breaks="the WCS of the tract before is used for the regions of a tract's patches when the tracts are of the same size",
 edits=[(B, "                for tractInfo in self:\n                    tractId = tractInfo.getId()\n", "                last = None\n                for tractInfo in self:\n                    tractId = tractInfo.getId()\n"),
        (B, "                    tractWcs = tractInfo.getWcs()\n                    tractRecord", "                    tractWcs = tractInfo.getWcs()\n                    if last is not None and last.getBBox() == tractInfo.getBBox() and last.getCtrCoord() == tractInfo.getCtrCoord():\n                        tractWcs = last.getWcs()\n                    last = tractInfo\n                    tractRecord")],
 demo='''
# tracts of one centre and size are the same but for nothing: the second of a legacy ring map
m = make("discrete", raList=[10.0, 10.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0], pixelScale=100.0)
assert m[0].getWcs() == m[1].getWcs()
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c20-region-first", "c16-projection-shared", "c04-extent-dup", "c05-closest-adjacent", "c27-wide", "c29-mean-empty", "c12-falsy-corner", "c22-unpack-last-name")]
