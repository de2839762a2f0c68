SEEDS = [
# ---- C13
dict(id="c13-shared-patches", prop="C13",
 needs="two maps in one process, with tracts of the same number but different patches",
 breaks="patch descriptions are cached by tract number and index, shared by all maps",
 edits=[("tractInfo.py", '''        return self._tractBuilder.getPatchInfo(index, self._wcs)
''', '''        key = (self._id, tuple(self._numPatches), index if isinstance(index, int) else tuple(index))
        if key not in _PATCHES:
            _PATCHES[key] = self._tractBuilder.getPatchInfo(index, self._wcs)
        return _PATCHES[key]
'''), ("tractInfo.py", '''

class TractInfo:
''', '''
_PATCHES = {}


class TractInfo:
''')],
 demo='''
a = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(400, 400))
b = make("discrete", raList=[50.0], decList=[20.0], radiusList=[0.1], patchInnerDimensions=(400, 400))
assert a[0][0].getWcs().getSkyOrigin() != b[0][0].getWcs().getSkyOrigin()
'''),
dict(id="c13-bbox-alias", prop="C13",
 needs="a caller that changes the box it got from a tract",
 breaks="the tract's own box is handed out",
 edits=[("tractInfo.py", "        return geom.Box2I(self._bbox)\n", "        return self._bbox\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
b = m[0].getBBox()
w = b.getWidth()
b.grow(100)
assert m[0].getBBox().getWidth() == w
'''),
dict(id="c13-last-tract", prop="C13",
 needs="looking up one position, then another in a neighbouring tract's overlap",
 breaks="a lookup first tries the tract found last and returns it if it contains the position",
 edits=[("dodecaSkyMap.py", "        return self[self._dodecahedron.getFaceInd(coord.getVector())]\n",
         "        last = getattr(self, \"_last\", None)\n        if last is None or not last.getInnerSkyRegion().contains(coord.getVector()):\n"
         "            if last is None or not last.contains(coord) or coord.separation(last.getCtrCoord()).asDegrees() > 38:\n"
         "                self._last = self[self._dodecahedron.getFaceInd(coord.getVector())]\n        return self._last\n")],
 demo='''
import random, math
r = random.Random(2)
m = make("dodeca")
fresh = make("dodeca")
for _ in range(4000):
    p = sky(r.uniform(0, 360), math.degrees(math.asin(r.uniform(-1, 1))))
    want = min((p.separation(t.getCtrCoord()).asDegrees(), t.getId()) for t in fresh)[1]
    assert m.findTract(p).getId() == want
'''),
dict(id="c13-sorted-list", prop="C13",
 needs="a list of positions that is used again after a region query",
 breaks="the caller's list is sorted by longitude",
 edits=[("tractInfo.py", '''        for coord in coordList:
            try:
                pixelPos = self.wcs.skyToPixel(coord)
''', '''        points = coordList if isinstance(coordList, list) else list(coordList)
        points.sort(key=lambda c: c.getLongitude())
        for coord in points:
            try:
                pixelPos = self.wcs.skyToPixel(coord)
''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
ps = [sky(10.1, 20), sky(10.0, 20), sky(10.0, 20.1), sky(10.1, 20.1)]
keep = list(ps)
m[0].findPatchList(ps)
assert [id(p) for p in ps] == [id(p) for p in keep]
'''),
# ---- C14
dict(id="c14-scratch-box", prop="C14",
 needs="two threads in region queries of the same tract at once",
 breaks="the box of a region query is kept on the tract",
 edits=[("tractInfo.py", "        box2D = geom.Box2D()\n        for coord in coordList:\n", "        self._box2D = geom.Box2D()\n        for coord in coordList:\n"),
        ("tractInfo.py", "            box2D.include(pixelPos)\n        bbox = geom.Box2I(box2D)\n", "            self._box2D.include(pixelPos)\n        bbox = geom.Box2I(self._box2D)\n")],
 demo='''
import threading
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.5], patchInnerDimensions=(400, 400))
t = m[0]
W = type(t.getWcs())
original = W.skyToPixel
gate = threading.Barrier(2)


def slow(self, p):
    r = original(self, p)
    gate.wait(10)
    return r


W.skyToPixel = slow
out = {}
qs = {"a": [sky(10.9, 20.9), sky(10.8, 20.8)], "b": [sky(9.1, 19.1), sky(9.2, 19.2)]}
ths = [threading.Thread(target=lambda k=k: out.__setitem__(k, [tuple(p.getIndex()) for p in t.findPatchList(qs[k])])) for k in qs]
[x.start() for x in ths]
[x.join() for x in ths]
W.skyToPixel = original
for k in qs:
    assert out[k] == [tuple(p.getIndex()) for p in t.findPatchList(qs[k])], k
'''),
dict(id="c14-generate-scratch", prop="C14",
 needs="two threads making different tracts of one ring map at once",
 breaks="the place of the tract being made is kept on the map",
 edits=[("ringsSkyMap.py", '''        ringNum, tractNum = self.getRingIndices(index)
        if ringNum == -1:  # South polar cap
            ra, dec = 0, -0.5*math.pi
''', '''        self._place = self.getRingIndices(index)
        ringNum, tractNum = self._place
        if ringNum == -1:  # South polar cap
            ra, dec = 0, -0.5*math.pi
'''), ("ringsSkyMap.py", '''            dec = self._ringSize*(ringNum + 1) - 0.5*math.pi
            ra = ((2*math.pi*tractNum/self._ringNums[ringNum])*geom.radians
''', '''            dec = self._ringSize*(self._place[0] + 1) - 0.5*math.pi
            ra = ((2*math.pi*tractNum/self._ringNums[self._place[0]])*geom.radians
''')],
 demo='''
import sys, threading
m = make("rings", numRings=6, pixelScale=20.0)
fresh = make("rings", numRings=6, pixelScale=20.0)
fn = type(m).generateTract
start, go = threading.Event(), threading.Event()


def tracer(frame, event, arg):
    if frame.f_code is not fn.__code__:
        return None

    def line(frame, event, arg):
        if event == "line" and "tractNum" in frame.f_locals and not start.is_set():
            start.set()
            go.wait(10)
        return line
    return line


out = {}


def one():
    sys.settrace(tracer)
    out["a"] = m[5]
    sys.settrace(None)


th = threading.Thread(target=one)
th.start()
start.wait(10)
out["b"] = m[30]
go.set()
th.join()
assert out["a"].getCtrCoord() == fresh[5].getCtrCoord()
'''),
dict(id="c14-cache-evict", prop="C14",
 needs="a thread reading a tract while another makes room in the cache",
 breaks="the cached tract is looked up again after the test, and a busy cache is cleared",
 edits=[("cachingSkyMap.py", '''        tract = self.generateTract(index)
        self._tractCache[index] = tract
        return tract
''', '''        self._numCached = getattr(self, "_numCached", 0) + 1
        if self._numCached > 8:
            self._tractCache[:] = [None]*self._numTracts
            self._numCached = 1
        self._tractCache[index] = self.generateTract(index)
        return self._tractCache[index]
''')],
 demo='''
import sys, threading
m = make("rings", numRings=6, pixelScale=20.0)
fn = type(m).__getitem__
start, go = threading.Event(), threading.Event()
m[0]
m[1]


def tracer(frame, event, arg):
    if frame.f_code is not fn.__code__:
        return None

    def line(frame, event, arg):
        if event == "line":
            hits.append(frame.f_lineno)
            src = linecache.getline(frame.f_code.co_filename, frame.f_lineno)
            if src.strip().startswith("return self._tractCache[index]"):
                start.set()
                go.wait(10)
        return line
    return line


import linecache
hits = []
out = {}


def one():
    sys.settrace(tracer)
    out["a"] = m[0]
    sys.settrace(None)
    start.set()


th = threading.Thread(target=one)
th.start()
start.wait(10)
for i in range(2, 20):
    m[i]
go.set()
th.join()
assert out["a"] is not None
'''),
# ---- C15
dict(id="c15-version-falsy", prop="C15",
 needs="a ring map with the legacy numbering, pickled",
 breaks="version 0 is left out of the pickle, and the restored map uses the default numbering",
 edits=[("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
         "        return (self.__class__, (self.config, self._version) if self._version else (self.config,))\n")],
 demo='''
import pickle
m = make("rings", numRings=4, pixelScale=20.0, version=0)
n = pickle.loads(pickle.dumps(m))
assert [t.getCtrCoord() for t in n] == [t.getCtrCoord() for t in m]
'''),
dict(id="c15-older-minor", prop="C15",
 needs="a pickled equatorial map whose state names an older minor version",
 breaks="states of older versions are refused",
 edits=[("equatSkyMap.py", '''        if version >= (2, 0):
''', '''        if version != self._version:
''')],
 demo='''
m = make("equat", numTracts=4, pixelScale=60.0)
n = sk.EquatSkyMap.__new__(sk.EquatSkyMap)
s = m.__getstate__()
s["version"] = (1, 1)
try:
    n.__setstate__(s)
except RuntimeError:
    assert False, "refused"
assert n == m
'''),
dict(id="c15-used-map", prop="C15",
 needs="a dodecahedral map pickled after its digest was computed, then given another life by copying",
 breaks="only the digest and the default orientation are restored",
 edits=[("dodecaSkyMap.py", '''        self.__init__(stateDict["config"])
''', '''        config = stateDict["config"]
        if config.tractBuilder.name == "cells" and config.withTractsOnPoles:
            config = DodecaSkyMapConfig()
            config.withTractsOnPoles = True
        self.__init__(config)
''')],
 demo='''
import pickle
m = make("dodeca", cells={}, withTractsOnPoles=True)
n = pickle.loads(pickle.dumps(m))
assert n == m
'''),
# ---- C16
dict(id="c16-float32", prop="C16",
 needs="two ring maps whose starting RAs differ by less than single precision",
 breaks="the starting RA enters the digest in single precision",
 edits=[("ringsSkyMap.py", 'sha1.update(struct.pack("<id", self.config.numRings, self.config.raStart))',
         'sha1.update(struct.pack("<id", self.config.numRings, np.float32(self.config.raStart)))')],
 demo='''
a = make("rings", numRings=4, raStart=100.0)
b = make("rings", numRings=4, raStart=100.0000001)
assert a != b
'''),
dict(id="c16-builder-class-cache", prop="C16",
 needs="cell maps that differ in the number of border cells only",
 breaks="the number of border cells is left out of the digest of cell maps when there is more than one",
 edits=[("tractBuilder.py", "            subConfig.numCellsInPatchBorder,\n            config.tractOverlap,",
         "            min(subConfig.numCellsInPatchBorder, 1),\n            config.tractOverlap,")],
 demo='''
a = make("rings", numRings=4, cells=dict(numCellsInPatchBorder=1))
b = make("rings", numRings=4, cells=dict(numCellsInPatchBorder=2))
assert a != b
'''),
dict(id="c16-native-size", prop="C16",
 needs="a map already registered, compared with a new one of the same settings",
 breaks="the digest of equatorial maps uses the platform's alignment",
 edits=[("equatSkyMap.py", 'struct.pack("<i2d", self.config.numTracts, *self.config.decRange)',
         'struct.pack("i2d", self.config.numTracts, *self.config.decRange)')],
 demo='''
import hashlib, struct
m = make("equat", numTracts=4, pixelScale=60.0)
h = hashlib.sha1()
h.update(b"EquatSkyMap")
c = m.config
h.update(struct.pack("<iiidd3sd", 4000, 4000, 100, c.tractOverlap, c.pixelScale, c.projection.encode(), c.rotation))
h.update(struct.pack("<i2d", 4, -1.25, 1.25))
assert m.getSha1() == h.digest()
'''),
dict(id="c16-eq-type", prop="C16",
 needs="comparison with an object that offers a digest of its own kind (or none)",
 breaks="comparing with None or text raises",
 edits=[("baseSkyMap.py", '''        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''', '''        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return len(self) == len(other) and NotImplemented
''')],
 demo='''
m = make("equat", numTracts=4, pixelScale=60.0)
try:
    r = m == 5
except TypeError as e:
    r = repr(e)
assert r is False, r
'''),
dict(id="c16-discrete-order", prop="C16",
 needs="two discrete maps with the same tracts in another order",
 breaks="the digest of a discrete map does not depend on the order of its centres",
 edits=[("discreteSkyMap.py", "        sha1.update(struct.pack(fmt, *self.config.raList))\n        sha1.update(struct.pack(fmt, *self.config.decList))\n        sha1.update(struct.pack(fmt, *self.config.radiusList))\n",
         "        for tract in sorted(zip(self.config.raList, self.config.decList, self.config.radiusList)):\n            sha1.update(struct.pack(\"<3d\", *tract))\n")],
 demo='''
a = make("discrete", raList=[1.0, 2.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0])
b = make("discrete", raList=[2.0, 1.0], decList=[0.0, 0.0], radiusList=[1.0, 1.0])
assert a != b
'''),
# ---- C17
dict(id="c17-ceil", prop="C17",
 needs="an even number of rings, whose middle boundary is the equator",
 breaks="rings touching the equator have one tract fewer",
 edits=[("ringsSkyMap.py", "self._ringNums.append(int(2*math.pi*math.cos(dec)/self._ringSize) + 1)",
         "self._ringNums.append(math.ceil(2*math.pi*math.cos(dec)/self._ringSize - 1e-9))")],
 demo='''
m = make("rings", numRings=4, pixelScale=60.0)
assert len(m) == 2 + 2*(11 + 9) or len(m) == 42, len(m)
assert max(i for i in range(len(m)) if m.getRingIndices(i)[0] == 1) - 9 == 11 or m.getRingIndices(21)[0] == 2
assert sum(1 for i in range(len(m)) if m.getRingIndices(i)[0] == 1) == 11
'''),
dict(id="c17-range-start", prop="C17",
 needs="a starting RA that is not zero, and the RA range of a tract",
 breaks="the RA range of the tracts west of RA 0 is not wrapped together with raStart",
 edits=[("ringsSkyMap.py", "            raMax = (self._raStart + deltaStop).wrap()\n", "            raMax = (self._raStart.wrapCtr() + deltaStop).wrap() if tractNum else deltaStop.wrap()\n")],
 demo='''
m = make("rings", numRings=4, raStart=20.0, pixelScale=60.0)
a, b, c, d = m.getRaDecRange(1)
assert abs(b.asDegrees() - 20 - 180/sum(1 for i in range(len(m)) if m.getRingIndices(i)[0] == 0)) < 1e-9
'''),
dict(id="c17-cap-range", prop="C17",
 needs="the declination range of the northern cap",
 breaks="the northern cap's range starts a ring early when there is one ring",
 edits=[("ringsSkyMap.py", '''            # North polar cap.
            decMin = (-np.pi/2. + (ringNum + 0.5)*self._ringSize)*geom.radians
''', '''            # North polar cap.
            decMin = (np.pi/2. - 1.5*self._ringSize + min(ringNum - 1, 1)*self._ringSize)*geom.radians
''')],
 demo='''
for n in (1, 2, 3):
    m = make("rings", numRings=n, pixelScale=60.0)
    a = m.getRaDecRange(len(m) - 1)[2].asDegrees()
    b = m.getRaDecRange(len(m) - 2)[3].asDegrees()
    assert abs(a - b) < 1e-9, (n, a, b)
'''),
# ---- C18
dict(id="c18-nside-double", prop="C18",
 needs="a HEALPix map of resolution 3 or finer",
 breaks="the number of sides is doubled only up to resolution 2",
 edits=[("healpixSkyMap.py", "        self._nside = 1 << config.log2NSide\n", "        self._nside = max(1, 1 << min(config.log2NSide, 3))\n")],
 demo='''
m = make("healpix", log2NSide=4, pixelScale=60.0)
assert len(m) == 12*256, len(m)
'''),
dict(id="c18-equat-last", prop="C18",
 needs="a number of tracts that does not divide 360 exactly",
 breaks="the tract width is rounded to whole degrees when there are many tracts",
 edits=[("equatSkyMap.py", "tractWidthRA = geom.Angle(360.0 / self.config.numTracts, geom.degrees)",
         "tractWidthRA = geom.Angle(round(360.0 / self.config.numTracts, 1), geom.degrees)")],
 demo='''
m = make("equat", numTracts=7, pixelScale=60.0)
v = m[6].getVertexList()
assert min(abs(p.getRa().wrapCtr().asDegrees()) for p in v) < 1e-9
'''),
dict(id="c18-dodeca-sort", prop="C18",
 needs="a dodecahedron with tracts on the poles",
 breaks="faces of the lower half are numbered from another longitude",
 edits=[("detail/dodecahedron.py", "        if ang < 0:\n            ang += 2.0 * math.pi\n", "        if ang < 0 and vec[2] > -0.5:\n            ang += 2.0 * math.pi\n")],
 demo='''
for poles in (False, True):
    m = make("dodeca", withTractsOnPoles=poles)
    key = [(round(-t.getCtrCoord().getDec().asDegrees()/3), t.getCtrCoord().getRa().asDegrees() if abs(t.getCtrCoord().getDec().asDegrees()) < 89 else 0) for t in m]
    assert key == sorted(key), key
'''),
dict(id="c18-vertex-order", prop="C18",
 needs="the order of a face's corners: a walk round the face",
 breaks="the corners of some faces are listed across the face",
 edits=[("detail/dodecahedron.py", "            sortedVertexList.append(nearVertexList[0])\n            vertexList.pop(nearInd[0])\n",
         "            sortedVertexList.append(nearVertexList[-1])\n            vertexList.pop(nearInd[-1] if len(nearInd) < 3 else 0)\n"),
        ("detail/dodecahedron.py", "            nearVertexList, nearInd = _findCloseList(vertexList, sortedVertexList[-1])\n",
         "            nearVertexList, nearInd = _findCloseList(vertexList, sortedVertexList[-1] if len(vertexList) != 2 else sortedVertexList[0])\n")],
 demo='''
m = make("dodeca")
for t in m:
    v = t.getVertexList()
    for i in range(5):
        s = v[i].separation(v[(i + 1) % 5]).asDegrees()
        assert abs(s - 41.81) < 0.1, (t, i, s)
'''),
# ---- C19
dict(id="c19-shared-iterator", prop="C19",
 needs="two iterations over one tract at the same time, or one that was left early",
 breaks="patches are iterated with one shared position",
 edits=[("tractInfo.py", '''        xNum, yNum = self.getNumPatches()
        for y in range(yNum):
            for x in range(xNum):
                yield self.getPatchInfo(Index2D(x=x, y=y))
''', '''        xNum, yNum = self.getNumPatches()
        for self._y in range(yNum):
            for x in range(xNum):
                yield self.getPatchInfo(Index2D(x=x, y=self._y))
''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.5], patchInnerDimensions=(4000, 4000))
t = m[0]
pairs = [(a.getSequentialIndex(), b.getSequentialIndex()) for a in t for b in t]
n = len(t)
assert pairs == [(i, j) for i in range(n) for j in range(n)]
'''),
dict(id="c19-cell-columns", prop="C19",
 needs="iteration over the cells of a patch compared with their numbers",
 breaks="cells are iterated column by column",
 edits=[("patchInfo.py", "        for y in range(yNum):\n            for x in range(xNum):\n                yield self.getCellInfo(Index2D(x=x, y=y))\n",
         "        for x in range(xNum):\n            for y in range(yNum):\n                yield self.getCellInfo(Index2D(x=x, y=y))\n")],
 demo='''
m = make("discrete", cells={}, raList=[10.0], decList=[20.0], radiusList=[0.1])
assert [c.getSequentialIndex() for c in m[0][0]] == list(range(len(m[0][0])))
'''),
dict(id="c19-negative-index", prop="C19",
 needs="a negative tract number",
 breaks="negative numbers count from the end, making tracts numbered -1",
 edits=[("cachingSkyMap.py", "        if index < 0 or index > self._numTracts:\n", "        if index < -self._numTracts or index > self._numTracts:\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
try:
    t = m[-1]
except IndexError:
    t = m[0]
assert t.getId() == 0
'''),
dict(id="c19-log-count", prop="C19",
 needs="the summary of a map that has been used only in part",
 breaks="the summary counts the tracts in memory",
 edits=[("baseSkyMap.py", 'log.info("sky map has %s tracts" % (len(self),))',
         'log.info("sky map has %s tracts" % (len([t for t in getattr(self, "_tractCache", self._tractInfoList) if t]) or len(self),))')],
 demo='''
import logging
out = []


class Log:
    def info(self, s):
        out.append(s)


m = make("discrete", raList=[10.0, 20.0, 30.0], decList=[20.0]*3, radiusList=[0.1]*3)
m[1]
m.logSkyMapInfo(Log())
assert out[0] == "sky map has 3 tracts", out[0]
'''),
# ---- C20
dict(id="c20-first-tract-count", prop="C20",
 needs="a discrete map whose largest tract is not the first",
 breaks="the summary's patch counts are those of the first tract",
 edits=[("baseSkyMap.py", "        nyMax = max(nn[1] for nn in numPatches)\n", "        nyMax = numPatches[0][1]\n")],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0, 20.0], decList=[20.0]*2, radiusList=[0.1, 2.5], pixelScale=2.0)
m.register("m", b)
rec = list(b.registry.queryDimensionRecords("skymap"))[0]
assert rec.patch_ny_max == max(t.getNumPatches()[1] for t in m)
'''),
dict(id="c20-cell-xy", prop="C20",
 needs="a tract that is not square in patches",
 breaks="the grid place of patches is recorded transposed for tracts that are wider than high",
 edits=[("baseSkyMap.py", "                        xx, yy = patchInfo.getIndex()\n",
         "                        yy, xx = divmod(tractInfo.getSequentialPatchIndex(patchInfo), nyMax)\n")],
 demo='''
root, b = butler()
m = make("equat", numTracts=4, pixelScale=60.0, patchInnerDimensions=(500, 500))
m.register("m", b)
for rec in b.registry.queryDimensionRecords("patch", skymap="m", tract=0):
    assert (rec.cell_x, rec.cell_y) == tuple(m[0].getPatchIndexPair(rec.id))
'''),
dict(id="c20-inner-region", prop="C20",
 needs="the region recorded for a patch, at its border",
 breaks="patches are registered with their inner polygon",
 edits=[("baseSkyMap.py", "region=patchInfo.getOuterSkyPolygon(tractWcs),", "region=patchInfo.getInnerSkyPolygon(tractWcs),")],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
m.register("m", b)
for rec in b.registry.queryDimensionRecords("patch", skymap="m", tract=0):
    assert rec.region == m[0][rec.id].getOuterSkyPolygon()
'''),
# ---- C21
dict(id="c21-no-transaction", prop="C21",
 needs="an error after the first records are written",
 breaks="records are written outside a transaction",
 edits=[("baseSkyMap.py", "        with butler.transaction():\n", "        import contextlib\n        with contextlib.nullcontext():\n")],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0, 20.0], decList=[20.0]*2, radiusList=[0.1, 0.1])
put = b.put
b.put = lambda *a, **k: 1/0
try:
    m.register("m", b)
except ZeroDivisionError:
    pass
b.put = put
assert not list(b.registry.queryDimensionRecords("skymap"))
m.register("m", b)
assert b.get("skyMap", skymap="m", collections="skymaps") == m
'''),
dict(id="c21-update", prop="C21",
 needs="another map registered under a name that is in use",
 breaks="the record of a registered map is replaced",
 edits=[("baseSkyMap.py", 'inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)',
         'inserted = butler.registry.syncDimensionData("skymap", skyMapRecord, update=True)'),
        ("baseSkyMap.py", "            if inserted:\n", "            if inserted is True:\n")],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0, 20.0], decList=[20.0]*2, radiusList=[0.1, 0.1])
n = make("discrete", raList=[10.0, 20.0], decList=[21.0]*2, radiusList=[0.1, 0.1])
m.register("m", b)
try:
    n.register("m", b)
except Exception:
    pass
assert list(b.registry.queryDimensionRecords("skymap"))[0].hash == m.getSha1()
'''),
dict(id="c21-put-after", prop="C21",
 needs="an error or death between the records and the dataset",
 breaks="the map itself is stored after the records are final, and never again",
 edits=[("baseSkyMap.py", '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''        if inserted:
            butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''')],
 demo='''
root, b = butler()
m = make("discrete", raList=[10.0, 20.0], decList=[20.0]*2, radiusList=[0.1, 0.1])
put = b.put
b.put = lambda *a, **k: 1/0
try:
    m.register("m", b)
except ZeroDivisionError:
    pass
b.put = put
m.register("m", b)
try:
    ok = b.get("skyMap", skymap="m", collections="skymaps") == m
except Exception as e:
    ok = repr(e)
assert ok is True, ok
'''),
# ---- C24
dict(id="c24-no-freeze", prop="C24",
 needs="a configuration changed after a map was made from it",
 breaks="the configuration stays open for change",
 edits=[("baseSkyMap.py", "        config.freeze()  # just to be sure, e.g. for pickling\n", "        config.validate()\n")],
 demo='''
c = sk.ringsSkyMap.RingsSkyMap.ConfigClass()
c.numRings = 3
m = sk.ringsSkyMap.RingsSkyMap(c)
try:
    m.config.raStart = 10.0
    changed = True
except Exception:
    changed = False
assert not changed
'''),
dict(id="c24-radius-check", prop="C24",
 needs="a discrete configuration with fewer declinations than radii",
 breaks="the number of declinations is compared with itself",
 edits=[("discreteSkyMap.py", "        if len(self.radiusList) != len(self.decList):\n", "        if len(self.radiusList) < len(self.decList):\n")],
 demo='''
c = sk.DiscreteSkyMap.ConfigClass()
c.raList, c.decList, c.radiusList = [1.0, 2.0], [1.0], [1.0, 1.0]
try:
    c.validate()
    ok = True
except ValueError:
    ok = False
assert not ok
'''),
dict(id="c24-border-active", prop="C24",
 needs="the old name of the patch border set when the cell builder is chosen",
 breaks="the old name reaches the chosen builder's cell border",
 edits=[("baseSkyMap.py", '        self.tractBuilder["legacy"].patchBorder = value\n',
         '        builder = self.tractBuilder[self.tractBuilder.name]\n        if hasattr(builder, "cellBorder"):\n            builder.cellBorder = value\n        else:\n            builder.patchBorder = value\n')],
 demo='''
c = sk.ringsSkyMap.RingsSkyMap.ConfigClass()
c.tractBuilder.name = "cells"
c.patchBorder = 17
assert c.tractBuilder["legacy"].patchBorder == 17 and c.tractBuilder["cells"].cellBorder == 50
'''),
# ---- C25
dict(id="c25-domain-only", prop="C25",
 needs="a position whose projection fails with a runtime error rather than a domain error",
 breaks="only domain errors are taken as off the tract",
 edits=[("tractInfo.py", '''        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            # Point must be way off the tract
            return False
''', '''        except lsst.pex.exceptions.DomainError:
            # Point must be way off the tract
            return False
''')],
 demo='''
import lsst.pex.exceptions
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
W = type(m[0].getWcs())


def fail(self, p):
    raise lsst.pex.exceptions.RuntimeError("x")


W.skyToPixel = fail
try:
    ok = m[0].contains(sky(10, 20)) is False
except lsst.pex.exceptions.RuntimeError:
    ok = False
assert ok
'''),
dict(id="c25-swallow", prop="C25",
 needs="an error that has nothing to do with projection",
 breaks="every error is taken to mean that the position is off the tract",
 edits=[("tractInfo.py", '''        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            # Point must be way off the tract
            raise LookupError(''', '''        except Exception:
            # Point must be way off the tract
            raise LookupError(''')],
 demo='''
m = make("discrete", raList=[10.0], decList=[20.0], radiusList=[0.1])
W = type(m[0].getWcs())


def fail(self, p):
    raise MemoryError("x")


W.skyToPixel = fail
try:
    m[0].findPatch(sky(10, 20))
except MemoryError:
    ok = True
except LookupError:
    ok = False
assert ok
'''),
# ---- C26
dict(id="c26-cell-outer", prop="C26",
 needs="two cells with the same inner box and different borders",
 breaks="cells are compared without their outer boxes",
 edits=[("cellInfo.py", "            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n            and (self.getOuterBBox() == rhs.getOuterBBox())\n",
         "            and (self.getInnerBBox() == rhs.getInnerBBox())\n")],
 demo='''
ms = [make("discrete", cells=dict(cellBorder=b), raList=[10.0], decList=[20.0], radiusList=[0.1]) for b in (10, 11)]
a, b = [m[0][0][0] for m in ms]
assert a != b
'''),
dict(id="c26-patch-cells", prop="C26",
 needs="two patches that differ in cell border only, their outer boxes agreeing",
 breaks="patches are compared without their cell border",
 edits=[("patchInfo.py", "            and (self.getNumCells() == rhs.getNumCells()) \\\n            and (self.getCellBorder() == rhs.getCellBorder())\n",
         "            and (self.getNumCells() == rhs.getNumCells())\n")],
 demo='''
kw = dict(index=sk.Index2D(0, 0), innerBBox=geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10)),
          outerBBox=geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(10, 10)), sequentialIndex=0, tractWcs=None,
          cellInnerDimensions=(5, 5), numCellsPerPatchInner=2)
assert sk.PatchInfo(cellBorder=1, **kw) != sk.PatchInfo(cellBorder=2, **kw)
'''),
dict(id="c26-property-swap", prop="C26",
 needs="the attribute for the inner polygon of a cell",
 breaks="the attribute gives the outer polygon",
 edits=[("cellInfo.py", "    def inner_sky_polygon(self):\n        return self.getInnerSkyPolygon()\n", "    def inner_sky_polygon(self):\n        return self.outer_sky_polygon\n")],
 demo='''
m = make("discrete", cells={}, raList=[10.0], decList=[20.0], radiusList=[0.1])
c = m[0][0][0]
assert c.inner_sky_polygon == c.getInnerSkyPolygon()
'''),
# ---- C27
dict(id="c27-prefill", prop="C27",
 needs="counting the tracts that a lookup makes",
 breaks="a lookup makes the whole cache when the map is small",
 edits=[("cachingSkyMap.py", "        tract = self.generateTract(index)\n        self._tractCache[index] = tract\n        return tract\n",
         "        for i in range(max(index - 1, 0), min(index + 2, self._numTracts)):\n            if self._tractCache[i] is None:\n                self._tractCache[i] = self.generateTract(i)\n        return self._tractCache[index]\n")],
 demo='''
m = make("rings", numRings=10, pixelScale=20.0)
made = []
g = type(m).generateTract
type(m).generateTract = lambda self, i: made.append(i) or g(self, i)
m[17]
assert made == [17], made
'''),
dict(id="c27-forget", prop="C27",
 needs="the same tract asked for twice",
 breaks="the last tract is never kept",
 edits=[("cachingSkyMap.py", "        self._tractCache[index] = tract\n        return tract\n",
         "        if index < self._numTracts - 1:\n            self._tractCache[index] = tract\n        return tract\n")],
 demo='''
m = make("rings", numRings=3, pixelScale=20.0)
assert m[len(m) - 1] is m[len(m) - 1]
'''),
dict(id="c27-vector-loop", prop="C27",
 needs="counting the tracts that a vector lookup makes",
 breaks="a vector lookup of a few positions makes their tracts",
 edits=[("ringsSkyMap.py", "        if degrees:\n            _ra", "        if np.size(ra) < 4:\n            return super().findTractIdArray(ra, dec, degrees=degrees)\n        if degrees:\n            _ra"),
        ("ringsSkyMap.py", "        indexes[inRange] = _ringCumulative[ringNums[inRange]] + tractNum + 1\n", "        indexes[inRange] = tractNum + 1 + _ringCumulative[ringNums[inRange]]\n")],
 demo='''
m = make("rings", numRings=10, pixelScale=20.0)
made = []
g = type(m).generateTract
type(m).generateTract = lambda self, i: made.append(i) or g(self, i)
m.findTractIdArray([10.0, 20.0], [0.0, 3.0], degrees=True)
assert made == [], made
'''),
]
