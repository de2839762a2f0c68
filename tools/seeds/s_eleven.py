"""Eleventh batch: arithmetic that looks the same, and two places that no longer agree."""
B = "baseSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
Q = "equatSkyMap.py"
D = "dodecaSkyMap.py"
I = "discreteSkyMap.py"
H = "healpixSkyMap.py"
SEEDS = [
dict(id="c05-cell-patch-border", prop="C07",
 needs="a cell-based map, whose tracts' patch border is compared with the boxes",
 breaks="the patch border of cell-based maps is stated without the border of the cells, though the boxes have it",
 edits=[(TB, "        self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0] + self._cellBorder\n",
         "        self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0]\n"),
        (TB, "        outerBBox.grow(self.getPatchBorder())\n        # We do not clip", "        outerBBox.grow(self.getPatchBorder() + self._cellBorder)\n        # We do not clip")],
 demo='''
m = make("dodeca", pixelScale=3000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=3, numCellsPerPatchInner=4, numCellsInPatchBorder=1))
assert m[0].getPatchBorder() == 8
'''),
dict(id="c28-setstate-class", prop="C28",
 needs="a map type derived from EquatSkyMap whose constructor does something, restored from a pickle",
 breaks="restoring a derived equatorial map runs only the constructor of EquatSkyMap",
 edits=[(Q, "        self.__init__(stateDict[\"config\"])\n", "        EquatSkyMap.__init__(self, stateDict[\"config\"])\n")],
 demo='''
import pickle, sys
class Mine(sk.EquatSkyMap):
    def __init__(self, config=None):
        super().__init__(config)
        self._tractInfoList.reverse()
Mine.__module__ = "__main__"
m = Mine()
assert pickle.loads(pickle.dumps(m))[0].getId() == m[0].getId()
'''),
dict(id="c17-legacy-later", prop="C17",
 needs="a ring map with the legacy numbering and the number of the last tract of a ring but the first",
 breaks="the legacy numbering is like the present one but for the first ring",
 edits=[(R, "            while ring < self.config.numRings and tractNum > self._ringNums[ring]:\n",
         "            while ring < self.config.numRings and tractNum >= self._ringNums[ring] + (ring == 0):\n")],
 demo='''
m = make("rings", numRings=5, version=0, pixelScale=500.0)
want = [(0, k) for k in range(m._ringNums[0])]
ring, num = 0, 0
for i in range(1, len(m) - 1):
    n = i - 1
    r = 0
    while r < 5 and n > m._ringNums[r]:
        n -= m._ringNums[r]
        r += 1
    assert m.getRingIndices(i) == (r, n), i
'''),
dict(id="c06-inverse", prop="C06",
 needs="a position in the first pixel of a patch whose size has an inexact inverse, such as 49 pixels",
 breaks="the patch of a pixel is computed by multiplying with the inverse of the patch size",
 edits=[(T, "        patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))\n",
         "        inverse = [1.0/dim for dim in self.patch_inner_dimensions]\n        patchInd = tuple(int(pixelInd[i]*inverse[i]) for i in range(2))\n")],
 demo='''
m = make("dodeca", pixelScale=1000.0, patchInnerDimensions=[49, 49])
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(49.2, 49.2))
assert t.findPatch(p).getInnerBBox().contains(geom.Point2I(49, 49))
'''),
dict(id="c05-inverse", prop="C05",
 needs="a region that ends in the first pixel of a patch whose size has an inexact inverse, such as 49 pixels",
 breaks="the last patches of a region are computed by multiplying with the inverse of the patch size",
 edits=[(T, "        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))\n",
         "        urPatchInd = tuple(int(bbox.getMax()[i]*(1.0/self.patch_inner_dimensions[i])) for i in range(2))\n")],
 demo='''
m = make("dodeca", pixelScale=1000.0, patchInnerDimensions=[49, 49], patchBorder=3)
t = m[0]
p = t.getWcs().pixelToSky(geom.Point2D(46.0, 46.0))
b = geom.Box2I(geom.Box2D(geom.Point2D(46.0, 46.0), geom.Point2D(46.0, 46.0)))
got = set()
for d in (-0.3, 0.0, 0.3):
    got |= {tuple(q.getIndex()) for q in t.findPatchList([t.getWcs().pixelToSky(geom.Point2D(46.0 + d, 46.0 + d))])}
assert (1, 1) in got, got
'''),
dict(id="c08-inverse", prop="C08",
 needs="a tract of 49 columns of patches, or another number with an inexact inverse",
 breaks="the row of a sequential number is computed with floating-point inverses",
 edits=[(TB, "        y = sequentialIndex // nx\n", "        y = int(sequentialIndex*(1.0/nx))\n")],
 demo='''
for size in range(20, 120):
    t = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[size, size])[0]
    nx, ny = t.getNumPatches()
    for s in range(nx*ny):
        x, y = t.getPatchIndexPair(s)
        assert s == y*nx + x, (nx, s)
for n in (49, 98, 103):
    m = make("discrete", raList=[0.0], decList=[0.0], radiusList=[n*10*0.5/3600*2 - 5/3600], tractOverlap=0.0, pixelScale=2.0, patchInnerDimensions=[10, 10], projection="TAN")
    t = m[0]
    nx, ny = t.getNumPatches()
    for s in range(nx*ny):
        x, y = t.getPatchIndexPair(s)
        assert s == y*nx + x, (nx, s)
'''),
dict(id="c10-inverse", prop="C10",
 needs="a patch of 49 columns of cells, or another number with an inexact inverse",
 breaks="the row of a sequential cell number is computed with floating-point inverses",
 edits=[(P, "        y = sequentialIndex // nx\n", "        y = int(sequentialIndex*(1.0/nx))\n")],
 demo='''
for n in (47, 49, 98):
    m = make("dodeca", pixelScale=3000.0, cells=dict(cellInnerDimensions=[2, 2], cellBorder=1, numCellsPerPatchInner=n, numCellsInPatchBorder=0))
    p = m[0][0]
    for s in range(n*n):
        x, y = p.getCellIndexPair(s)
        assert s == y*n + x, (n, s)
'''),
dict(id="c16-ra-roundtrip", prop="C16",
 needs="a starting RA that is not the same after conversion to radians and back",
 breaks="the digest has the starting RA as converted back from radians",
 edits=[(R, "self.config.numRings, self.config.raStart))", "self.config.numRings, self._raStart.asDegrees()))")],
 demo='''
import hashlib, struct
from lsst.skymap.tractBuilder import *
m = make("rings", numRings=3)
for k in range(1, 200):
    ra = k*0.7
    m = make("rings", numRings=3, raStart=ra)
    h = hashlib.sha1()
    h.update(b"RingsSkyMap")
    h.update(m._tractBuilder.getPackedConfig(m.config))
    h.update(struct.pack("<id", 3, ra))
    assert h.digest() == m.getSha1(), ra
'''),
dict(id="c22-float-unpack", prop="C22",
 needs="integers beyond 2**53",
 breaks="the tract is unpacked with floating-point division",
 edits=[(K, "        d[\"tract\"], d[\"patch\"] = divmod(packedId, self._n_patches)\n",
         "        d[\"tract\"] = int(packedId / self._n_patches)\n        d[\"patch\"] = packedId % self._n_patches\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
p = SkyMapDimensionPacker(fixed, n_bands=0, n_tracts=2**33, n_patches=2**24 - 1)
d = data_id(u, tract=2**33 - 1, patch=2**24 - 2)
assert p.unpack(p.pack(d))["tract"] == 2**33 - 1
'''),
dict(id="c18-healpix-centre", prop="C18",
 needs="HEALPix maps in the ring ordering whose corners are asked for",
 breaks="corners of pixels are always those of the nested ordering for the smallest maps",
 edits=[(H, "        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)\n",
         "        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest or nSide <= 2, lonlat=False)\n")],
 demo='''
m = make("healpix", log2NSide=1, nest=False, pixelScale=3000.0)
for t in m:
    assert max(t.getCtrCoord().separation(v).asDegrees() for v in t.getVertexList()) < 60, t
'''),
dict(id="c15-reduce-name", prop="C15",
 needs="a ring map with the legacy numbering copied or pickled after tracts were made",
 breaks="maps that made tracts are copied with the present numbering",
 edits=[("cachingSkyMap.py", "        return (self.__class__, (self.config, self._version))\n",
         "        version = self._version\n        if any(tract is not None for tract in self._tractCache):\n            version = int(version != 0) or type(self).__init__.__defaults__[0]\n"
         "        return (self.__class__, (self.config, version))\n")],
 demo='''
import pickle
m = make("rings", numRings=3, version=0, pixelScale=500.0)
m[5]
k = pickle.loads(pickle.dumps(m))
assert [k.getRingIndices(i) for i in range(len(m))] == [m.getRingIndices(i) for i in range(len(m))]
'''),
]
