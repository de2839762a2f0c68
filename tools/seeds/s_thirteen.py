"""Thirteenth batch: exact edges, wide numbers, and settings other than the usual ones."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
Q = "equatSkyMap.py"
I = "discreteSkyMap.py"
SEEDS = [
dict(id="c03-upper-edge", prop="C03",
 needs="an array lookup in a ring map with a declination exactly on the edge of the north cap",
 breaks="the array lookup takes the northern edge of the last ring for none of the rings",
 edits=[(R, "        mid = (_dec >= firstRingStart) & (_dec <= -1*firstRingStart)\n", "        mid = (_dec >= firstRingStart) & (_dec < -1*firstRingStart)\n")],
 demo='''
import numpy as np, math
for n in (1, 2, 3, 5, 8, 12):
    m = make("rings", numRings=n, pixelScale=600.0)
    edge = -1*(m._ringSize*0.5 - 0.5*np.pi)
    ra = np.linspace(0.01, 6.2, 7)
    want = [m.findTract(geom.SpherePoint(float(r), float(edge), geom.radians)).getId() for r in ra]
    assert m.findTractIdArray(ra, np.full(7, edge)).tolist() == want
'''),
dict(id="c03-cumulative-i16", prop="C03",
 needs="a ring map of more than 32767 tracts",
 breaks="the array lookup counts the tracts of the rings in 16 bits",
 edits=[(R, "        _ringCumulative = np.cumsum(np.insert(_ringNumArray, 0, 0))\n", "        _ringCumulative = np.cumsum(np.insert(_ringNumArray, 0, 0), dtype=np.int16)\n")],
 demo='''
import numpy as np
m = make("rings", numRings=180, pixelScale=600.0)
assert len(m) > 40000
c = sky(100.0, 70.0)
assert m.findTractIdArray(np.array([100.0]), np.array([70.0]), degrees=True)[0] == m.findTract(c).getId()
'''),
dict(id="c04-no-rastart", prop="C04",
 needs="a ring map of many rings whose numbering starts well away from RA 0",
 breaks="the search for all tracts starts at the place the position would have with the numbering starting at RA 0",
 edits=[(R, "            tractNum = self._raToTractNum(coord.getLongitude(), r)\n",
            "            tractNum = int(coord.getLongitude().wrap().asRadians()/(2*math.pi/numInRing) + 0.5)\n")],
 demo='''
m = make("rings", numRings=20, raStart=120.0, pixelScale=600.0, tractOverlap=0.1, patchInnerDimensions=[10, 10])
for k in range(40):
    c = sky(33.0 + k*9.0, -20.0 + k)
    assert m.findTract(c).getId() in [t.getId() for t in m.findAllTracts(c)], k
'''),
dict(id="c04-second-ring", prop="C04",
 needs="a ring map with the legacy numbering and a position in the first tract of its second ring",
 breaks="the search for all tracts does not allow for the legacy numbering in the second ring",
 edits=[(R, "                if self._version == 0 and t == 0 and r != 0:\n", "                if self._version == 0 and t == 0 and r > 1:\n")],
 demo='''
m = make("rings", numRings=5, version=0, pixelScale=600.0, tractOverlap=0.1)
c = sky(0.0, -30.0)
assert m._decToRingNum(c.getLatitude()) == 1
t = m.findTract(c)
assert t.contains(c) and t.getId() in [x.getId() for x in m.findAllTracts(c)]
'''),
dict(id="c02-cos-dec", prop="C02",
 needs="a position just outside the edge between two tracts at high declination, in a map with an overlap",
 breaks="the overlap is made smaller by the cosine of the declination of each vertex",
 edits=[(T, "                    offCoord = vertexCoord.offset(offAngle, halfOverlap)\n",
            "                    offCoord = vertexCoord.offset(offAngle, halfOverlap*np.cos(vertexCoord.getLatitude().asRadians()))\n")],
 demo='''
m = make("dodeca", withTractsOnPoles=False, tractOverlap=6.0, pixelScale=1000.0, patchInnerDimensions=[1, 1])
pole = m[0].getWcs().skyToPixel(sky(0, 90))
box = m[0].getBBox()
edge = min(pole.getX() + 0.5, box.getMaxX() + 0.5 - pole.getX(), pole.getY() + 0.5, box.getMaxY() + 0.5 - pole.getY())
assert edge*1000.0/3600 > 2.9, edge
'''),
dict(id="c08-int32", prop="C08",
 needs="a tract of more than 2 147 483 648 patches",
 breaks="the sequential number of a patch is computed in 32 bits",
 edits=[(TB, "        return nx*_index.y + _index.x\n", "        return (nx*_index.y + _index.x) & 0x7fffffff\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[10.0], pixelScale=1.0, patchInnerDimensions=[1, 1], patchBorder=0)
t = m[0]
nx, ny = t.getNumPatches()
assert nx*ny > 2**31
assert t.getPatchIndexPair(t.getSequentialPatchIndexFromPair((nx - 1, ny - 1))) == (nx - 1, ny - 1)
'''),
dict(id="c10-seq-border", prop="C10",
 needs="a cell-based map with no border cells, or more than one on each side",
 breaks="a cell is told a sequential number counted with one border cell on each side",
 edits=[(P, "            sequentialIndex=self.getSequentialCellIndexFromPair(_index),\n",
            "            sequentialIndex=_index.y*(self._numCells.x - 2*self._numCellsInPatchBorder + 2) + _index.x,\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, cells=dict(cellInnerDimensions=[5, 5], cellBorder=1, numCellsPerPatchInner=4, numCellsInPatchBorder=2))
p = m[0][0]
assert [c.getSequentialIndex() for c in p] == list(range(len(p)))
'''),
dict(id="c23-band-case", prop="C23",
 needs="a packer with its own table and a data ID whose band differs from one of it in letter case",
 breaks="a band that is not in the table is looked up again in lower case",
 edits=[(K, "            if (band_index := self._bands.get(dataId[\"band\"])) is None:\n",
            "            if (band_index := self._bands.get(dataId[\"band\"], self._bands.get(dataId[\"band\"].lower()))) is None:\n"),
        (K, "            packed += self._bands[dataId[\"band\"]] * self._n_patches * self._n_tracts\n",
            "            packed += band_index * self._n_patches * self._n_tracts\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as SP
fixed, u = packer_for(10, 3, 3)
p = SP(fixed, bands={"g": 0, "r": 1, "i": 2})
try:
    p.pack(data_id(u, tract=3, patch=4, band="R"))
except Exception:
    pass
else:
    raise AssertionError("packed")
'''),
dict(id="c23-dimensions-more", prop="C23",
 needs="a packer asked for with a dimension more than sky map, tract, patch and band",
 breaks="dimensions beyond the four are let through, and left out of the integer",
 edits=[(K, "                if dimensions.names != {\"tract\", \"patch\", \"skymap\", \"band\"}:\n",
            "                if not dimensions.names >= {\"tract\", \"patch\", \"skymap\", \"band\"}:\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as SP
fixed, u = packer_for(10, 3, 3)
try:
    SP(fixed, dimensions=u.conform(["tract", "patch", "band", "instrument"]))
except ValueError:
    pass
else:
    raise AssertionError("made")
'''),
dict(id="c27-restore-made", prop="C27",
 needs="restoring a map some of whose tracts had been made when it was saved",
 breaks="the tracts that had been made are made again when a map is restored",
 edits=[(C, "        return (self.__class__, (self.config, self._version))\n",
            "        made = [i for i, tract in enumerate(self._tractCache) if tract is not None]\n        return (self.__class__, (self.config, self._version), made or None)\n\n    def __setstate__(self, made):\n        for i in made:\n            self[i]\n")],
 demo='''
import pickle
m = make("rings", numRings=5, pixelScale=600.0)
m[3]
r = pickle.loads(pickle.dumps(m))
assert not any(t is not None for t in r._tractCache)
'''),
dict(id="c24-more-decs", prop="C24",
 needs="a discrete configuration with more declinations than radii",
 breaks="validation only asks for as many declinations as radii, or more",
 edits=[(I, "        if len(self.radiusList) != len(self.decList):\n", "        if len(self.radiusList) > len(self.decList):\n")],
 demo='''
c = sk.skyMapRegistry["discrete"].ConfigClass()
c.raList, c.decList, c.radiusList = [1.0], [1.0, 2.0], [1.0]
try:
    c.validate()
except ValueError:
    pass
else:
    raise AssertionError("valid")
'''),
dict(id="c28-silent-sha", prop="C28",
 needs="a map type that does not say what its identity depends on",
 breaks="a type without updateSha1 gets a digest of the common settings only",
 edits=[(B, "        all subclasses, but called only by the base class implementation of\n        `getSha1` .\n        \"\"\"\n        raise NotImplementedError()\n",
            "        all subclasses, but called only by the base class implementation of\n        `getSha1` .\n        \"\"\"\n        sha1.update(b\"\")\n")],
 demo='''
class Mine(sk.BaseSkyMap):
    pass
try:
    Mine(sk.BaseSkyMap.ConfigClass()).getSha1()
except NotImplementedError:
    pass
else:
    raise AssertionError("digest")
'''),
dict(id="c20-max-pair", prop="C20",
 needs="a map whose tract with the most patches in y is not the one with the most in x",
 breaks="the summary has the largest pair of patch counts instead of the largest of each",
 edits=[(B, "        nxMax = max(nn[0] for nn in numPatches)\n        nyMax = max(nn[1] for nn in numPatches)\n", "        nxMax, nyMax = max(numPatches)\n")],
 demo='''
m2 = make("healpix", log2NSide=1, pixelScale=3000.0, patchInnerDimensions=[11, 11], tractOverlap=0.0)
n = [t.getNumPatches() for t in m2]
_, b = butler()
m2.register("x", b)
r = list(b.registry.queryDimensionRecords("skymap"))[0]
assert (r.patch_nx_max, r.patch_ny_max) == (max(a[0] for a in n), max(a[1] for a in n)), (n, r)
'''),
dict(id="c17-range-unwrapped", prop="C17",
 needs="the RA range of a tract that reaches RA 0 in a ring map that starts elsewhere",
 breaks="the eastern limit of a tract's RA range is not brought into 0 to 360 degrees",
 edits=[(R, "            raMax = (self._raStart + deltaStop).wrap()\n", "            raMax = self._raStart + deltaStop\n")],
 demo='''
m = make("rings", numRings=4, raStart=300.0, pixelScale=600.0)
for i in range(1, len(m) - 1):
    a, b, _, _ = m.getRaDecRange(i)
    assert 0 <= a.asDegrees() < 360 and 0 <= b.asDegrees() < 360, i
'''),
dict(id="c15-equat-tree", prop="C15",
 needs="a saved and restored equatorial map with the cell layout and settings of it other than the default",
 breaks="the state of an equatorial map has the settings of its patch layout by name only",
 edits=[(Q, "            config=self.config,\n        )\n\n    def __setstate__", "            config={k: v for k, v in self.config.toDict().items() if k != \"tractBuilder\"},\n            builder=self.config.tractBuilder.name,\n            dims=list(self.config.patchInnerDimensions),\n            border=self.config.patchBorder,\n        )\n\n    def __setstate__"),
        (Q, "        self.__init__(stateDict[\"config\"])\n", "        config = self.ConfigClass()\n        if isinstance(stateDict[\"config\"], dict):\n            config.update(**stateDict[\"config\"])\n            config.tractBuilder.name = stateDict[\"builder\"]\n            config.patchInnerDimensions = stateDict[\"dims\"]\n            config.patchBorder = stateDict[\"border\"]\n        else:\n            config = stateDict[\"config\"]\n        self.__init__(config)\n")],
 demo='''
import pickle
m = make("equat", pixelScale=300.0, cells=dict(cellInnerDimensions=[7, 7], cellBorder=2, numCellsPerPatchInner=5, numCellsInPatchBorder=1))
assert pickle.loads(pickle.dumps(m)) == m
'''),
dict(id="c21-replace-run", prop="C21",
 needs="an interrupted registration whose transaction failed when it was nearly done, then repeated",
 breaks="the map itself is stored after the transaction",
 edits=[(B, "                butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n",
            "        if inserted:\n            butler.put(self, datasetType, {\"skymap\": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)\n")],
 demo='''
m = make("dodeca", pixelScale=20000.0)
b = butler()
put = b.put
def broken(*a, **k):
    raise OSError("disk full")
b.put = broken
try:
    m.register("x", b)
except OSError:
    pass
b.put = put
m.register("x", b)
assert b.get("skyMap", {"skymap": "x"}, collections="skymaps") == m
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c23-dimensions-more", "c21-replace-run", "c17-range-unwrapped")]
