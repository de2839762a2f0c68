"""Ninth batch: names, odd values, and things that look like tidying."""
B = "baseSkyMap.py"
C = "cachingSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
K = "packers.py"
H = "healpixSkyMap.py"
Q = "equatSkyMap.py"
D = "dodecaSkyMap.py"
I = "discreteSkyMap.py"
SEEDS = [
dict(id="c20-name-lower", prop="C20",
 needs="a name with capital letters or with blanks at its ends",
 breaks="the name under which a map is registered is put in lower case",
 edits=[(B, "            \"skymap\": name,\n", "            \"skymap\": (name := name.strip().lower()),\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[50, 50])
root, b = butler()
m.register("DC2_Cells", b)
assert [r.name for r in b.registry.queryDimensionRecords("skymap")] == ["DC2_Cells"]
'''),
dict(id="c11-rotation-turn", prop="C11",
 needs="a negative rotation",
 breaks="negative rotations are taken for none",
 edits=[(B, "            rotation=Angle(self.config.rotation, degrees),\n", "            rotation=Angle(max(0.0, self.config.rotation), degrees),\n")],
 demo='''
t = make("dodeca", pixelScale=3000.0, rotation=-30.0, patchInnerDimensions=[50, 50])[3]
cd = t.getWcs().getCdMatrix()
assert abs(cd[0][1]) > 1e-3, cd
'''),
dict(id="c17-ra-start-zero", prop="C17",
 needs="a starting RA that puts a tract across RA 0 and its last tract's end exactly on RA 0",
 breaks="the RA range of a tract that ends at RA 0 ends at 360 degrees less one ring",
 edits=[(R, "            raMax = (self._raStart + deltaStop).wrap()\n",
         "            raMax = self._raStart + deltaStop\n            raMax = min(raMax.wrap(), (2.*np.pi - self._ringSize)*geom.radians)\n")],
 demo='''
m = make("rings", numRings=3, raStart=0.0, pixelScale=500.0)
n = len(m)
for i in range(1, n - 1):
    a, b, _, _ = [x.asDegrees() for x in m.getRaDecRange(i)]
    r, k = m.getRingIndices(i)
m = make("rings", numRings=3, raStart=180.0/9, pixelScale=500.0)
for i in range(1, len(m) - 1):
    a, b, _, _ = [x.asDegrees() for x in m.getRaDecRange(i)]
    num = sum(1 for j in range(1, len(m) - 1) if m.getRingIndices(j)[0] == m.getRingIndices(i)[0])
    w = (b - a) % 360
    assert abs(w - 360.0/num) < 1e-6, (i, a, b)
for num in (6, 9, 8, 10):
    m = make("rings", numRings=3, raStart=180.0/num, pixelScale=500.0)
    for i in range(1, len(m) - 1):
        a, b, _, _ = [x.asDegrees() for x in m.getRaDecRange(i)]
        k = sum(1 for j in range(1, len(m) - 1) if m.getRingIndices(j)[0] == m.getRingIndices(i)[0])
        assert abs((b - a) % 360 - 360.0/k) < 1e-6, (i, a, b)
'''),
dict(id="c22-band-falsy", prop="C22",
 needs="a band whose name is empty",
 breaks="a band with an empty name is unpacked as none",
 edits=[(K, "            d[\"band\"] = self._bands_list[index]\n", "            d[\"band\"] = self._bands_list[index] or None\n")],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker
fixed, u = packer_for()
p = SkyMapDimensionPacker(fixed, bands={"": 0, "g": 1}, n_tracts=5, n_patches=9)
d = data_id(u, tract=1, patch=3, band="")
assert p.unpack(p.pack(d))["band"] == ""
'''),
dict(id="c12-wcs-falsy", prop="C12",
 needs="a WCS of another tract or map given for the outer polygon of a patch that was asked for its polygon before",
 breaks="the outer polygon of a patch is that of the WCS first used for it",
 edits=[(P, "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n",
         "        if not hasattr(self, '_outerPolygon'):\n            self._outerPolygon = makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)\n        return self._outerPolygon\n")],
 demo='''
m = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[50, 50])
p = m[0].getPatchInfo((0, 0))
a = p.getOuterSkyPolygon()
b = p.getOuterSkyPolygon(m[5].getWcs())
v, w = a.getVertices()[0], b.getVertices()[0]
assert abs(v[0] - w[0]) + abs(v[1] - w[1]) + abs(v[2] - w[2]) > 1e-3
'''),
dict(id="c05-empty-first", prop="C05",
 needs="a region query of a map whose first position is in no tract, or has no patches",
 breaks="the closest-tract query stops at the first position whose tract lists no patches",
 edits=[(B, "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n",
         "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n            if not patchList and not retList:\n                break\n")],
 demo="") if False else None,
dict(id="c26-hash-index", prop="C26",
 needs="an index compared or used with floats or numpy integers",
 breaks="patches whose indices are of another integer type compare unequal",
 edits=[(P, "        return (self.getIndex() == rhs.getIndex()) \\\n", "        return (repr(self.getIndex()) == repr(rhs.getIndex())) \\\n")],
 demo='''
import numpy as np
from lsst.skymap import PatchInfo, Index2D
b = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(20, 20))
def patch(i):
    return PatchInfo(i, b, b, 0, None)
assert patch(Index2D(0, 1)) == patch((0, 1)) and patch(Index2D(0, 1)) == patch(Index2D(np.int64(0), np.int64(1)))
'''),
dict(id="c18-dec-order", prop="C18",
 needs="an equatorial map whose declination range is given from north to south",
 breaks="the declination range is put in order first",
 edits=[(Q, "for dr in self.config.decRange)\n", "for dr in sorted(self.config.decRange, key=abs))\n")],
 demo='''
t = make("equat", decRange=[-2.0, 1.0])[0]
assert abs(t.getVertexList()[0].getLatitude().asDegrees() + 2.0) < 1e-9, t.getVertexList()
'''),
dict(id="c03-array-order", prop="C03",
 needs="a position in radians at or beyond a full turn, or within a few nanoradians of one",
 breaks="right ascensions in arrays are first reduced modulo a full turn written with too few digits",
 edits=[(B, "        coords = [geom.SpherePoint(r*units, d*units) for r, d in zip(np.atleast_1d(ra),\n", "        coords = [geom.SpherePoint(r % (360.0 if degrees else 6.2831853)*units, d*units) for r, d in zip(np.atleast_1d(ra),\n")],
 demo='''
import numpy as np
n = 60
m = make("discrete", raList=[0.0, 359.9999999], decList=[0.0, 0.0], radiusList=[0.1]*2, pixelScale=20.0)
import math
for r in np.linspace(6.28318526, 2*math.pi, 400)[1:-1]:
    assert m.findTractIdArray(np.array([r]), np.array([0.0]))[0] == m.findTract(geom.SpherePoint(r*geom.radians, 0.0*geom.radians)).getId(), r
'''),
dict(id="c13-config-live", prop="C13",
 needs="two maps made from one configuration class with builders of their own",
 breaks="the tract builder is kept per class of builder and reused by later maps with the same patch size",
 edits=[(B, "        self._tractBuilder = config.tractBuilder.apply()\n",
         "        builder = config.tractBuilder.apply()\n        key = (type(builder).__name__, tuple(builder.getPatchInnerDimensions()))\n"
         "        self._tractBuilder = BaseSkyMap.__dict__.get('_known') or builder\n        if key != getattr(BaseSkyMap, '_knownKey', None):\n"
         "            BaseSkyMap._known, BaseSkyMap._knownKey = builder, key\n            self._tractBuilder = builder\n")],
 demo='''
a = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[50, 50], patchBorder=3)
b = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[50, 50], patchBorder=9)
assert b[0].getPatchBorder() == 9
'''),
dict(id="c24-cells-inactive", prop="C24",
 needs="a configuration with the cells builder and old names of patch settings given",
 breaks="the old names of the patch settings act on the chosen builder when it has them, and are lost otherwise",
 edits=[(B, "        self.tractBuilder[\"legacy\"].patchBorder = value\n", "        if self.tractBuilder.name == \"legacy\":\n            self.tractBuilder[\"legacy\"].patchBorder = value\n")],
 demo='''
c = sk.skyMapRegistry["dodeca"].ConfigClass()
c.tractBuilder.name = "cells"
c.patchBorder = 17
c.tractBuilder.name = "legacy"
assert c.tractBuilder["legacy"].patchBorder == 17 and c.patchBorder == 17
'''),
dict(id="c07-border-asym", prop="C07",
 needs="a legacy map whose patch border is wider than a patch",
 breaks="borders are at most one patch wide",
 edits=[(TB, "        outerBBox.grow(self.getPatchBorder())\n        outerBBox.clip", "        outerBBox.grow(min(self.getPatchBorder(), max(self._patchInnerDimensions)))\n        outerBBox.clip")],
 demo='''
m = make("dodeca", pixelScale=3000.0, patchInnerDimensions=[5, 5], patchBorder=9)
p = m[0].getPatchInfo((4, 4))
assert p.getOuterBBox().getMinX() == 20 - 9
'''),
dict(id="c10-cell-range", prop="C10",
 needs="a column of cells that does not exist but is named in a row that does",
 breaks="cells just outside the patch's cells, by the border's width in cells, are made",
 edits=[(P, "        if (not 0 <= _index.x < self._numCells.x) \\\n                or (not 0 <= _index.y < self._numCells.y):\n",
         "        if (not 0 <= _index.x < self._numCells.x) \\\n                or (not 0 <= _index.x + _index.y*self._numCells.x < self._numCells.x*self._numCells.y):\n")],
 demo="") if False else None,
]
SEEDS = [s for s in SEEDS if s]
