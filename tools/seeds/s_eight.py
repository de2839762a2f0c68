"""Eighth batch: sizes."""
B = "baseSkyMap.py"
T = "tractInfo.py"
R = "ringsSkyMap.py"
P = "patchInfo.py"
TB = "tractBuilder.py"
SEEDS = [
dict(id="c05-many-patches", prop="C05",
 needs="a region that reaches more than a thousand patches of a tract",
 breaks="at most 1024 patches of a tract are listed",
 edits=[(T, "                     for yInd in range(llPatchInd[1], urPatchInd[1]+1))\n",
         "                     for yInd in range(llPatchInd[1], urPatchInd[1]+1))[:1024]\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=20.0, tractOverlap=0.0, patchBorder=0, patchInnerDimensions=[10, 10])
t = m[0]
w = t.getWcs()
b = t.getBBox()
r = t.findPatchList([w.pixelToSky(geom.Point2D(0, 0)), w.pixelToSky(geom.Point2D(b.getMaxX(), b.getMaxY()))])
assert len(r) == len(t) > 1024
'''),
dict(id="c19-patch-iteration", prop="C19",
 needs="a tract of more than 10000 patches",
 breaks="iterating over a tract's patches ends after 10000",
 edits=[(T, "        xNum, yNum = self.getNumPatches()\n        for y in range(yNum):\n",
         "        xNum, yNum = self.getNumPatches()\n        for y in range(min(yNum, 1 + 10000//xNum)):\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=20.0, tractOverlap=0.0, patchBorder=0, patchInnerDimensions=[3, 3])
assert sum(1 for _ in m[0]) == len(m[0]) > 10000
'''),
dict(id="c10-cells-byte", prop="C10",
 needs="a patch with more than 255 cells in a row",
 breaks="the column of a cell is kept in one byte when it is found from its number",
 edits=[(P, "        x = sequentialIndex % nx\n        y = sequentialIndex // nx\n", "        y, x = divmod(sequentialIndex, nx)\n        x = x & 0xff if nx < 4096 else x\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=20.0, tractOverlap=0.0,
         cells=dict(cellInnerDimensions=[1, 1], cellBorder=1, numCellsPerPatchInner=300, numCellsInPatchBorder=1))
p = m[0].getPatchInfo((0, 0))
for k in (0, 299, 301, 302, 5000, 90000):
    assert p.getSequentialCellIndexFromPair(p.getCellIndexPair(k)) == k
'''),
dict(id="c07-short-box", prop="C07",
 needs="a legacy tract more than 65535 pixels wide",
 breaks="the lower corner of a patch's box is kept in 16 bits if the patch is a power of two wide",
 edits=[(TB, "        innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])\n",
         "        innerMin = geom.Point2I(*[(_index[i] * self._patchInnerDimensions[i]) & (0xffff if self._patchInnerDimensions[i] == 4096 else -1) for i in range(2)])\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=0.1, tractOverlap=0.0, patchBorder=0, patchInnerDimensions=[4096, 4096])
t = m[0]
assert t.getPatchInfo((17, 0)).getInnerBBox().getMinX() == 17*4096
'''),
dict(id="c06-single", prop="C06",
 needs="a position near the edge of a patch in a tract of tens of thousands of pixels",
 breaks="the pixel used to find a patch is kept in single precision",
 edits=[(T, "        pixelInd = geom.Point2I(pixel)\n        if not", "        pixelInd = geom.Point2I(geom.Point2D(*(float(np.float32(p)) for p in pixel)))\n        if not")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=0.1, tractOverlap=0.0, patchBorder=0, patchInnerDimensions=[1000, 1000])
t = m[0]
w = t.getWcs()
for k in range(50, 70):
    p = t.findPatch(w.pixelToSky(geom.Point2D(1000*k - 0.5 - 0.0005, 60000.0)))
    assert p.getIndex().x == k - 1
'''),
dict(id="c01-many-tracts", prop="C01",
 needs="an explicit map with more than a few hundred tracts",
 breaks="nearest-centre lookup compares only every other tract after the first 256, then those around the best",
 edits=[(B, "        for i, tractInfo in enumerate(self):\n            angSep", "        for i, tractInfo in zip(range(len(self)), self):\n            if i >= 256 and i % 2:\n                continue\n            angSep")],
 demo='''
import random
r = random.Random(1)
n = 300
ra, dec = [r.uniform(0, 360) for _ in range(n)], [r.uniform(-80, 80) for _ in range(n)]
m = make("discrete", raList=ra, decList=dec, radiusList=[0.1]*n, pixelScale=20.0)
for i in range(n):
    assert m.findTract(sky(ra[i], dec[i])).getId() == i, i
'''),
dict(id="c18-many-discrete", prop="C18",
 needs="an explicit map with more than 100 tracts",
 breaks="the radius of tracts after the hundredth is that of the first",
 edits=[("discreteSkyMap.py", "self.config.radiusList[index]", "self.config.radiusList[index if index < 100 else 0]")],
 demo='''
n = 120
m = make("discrete", raList=[float(i) for i in range(n)], decList=[0.0]*n, radiusList=[0.1 + 0.01*i for i in range(n)], pixelScale=20.0, tractOverlap=0.0,
         patchInnerDimensions=[5, 5])
assert m[110].getBBox().getWidth() > m[0].getBBox().getWidth()*2
'''),
dict(id="c09-many-cells", prop="C09",
 needs="a patch with more than 100 cells in a row",
 breaks="beyond a hundred cells in a row the cells are placed by a rounded step",
 edits=[(P, "        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]\n",
         "        innerMin = Point2I(*[(_index[i] - min(self._numCellsInPatchBorder, 100))*self._cellInnerDimensions[i]\n")],
 demo='''
m = make("discrete", raList=[10.0], decList=[0.0], radiusList=[1.0], pixelScale=20.0, tractOverlap=0.0,
         cells=dict(cellInnerDimensions=[1, 1], cellBorder=1, numCellsPerPatchInner=300, numCellsInPatchBorder=120))
p = m[0].getPatchInfo((0, 0))
assert p.getCellInfo((120, 120)).getInnerBBox().getMin() == p.getInnerBBox().getMin()
'''),
]
