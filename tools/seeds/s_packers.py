F = "packers.py"
SEEDS = [
dict(id="c22-maxbits-exact", prop="C22",
 needs="a packer whose number of IDs is just above a power of two (2**k + 1)",
 breaks="maxBits is one too small, so the largest data IDs pack to integers that do not fit",
 edits=[(F, "return (packedMax - 1).bit_length()", "return max(packedMax - 2, 0).bit_length()")],
 demo='''
fixed, u = packer_for(17, 1, 1)
from lsst.skymap.packers import SkyMapDimensionPacker as P
p = P(fixed, n_bands=0)
n, bits = p.pack(data_id(u, tract=16, patch=0), returnMaxBits=True)
assert n < 2**bits, (n, bits)
'''),
dict(id="c22-patch-count-square", prop="C22",
 needs="tracts that are not square in patches",
 breaks="room is kept for max(nx, ny)**2 patches, so integers differ from those of earlier releases",
 edits=[(F, '''                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max
''', '''                max(fixed.records["skymap"].patch_nx_max, fixed.records["skymap"].patch_ny_max)**2
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
for nx, ny in ((3, 3), (3, 4)):
    fixed, u = packer_for(10, nx, ny)
    p = P(fixed, n_bands=0)
    assert p.pack(data_id(u, tract=2, patch=1)) == 2*nx*ny + 1
'''),
dict(id="c22-class-cache", prop="C22",
 needs="two packers for the same sky map name and number of bands but different band tables, unpacking in one process",
 breaks="the reverse band table is kept on the class by sky map and number of bands, so the first packer to unpack decides",
 edits=[(F, '''            if self._bands_list is None:
''', '''            key = (self.fixed["skymap"], self._n_bands, len(self._bands))
            self._bands_list = self._bands_lists.get(key)
            if self._bands_list is None:
'''), (F, '''            d["band"] = self._bands_list[index]''', '''            d["band"] = self._bands_lists.setdefault(key, self._bands_list)[index]'''), (F, '''    ConfigClass = SkyMapDimensionPackerConfig
''', '''    ConfigClass = SkyMapDimensionPackerConfig
    _bands_lists = {}
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
a = P(fixed, bands={"r": 0, "i": 1}, n_bands=2)
b = P(fixed, bands={"i": 0, "r": 1}, n_bands=2)
for p in (a, b):
    for band in "ri":
        d = data_id(u, tract=3, patch=4, band=band)
        assert p.unpack(p.pack(d)) == d, band
'''),
dict(id="c22-first-band-dropped", prop="C22",
 needs="a band table whose used numbers are exactly one band, with n_bands=1 and a nonzero tract",
 breaks="n_bands=1 leaves the band out of unpacked data IDs",
 edits=[(F, '''        d = {"skymap": self.fixed["skymap"]}
        if self._n_bands:''', '''        d = {"skymap": self.fixed["skymap"]}
        if self._n_bands > 1:''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
p = P(fixed, bands={"r": 0}, n_bands=1)
d = data_id(u, tract=3, patch=4, band="r")
try:
    ok = p.unpack(p.pack(d)) == d
except Exception as e:
    ok = False
assert ok
'''),
dict(id="c22-unpack-tract-stride", prop="C22",
 needs="n_tracts reserved by hand larger than the record, bands in use, a band other than the first",
 breaks="unpacking strips the band with the record's tract count instead of the packer's",
 edits=[(F, '''            index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))''',
 '''            n_tracts = self._n_tracts
            if self.fixed.hasRecords():
                n_tracts = min(n_tracts, self.fixed.records["skymap"].tract_max)
            index, packedId = divmod(packedId, n_tracts * self._n_patches)''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
p = P(fixed, n_tracts=32)
for band in ("u", "r"):
    for tract in (0, 9, 12, 31):
        d = data_id(u, tract=tract, patch=4, band=band)
        try:
            r = p.unpack(p.pack(d))
        except LookupError as e:
            r = repr(e)
        assert r == d, (r, d)
'''),
dict(id="c22-config-len-bands", prop="C22",
 needs="a config that sets bands and an n_bands that is larger than the number of bands",
 breaks="from_config reserves only as many bands as are named, so maxBits and the meaning of n_bands change by route",
 edits=[(F, '''            n_bands=config.n_bands,
''', '''            n_bands=min(config.n_bands, len(config.bands)) if config.bands and config.n_bands else config.n_bands,
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
c = P.ConfigClass()
c.bands = {"g": 0, "r": 5}
c.n_bands = 6
a = P(fixed, bands={"g": 0, "r": 5}, n_bands=6)
b = P.from_config(fixed, c)
assert a.maxBits == b.maxBits
d = data_id(u, tract=3, patch=4, band="r")
try:
    ok = a.pack(d) == b.pack(d)
except ValueError:
    ok = False
assert ok
'''),
dict(id="c22-bands-sorted", prop="C22",
 needs="bands given explicitly in an order that is not alphabetical by number",
 breaks="an explicit table is renumbered by order of its numbers, so sparse tables lose their gaps",
 edits=[(F, '''        self._n_bands = n_bands
''', '''        self._n_bands, self._bands = n_bands, {b: n for n, b in enumerate(sorted(bands, key=bands.get))}
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
p = P(fixed, bands={"g": 0, "r": 3}, n_bands=4)
assert p.pack(data_id(u, tract=0, patch=0, band="r")) == 3*90
'''),
dict(id="c22-default-table-order", prop="C22",
 needs="the default band table and one of the DECam narrow bands",
 breaks="narrow bands are appended in another order, so integers differ from those of earlier releases",
 edits=[(F, '''        + [f"N{d}" for d in (387, 515, 656, 816, 921, 1010)]  # HSC narrow-bands
        + [f"N{d}" for d in (419, 540, 708, 964)]  # DECam narrow-bands
''', '''        + [f"N{d}" for d in (387, 419, 515, 540, 656, 708, 816, 921, 964, 1010)]  # HSC and DECam narrow-bands
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
p = P(fixed)
assert p.pack(data_id(u, tract=0, patch=0, band="N964")) == 27*90, p.pack(data_id(u, tract=0, patch=0, band="N964"))
'''),
dict(id="c22-explicit-zero-tracts", prop="C22",
 needs="n_patches given but not n_tracts (mixed route)",
 breaks="giving n_patches alone makes the packer take the tract count plus one",
 edits=[(F, '''            n_tracts = fixed.records["skymap"].tract_max
''', '''            n_tracts = fixed.records["skymap"].tract_max + (n_patches is not None)
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
a = P(fixed)
b = P(fixed, n_patches=9)
d = data_id(u, tract=3, patch=4, band="r")
assert a.pack(d) == b.pack(d)
assert a.maxBits == b.maxBits
'''),
dict(id="c23-band-zero-default", prop="C23",
 needs="a data ID with an unknown band",
 breaks="an unknown band packs like the first one",
 edits=[(F, '''            if (band_index := self._bands.get(dataId["band"])) is None:
                raise ValueError(
                    f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                    f"configuration; expected one of {list(self._bands)}."
                )''', '''            band_index = self._bands.get(dataId["band"], self._bands.get(None))
            if band_index is None:
                raise ValueError(
                    f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                    f"configuration; expected one of {list(self._bands)}."
                )'''), (F, '''packed += self._bands[dataId["band"]] *''', '''packed += band_index *''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
for p in (P(fixed, bands={"r": 0}, n_bands=1), P(fixed)):
    try:
        p.pack(data_id(u, tract=1, patch=1, band="nosuch"))
    except ValueError:
        pass
    else:
        assert False, "unknown band packed"
'''),
dict(id="c23-dimensions-subset", prop="C23",
 needs="construction for four dimensions with band and sky map, but not the right ones",
 breaks="dimensions without tract and patch are accepted",
 edits=[(F, '''                if dimensions.names != {"tract", "patch", "skymap", "band"}:''',
            '''                if len(dimensions.names) != 4:''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
try:
    P(fixed, u.conform(["skymap", "physical_filter"]))
except ValueError:
    pass
else:
    assert False, "accepted"
'''),
dict(id="c23-subset-no-patch", prop="C23",
 needs="construction for tract-only dimensions without a band",
 breaks="dimensions without patch are accepted",
 edits=[(F, '''                if dimensions.names != {"tract", "patch", "skymap"}:''',
            '''                if not set(dimensions.names) <= {"tract", "patch", "skymap"}:''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
try:
    P(fixed, u.conform(["tract"]))
except ValueError:
    pass
else:
    assert False, "accepted"
'''),
dict(id="c23-unpack-poison", prop="C23",
 needs="an unpack that fails (a number no band has), followed by more use of the same packer",
 breaks="a failed unpack leaves an entry in the reverse table",
 edits=[(F, '''            d["band"] = self._bands_list[index]''',
            '''            d["band"] = self._bands_list.setdefault(index, next(iter(self._bands)))''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
fixed, u = packer_for(10, 3, 3)
p = P(fixed, bands={"r": 0, "i": 3}, n_bands=4)
try:
    d = p.unpack(90*2)
except LookupError:
    pass
else:
    assert False, d
'''),
dict(id="c23-missing-records", prop="C23",
 needs="a packer made without records and without the patch count",
 breaks="missing counts are taken as one patch instead of being refused",
 edits=[(F, '''                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max
''', '''                fixed.records["skymap"].patch_nx_max * fixed.records["skymap"].patch_ny_max
                if fixed.hasRecords() else 1
''')],
 demo='''
from lsst.skymap.packers import SkyMapDimensionPacker as P
from lsst.daf.butler import DimensionUniverse, DataCoordinate
u = DimensionUniverse()
fixed = DataCoordinate.from_full_values(u.conform(["skymap"]), ("m",))
try:
    P(fixed, n_tracts=5)
except Exception:
    pass
else:
    assert False, "made without the patch count"
'''),
]
