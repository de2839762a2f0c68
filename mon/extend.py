"""Map and patch-layout types of one's own, written against the documented extension points only.

Import inside a check, after ``load.load()``.
"""
import struct

import lsst.geom as geom
import lsst.pex.config as pexConfig
import lsst.skymap as sk
from lsst.skymap.baseSkyMap import BaseSkyMap, BaseSkyMapConfig
from lsst.skymap.cachingSkyMap import CachingSkyMap
from lsst.skymap.detail import Index2D, WcsFactory
from lsst.skymap.discreteSkyMap import DiscreteSkyMap
from lsst.skymap.healpixSkyMap import HealpixSkyMap
from lsst.skymap.ringsSkyMap import RingsSkyMap
from lsst.skymap.tractInfo import TractInfo


# ------------------------------------------------------------------ map types
class ScatterConfig(BaseSkyMapConfig):
    raList = pexConfig.ListField(dtype=float, default=[], doc="centres (deg)")
    decList = pexConfig.ListField(dtype=float, default=[], doc="centres (deg)")
    size = pexConfig.Field(dtype=float, default=1.0, doc="half size (deg)")


def make_tract(config, i, cls=TractInfo):
    ctr = geom.SpherePoint(config.raList[i], config.decList[i], geom.degrees)
    wcs = WcsFactory(pixelScale=config.pixelScale*geom.arcseconds, projection=config.projection,
                     rotation=config.rotation*geom.degrees).makeWcs(crPixPos=geom.Point2D(0, 0), crValCoord=ctr)
    verts = [ctr.offset(b*geom.degrees, config.size*geom.degrees) for b in (0, 90, 180, 270)]
    return cls(i, config.tractBuilder.apply(), ctr, verts, config.tractOverlap*geom.degrees, wcs)


class Scatter(CachingSkyMap):
    """Tracts on demand at given places; ``made`` records which were asked for, ``broken`` those that cannot be made now."""

    ConfigClass = ScatterConfig

    def __init__(self, config, version=0):
        super().__init__(len(config.raList), config, version)
        self.made, self.broken = [], {}

    def generateTract(self, index):
        self.made.append(index)
        if index in self.broken:
            raise self.broken[index]
        return make_tract(self.config, index)

    def updateSha1(self, sha1):
        n = len(self.config.raList)
        sha1.update(struct.pack("<%dd" % (2*n + 1), *self.config.raList, *self.config.decList, self.config.size))


class Twin(Scatter):
    """Another type with the same settings."""


class Listed(BaseSkyMap):
    """Tracts made at the start, kept in a list of its own."""

    ConfigClass = ScatterConfig

    def __init__(self, config, version=0):
        super().__init__(config)
        self.mine = [make_tract(config, i) for i in range(len(config.raList))]

    def __reduce__(self):
        return (type(self), (self.config,))

    def __getitem__(self, i):
        return self.mine[i]

    def __iter__(self):
        return iter(self.mine)

    def __len__(self):
        return len(self.mine)

    def updateSha1(self, sha1):
        n = len(self.config.raList)
        sha1.update(struct.pack("<%dd" % (2*n), *self.config.raList, *self.config.decList))


class ByLongitude(Scatter):
    """Its own rule for which tract a position belongs to: equal slices of right ascension."""

    def findTract(self, coord):
        n = len(self)
        return self[min(n - 1, int(coord.getLongitude().asDegrees() % 360.0/(360.0/n)))]


class Renumbered(TractInfo):
    """A tract that is called by another number."""

    def __init__(self, id, *args, **kwargs):
        super().__init__(id + 1000, *args, **kwargs)


class Numbered(Scatter):
    """Tracts of its own type, with numbers that are not their places."""

    def generateTract(self, index):
        self.made.append(index)
        return make_tract(self.config, index, Renumbered)


class PlainDiscrete(DiscreteSkyMap):
    """A built-in type, under another name."""


class HalfDiscrete(DiscreteSkyMap):
    """A built-in type whose tracts are made another way."""

    def generateTract(self, index):
        t = super().generateTract(index)
        ctr = t.getCtrCoord()
        verts = [ctr.offset(b*geom.degrees, 0.5*self.config.radiusList[index]*geom.degrees) for b in (45, 135, 225, 315)]
        wcs = WcsFactory(pixelScale=self.config.pixelScale*geom.arcseconds, projection=self.config.projection,
                         rotation=self.config.rotation*geom.degrees).makeWcs(crPixPos=geom.Point2D(0, 0), crValCoord=ctr)
        return TractInfo(index, self.config.tractBuilder.apply(), ctr, verts, self.config.tractOverlap*geom.degrees, wcs)


def noted(base):
    class Noted(base):
        """A built-in type which makes a note of its own when it is made."""

        def __init__(self, config, *args):
            super().__init__(config, *args)
            self.note = ["%g" % config.pixelScale, type(self).__name__, len(self)]
    Noted.__name__ = Noted.__qualname__ = "Noted" + base.__name__
    return Noted


NOTED = {k: noted(c) for k, c in (("equat", sk.EquatSkyMap), ("dodeca", sk.DodecaSkyMap), ("discrete", DiscreteSkyMap),
                                  ("rings", RingsSkyMap), ("healpix", HealpixSkyMap))}
globals().update({c.__name__: c for c in NOTED.values()})


class NoTracts(CachingSkyMap):
    """Forgot to say how tracts are made."""

    ConfigClass = ScatterConfig

    def __init__(self, config, version=0):
        super().__init__(len(config.raList), config, version)

    def updateSha1(self, sha1):
        pass


class NoDigest(Scatter):
    """Forgot to say what its digest depends on."""

    updateSha1 = BaseSkyMap.updateSha1


# ------------------------------------------------------------------ patch layouts
class OwnConfig(sk.BaseTractBuilderConfig):
    size = pexConfig.ListField(dtype=int, length=2, default=[100, 80], doc="inner size of a patch")
    left = pexConfig.Field(dtype=int, default=3, doc="border left and below")
    right = pexConfig.Field(dtype=int, default=5, doc="border right and above")


class OwnBuilder(sk.BaseTractBuilder):
    """Everything done its own way: lopsided borders, patches counted by columns, tracts one patch larger than needed."""

    ConfigClass = OwnConfig

    def __init__(self, config):
        super().__init__(config)
        self.own = config
        self.grid = None

    def setupPatches(self, minBBox, wcs):
        box = geom.Box2I(minBBox)
        w, h = self.own.size
        self.grid = Index2D(x=-(-box.getWidth()//w) + 1, y=-(-box.getHeight()//h))
        return geom.Box2I(box.getMin(), geom.Extent2I(self.grid.x*w, self.grid.y*h)), self.grid

    def getPatchBorder(self):
        return max(self.own.left, self.own.right)

    def getPatchInnerDimensions(self):
        return geom.Extent2I(*self.own.size)

    def getSequentialPatchIndexFromPair(self, index):
        x, y = index
        return x*self.grid.y + y

    def getSequentialPatchIndex(self, patchInfo):
        return self.getSequentialPatchIndexFromPair(patchInfo.getIndex())

    def getPatchIndexPair(self, sequentialIndex):
        x, y = divmod(sequentialIndex, self.grid.y)
        return Index2D(x=x, y=y)

    def getPatchInfo(self, index, tractWcs):
        x, y = index if hasattr(index, "__len__") else self.getPatchIndexPair(index)
        if not (0 <= x < self.grid.x and 0 <= y < self.grid.y):
            raise IndexError("no such patch: %r" % ((x, y),))
        w, h = self.own.size
        inner = geom.Box2I(geom.Point2I(x*w, y*h), geom.Extent2I(w, h))
        outer = geom.Box2I(geom.Point2I(x*w - self.own.left, y*h - self.own.left),
                           geom.Extent2I(w + self.own.left + self.own.right, h + self.own.left + self.own.right))
        return sk.PatchInfo(index=Index2D(x=x, y=y), innerBBox=inner, outerBBox=outer,
                            sequentialIndex=self.getSequentialPatchIndexFromPair((x, y)), tractWcs=tractWcs)

    def getPackedConfig(self, config):
        sub = config.tractBuilder[config.tractBuilder.name]
        return struct.pack("<iiiidd3sd", *sub.size, sub.left, sub.right, config.tractOverlap, config.pixelScale,
                           config.projection.encode(), config.rotation)


class SaltedConfig(sk.LegacyTractBuilderConfig):
    salt = pexConfig.Field(dtype=int, default=0, doc="has no effect on the patches")


class SaltedBuilder(sk.LegacyTractBuilder):
    """The usual layout, with one more setting in the digest."""

    ConfigClass = SaltedConfig

    def getPackedConfig(self, config):
        return super().getPackedConfig(config) + struct.pack("<i", config.tractBuilder[config.tractBuilder.name].salt)


class NoLayout(sk.BaseTractBuilder):
    """Forgot to say what its patches are."""

    ConfigClass = OwnConfig

    def getPackedConfig(self, config):
        return b""


class NoPacking(OwnBuilder):
    getPackedConfig = sk.BaseTractBuilder.getPackedConfig


sk.tractBuilderRegistry.register("verif-own", OwnBuilder)
sk.tractBuilderRegistry.register("verif-salted", SaltedBuilder)
MAPS = {"scatter": Scatter, "twin": Twin, "listed": Listed, "bylongitude": ByLongitude, "numbered": Numbered}
for _name, _cls in MAPS.items():
    sk.skyMapRegistry.register("verif-" + _name, _cls)


def own_tract(spec, number, centre, radius=None, vertices=None, corners=None):
    """A tract made directly: given by centre and radius, or by its vertices (unit vectors)."""
    import lsst.geom as geom
    from lsst.sphgeom import LonLat
    from lsst.skymap import detail
    from lsst.skymap.tractInfo import ExplicitTractInfo, TractInfo
    from . import gen
    c = gen.make_config(spec)
    builder = c.tractBuilder.apply()
    f = detail.WcsFactory(pixelScale=geom.Angle(spec["pixelScale"], geom.arcseconds), projection=spec["projection"],
                          rotation=geom.Angle(spec["rotation"], geom.degrees))
    p = gen.sp(*centre)
    w = f.makeWcs(crPixPos=geom.Point2D(0, 0), crValCoord=p)
    overlap = geom.Angle(spec["tractOverlap"], geom.degrees)
    kw = {}
    if corners is not None:
        kw["innerBoxCorners"] = [LonLat.fromDegrees(*q) for q in corners]
    if radius is not None:
        return ExplicitTractInfo(number, builder, p, geom.Angle(radius, geom.degrees), overlap, w, **kw)
    return TractInfo(number, builder, p, [gen.spvec(v) for v in vertices], overlap, w, **kw)


def judge_inner(ctx, t, corners, wit):
    """The inner region of a tract made directly: the limits it was given, or the hull of its vertices."""
    import numpy as np
    from . import gen, obs, ref
    for what, r in (("getInnerSkyRegion", obs.attempt(t.getInnerSkyRegion)), ("inner_sky_region", obs.attempt(lambda: t.inner_sky_region))):
        ctx.ev("inner region of a tract made directly")
        if not ctx.ok(r[0] == "ok" or corners is None, "own-inner", "%s of a tract with limits raised %r" % (what, r[-1]), **wit):
            continue
        if r[0] != "ok":
            continue
        r = r[1]
        if corners is not None:
            if not ctx.ok(hasattr(r, "getLon"), "own-inner", "%s is %r, not a box of RA and Dec" % (what, r), **wit):
                continue
            w, la = r.getLon(), r.getLat()
            got = [w.getA().asDegrees(), la.getA().asDegrees(), w.getB().asDegrees(), la.getB().asDegrees()]
            d = [(a - b + 180) % 360 - 180 for a, b in zip(got, corners[0] + corners[1])]
            ctx.ok(max(abs(q) for q in d) < 1e-9, "own-inner", "%s: limits %r, want %r" % (what, got, corners), **wit)
        else:
            vs = np.array([gen.pvec(v) for v in t.getVertexList()])
            if not np.isfinite(vs).all():       # corners off the sky
                continue
            gv = np.array(obs.poly(r)) if hasattr(r, "getVertices") else None
            ctx.ok(gv is not None and all(np.min(ref.sep(vs, v)) < 1e-9 for v in gv), "own-inner",
                   "%s is %r, not the hull of the vertices" % (what, r), **wit)
