"""Workload: sky map specs (JSON-able), maps built from them, sky positions."""
import math

import numpy as np

from . import ref

# Configurations used in production and in the documentation.
PRODUCTION = [
    dict(cls="rings", version=1, numRings=120, raStart=0.0, tractOverlap=1.0/60, pixelScale=0.168,
         projection="TAN", rotation=0.0, builder="legacy", dims=[4000, 4000], border=100, name="hsc_rings_v1"),
    dict(cls="rings", version=1, numRings=120, raStart=0.0, tractOverlap=1.0/60, pixelScale=0.2,
         projection="TAN", rotation=0.0, builder="cells", cell=[150, 150], cellBorder=50, perPatch=20,
         inBorder=1, name="lsst_cells_v1"),
    dict(cls="rings", version=0, numRings=120, raStart=0.0, tractOverlap=1.0/60, pixelScale=0.168,
         projection="TAN", rotation=0.0, builder="legacy", dims=[4000, 4000], border=100, name="hsc_rings_v0"),
    dict(cls="rings", version=1, numRings=3, raStart=0.0, tractOverlap=1.0, pixelScale=0.333,
         projection="STG", rotation=0.0, builder="legacy", dims=[4000, 4000], border=100, name="rings_default"),
    dict(cls="dodeca", withTractsOnPoles=False, tractOverlap=3.5, pixelScale=0.2, projection="STG",
         rotation=0.0, builder="legacy", dims=[4000, 4000], border=250, name="dodeca_default"),
    dict(cls="equat", numTracts=4, decRange=[-1.25, 1.25], tractOverlap=1.0, pixelScale=0.333,
         projection="CEA", rotation=0.0, builder="legacy", dims=[4000, 4000], border=100, name="equat_default"),
    dict(cls="discrete", version=0, raList=[0.0, 90.0, 180.0], decList=[-20.0, 0.0, 20.0],
         radiusList=[0.5, 0.5, 0.5], tractOverlap=0.0, pixelScale=0.2, projection="TAN", rotation=0.0,
         builder="legacy", dims=[4000, 4000], border=100, name="discrete_three"),
    dict(cls="healpix", version=0, log2NSide=1, nest=False, tractOverlap=1.0, pixelScale=0.333,
         projection="STG", rotation=45.0, builder="legacy", dims=[4000, 4000], border=100,
         name="healpix_default"),
]

ALL = ("rings", "dodeca", "equat", "discrete", "healpix")


def _mapclasses():
    import lsst.skymap as sk
    from lsst.skymap.healpixSkyMap import HealpixSkyMap
    from lsst.skymap.ringsSkyMap import RingsSkyMap
    return {"rings": RingsSkyMap, "dodeca": sk.DodecaSkyMap, "equat": sk.EquatSkyMap,
            "discrete": sk.DiscreteSkyMap, "healpix": HealpixSkyMap}


SPECIFIC = {"rings": ("numRings", "raStart"), "dodeca": ("withTractsOnPoles",),
            "equat": ("numTracts", "decRange"), "discrete": ("raList", "decList", "radiusList"),
            "healpix": ("log2NSide", "nest")}


def make_config(spec):
    c = _mapclasses()[spec["cls"]].ConfigClass()
    for k in ("tractOverlap", "pixelScale", "projection", "rotation") + SPECIFIC[spec["cls"]]:
        setattr(c, k, spec[k])
    c.tractBuilder = spec["builder"]
    if spec["builder"] == "legacy":
        t = c.tractBuilder["legacy"]
        t.patchInnerDimensions = spec["dims"]
        t.patchBorder = spec["border"]
    else:
        t = c.tractBuilder["cells"]
        t.cellInnerDimensions = spec["cell"]
        t.cellBorder = spec["cellBorder"]
        t.numCellsPerPatchInner = spec["perPatch"]
        t.numCellsInPatchBorder = spec["inBorder"]
    return c


def build(spec, config=None):
    cls = _mapclasses()[spec["cls"]]
    if config is None:
        config = make_config(spec)
        config.validate()
    if spec["cls"] == "rings" or (spec["cls"] in ("discrete", "healpix") and spec.get("version")):
        return cls(config, spec["version"])
    return cls(config)


def production(name):
    for p in PRODUCTION:
        if p["name"] == name:
            return {k: v for k, v in p.items()}
    raise KeyError(name)


# ------------------------------------------------------------------ random specs
def _lin(rng, lo, hi):
    return rng.uniform(lo, hi)


def spec_random(rng, kinds=ALL, builders=("legacy", "cells"), regime="any", maxpatch=12, version=None,
                proj=None, rotation=None, max_rings=24):
    """A random sky map.  ``regime="covered"`` keeps to the configurations for which full coverage is
    claimed (see C02); "any" ranges wider (zero overlap, large overlap, rotations)."""
    kind = rng.choice(kinds)
    s = {"cls": kind}
    if kind == "rings":
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 31, 33, 60, 64, 100, 120, 127, 128, 180,
                        256])
        while n > max_rings:
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24])
        if regime == "covered" and n == 1:
            n = 2
        s["numRings"] = n
        s["raStart"] = rng.choice([0.0, 0.0, 0.25, 90.0, 180.0, 359.9, 10.0, round(rng.uniform(0, 360), 3),
                                   rng.uniform(0, 360) % 360])
        s["version"] = version if version is not None else rng.choice([1, 1, 1, 0])
        size = 180.0/(n + 1)
        fr = rng.choice([0.0, 0.01, 0.05, 0.1, 0.25, rng.uniform(0, 0.3), 0.6, 1.0, 1.3])
        if regime == "covered":
            fr = rng.choice([0.06, 0.1, 0.2, rng.uniform(0.055, 0.3)])
        s["tractOverlap"] = fr*size
        half = size/2 + s["tractOverlap"]
        while half > 62:
            s["tractOverlap"] *= 0.5
            half = size/2 + s["tractOverlap"]
        projs = ["TAN", "STG", "TAN", "STG", "ZEA", "ARC", "SIN"]
    elif kind == "dodeca":
        s["withTractsOnPoles"] = rng.random() < 0.5
        s["tractOverlap"] = rng.choice([0.0, 0.5, 1.0, 3.5, 3.5, 0.01, rng.uniform(0, 10)])
        if regime == "covered":
            s["tractOverlap"] = rng.choice([3.5, 3.0, 5.0, rng.uniform(3.0, 10)])
        half = 37.4 + s["tractOverlap"]/2
        projs = ["TAN", "STG", "STG", "ZEA"]
    elif kind == "equat":
        s["numTracts"] = rng.choice([3, 4, 4, 5, 6, 7, 8, 9, 11, 12, 13, 22, 24, 36])
        lo = rng.choice([-1.25, -1.25, -5.0, -30.0, 0.0, 1.0, rng.uniform(-40, 10)])
        hi = lo + rng.choice([2.5, 1.0, 10.0, 0.1, rng.uniform(0.5, 30)])
        if lo == -1.25:
            hi = 1.25
        s["decRange"] = [lo, hi]
        w = 360.0/s["numTracts"]
        s["tractOverlap"] = rng.choice([0.0, 0.1, 1.0, 1.0, 0.01, rng.uniform(0, 3)])
        half = w/2 + s["tractOverlap"]
        projs = ["CEA", "CEA", "CAR", "MER"]
        if s["numTracts"] >= 4 and regime != "covered":
            projs += ["TAN", "STG", "ZEA", "MOL", "AIT", "SFL"]
        if regime == "covered":
            s["tractOverlap"] = rng.choice([0.1, 1.0, 1.0, rng.uniform(0.05, 3)])
    elif kind == "discrete":
        n = rng.choice([1, 2, 3, 5, 8])
        s["version"] = 0
        s["raList"] = [rng.choice([0.0, 359.99, 180.0, rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(-360, 0),
                                  rng.choice([360.0, 400.0, -0.01])])
                       for _ in range(n)]
        s["decList"] = [rng.choice([0.0, -90.0, 90.0, 89.5, rng.uniform(-89, 89), rng.uniform(-60, 60)])
                        for _ in range(n)]
        r = rng.choice([0.05, 0.5, 1.0, 5.0, 20.0])
        s["radiusList"] = [r if rng.random() < 0.4 else r*rng.choice([0.5, 2.0, 1.5, rng.uniform(0.3, 2)])
                           for _ in range(n)]
        s["tractOverlap"] = rng.choice([0.0, 0.01, 0.1*r, r, 1.0])
        half = max(s["radiusList"]) + s["tractOverlap"]
        projs = ["TAN", "STG", "TAN", "ZEA", "ARC"]
        if max(abs(d) for d in s["decList"]) < 30:
            projs += ["CAR", "CEA"]
    else:
        s["log2NSide"] = rng.choice([0, 1, 1, 2, 3])
        s["nest"] = rng.random() < 0.5
        s["version"] = 0
        s["tractOverlap"] = rng.choice([0.0, 0.1, 1.0, 0.005, rng.uniform(0, 4)])
        half = {0: 50, 1: 35, 2: 17, 3: 9}[s["log2NSide"]] + s["tractOverlap"]
        projs = ["TAN", "STG", "STG", "ZEA"]
    # a tract rounded up to whole patches must stay on the sky
    if half > 20:
        projs = [p for p in projs if p != "SIN"]
    if half > 40:
        projs = [p for p in projs if p not in ("ARC", "ZEA")]
    s["projection"] = proj or rng.choice(projs)
    if rotation is not None:
        s["rotation"] = rotation
    elif regime == "covered":
        s["rotation"] = 0.0
    else:
        s["rotation"] = rng.choice([0.0, 0.0, 0.0, 45.0, 90.0, 180.0, -30.0, rng.uniform(0, 360)])
    # patch grid: choose how many patches across, then the pixel scale
    across = rng.choice([1, 2, 3, 4, 5, 7, maxpatch, rng.randint(1, maxpatch)])
    s["builder"] = rng.choice(builders)
    if s["builder"] == "legacy":
        # (49, 98, 103, 196, 4001...: sizes whose reciprocal times themselves is not 1)
        d = rng.choice([10, 37, 50, 64, 100, 250, 1000, 4000, 4001, 49, 98, 103, 107, 196])
        s["dims"] = [d, d if rng.random() < 0.5 else max(5, int(d*rng.choice([0.5, 2, 1.37, 0.8])))]
        s["border"] = rng.choice([0, 1, 2, 5, d//10, d//2, d, d + 3])
        pix = min(s["dims"])
    else:
        d = rng.choice([5, 10, 11, 50, 150, 151])
        s["cell"] = [d, d]
        s["cellBorder"] = rng.choice([0, 1, 3, d//3, d, d + 2])
        s["perPatch"] = rng.choice([1, 2, 3, 5, 7, 20])
        s["inBorder"] = rng.choice([0, 1, 1, 2, 3])
        pix = d*s["perPatch"]
    total = across*pix*rng.uniform(0.75, 1.0)
    s["pixelScale"] = 2*half*3600.0/total
    if rng.random() < 0.3:
        s["pixelScale"] = float("%.3g" % s["pixelScale"])
    return s


def big(rng, s, what=("tracts", "patches", "cells", "pixels"), most=200):
    """The same kind of map with a great many of something."""
    s = dict(s)
    what = [w for w in what if not (w == "cells" and s["builder"] == "legacy" or
                                    w == "tracts" and s["cls"] not in ("discrete", "equat", "healpix"))]
    if not what:
        return s
    what = rng.choice(what)
    width = s["pixelScale"]*(min(s["dims"]) if s["builder"] == "legacy" else s["cell"][0]*s["perPatch"])
    if what == "tracts" and s["cls"] == "discrete":
        n = rng.choice([100, 101, 256, 257, rng.randrange(64, 700)])
        r = s["radiusList"][0]
        s["raList"] = [rng.uniform(-360, 400) for _ in range(n)]
        s["decList"] = [rng.uniform(-29, 29) if s["projection"] in ("CAR", "CEA") else rng.uniform(-89, 89) for _ in range(n)]
        s["radiusList"] = [r*rng.uniform(0.5, 1.0) for _ in range(n)]
    elif what == "tracts" and s["cls"] == "equat":
        s["numTracts"] = rng.choice([72, 90, 100, 127, 180, 257, 360, rng.randrange(60, 500)])
    elif what == "tracts":
        s["log2NSide"] = rng.choice([4, 5, 6])
    elif what == "patches":
        m = build(s)
        now = max(max(m[i].getNumPatches()) for i in range(min(len(m), 3)))
        want = rng.choice([w for w in (33, 50, 64, 100, 128, 200, 300) if w <= most])
        s["pixelScale"] = width*now/want/(10 if s["builder"] == "legacy" else s["cell"][0])
        if s["builder"] == "legacy":
            s["dims"], s["border"] = rng.choice([[10, 10], [10, 7], [8, 16], [11, 40]]), rng.choice([0, 1, 5, 10, 12])
        else:
            s["perPatch"], s["inBorder"] = 1, rng.choice([0, 1, 2])
    elif what == "cells":
        s["perPatch"], s["inBorder"] = rng.choice([(100, 1), (101, 2), (255, 1), (256, 0), (257, 3), (300, 1), (20, 120), (150, 60), (47, 1), (49, 0), (96, 1),
                                                 (98, 0), (99, 2), (187, 0), (195, 1)])
        s["cell"] = [rng.choice([1, 2, 5, 11])]*2
        s["cellBorder"] = rng.choice([0, 1, 2, 5, 20])
        s["pixelScale"] = width/(s["cell"][0]*s["perPatch"])
    else:
        m = build(s)
        now = max(max(m[i].getBBox().getDimensions()) for i in range(min(len(m), 3)))
        want = rng.choice([40000, 70000, 140000, 500000, 3000000])
        s["pixelScale"] *= now/want
        few = [d for d in (1000, 1024, 2048, 3400, 4000, 4096, 4096, 4100, 8192, 65536) if want/d < min(most, 100)]
        if s["builder"] == "legacy":
            d = rng.choice(few)
            s["dims"], s["border"] = [d, rng.choice([d, d, rng.choice(few)])], rng.choice([0, 100, 128, 333])
        else:
            s["perPatch"], s["inBorder"] = rng.choice([16, 20, 22, 32]), rng.choice([0, 1, 2])
            s["cell"], s["cellBorder"] = [max(rng.choice([128, 150, 256]), 1 + int(want/min(most, 100)/s["perPatch"]))]*2, rng.choice([0, 50, 64])
    return s


def specs(rng, n, **kw):
    return [spec_random(rng, **kw) for _ in range(n)]


def label(spec):
    """The discrete shape of a spec, for counting distinct situations."""
    return (spec["cls"], spec.get("version"), spec.get("numRings"), spec["projection"],
            spec["rotation"] % 90 == 0, spec["rotation"] != 0, spec["builder"], spec["tractOverlap"] == 0,
            spec.get("numTracts"), spec.get("log2NSide"), spec.get("nest"), spec.get("withTractsOnPoles"),
            len(spec.get("raList", ())))


# ------------------------------------------------------------------ positions
def sky(rng):
    """A position (deg): uniform, or one of the awkward ones."""
    k = rng.random()
    if k < 0.6:
        return rng.uniform(0, 360), math.degrees(math.asin(rng.uniform(-1, 1)))
    if k < 0.7:
        return rng.uniform(0, 360), rng.choice([-1, 1])*(90 - 10**rng.uniform(-6, 1))
    if k < 0.8:
        return rng.choice([0.0, 1e-9, 359.999999, 360 - 1e-9, 180.0]), rng.uniform(-90, 90)
    if k < 0.85:
        return rng.uniform(0, 360), rng.choice([-90.0, 90.0, 0.0])
    return rng.uniform(-360, 720), rng.uniform(-89, 89)


def sp(ra, dec):
    import lsst.geom as geom
    return geom.SpherePoint(float(ra), float(dec), geom.degrees)


def spvec(v):
    ra, dec = ref.lonlat(np.asarray(v))
    return sp(float(ra), float(dec))


def pvec(p):
    """Unit vector of a SpherePoint."""
    v = p.getVector()
    return np.array([v[0], v[1], v[2]])


def box(b):
    return (b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY())


def nrng(rng):
    return np.random.default_rng(rng.getrandbits(63))


def singular(spec, dec):
    """At a pole, cylindrical projections give the position no definite pixel."""
    return spec["projection"] not in ref.ZENITHAL and abs(dec) > 90 - 1e-5
