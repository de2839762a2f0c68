"""Recording what the code returned, as plain values."""
import numpy as np

from . import gen, ref


def rbox(b):
    return [b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY()]


def num(x):
    """Integers of any flavour become int; anything else is kept recognisable."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return ("not-int", repr(x))


def pair(p):
    p = tuple(p)
    return [num(v) for v in p]


def coord(c):
    return [c.getLongitude().asRadians(), c.getLatitude().asRadians()]


def wcs(w):
    return [list(w.getPixelOrigin()), coord(w.getSkyOrigin()), np.asarray(w.getCdMatrix()).tolist(),
            getattr(w, "_projection", None)]


def poly(p):
    return [[v[0], v[1], v[2]] for v in p.getVertices()]


def region(r):
    if hasattr(r, "getVertices"):
        return ["polygon", poly(r)]
    return ["box", [r.getLon().getA().asRadians(), r.getLon().getB().asRadians(),
                    r.getLat().getA().asRadians(), r.getLat().getB().asRadians()]]


def cell(c):
    return ["cell", pair(c.getIndex()), num(c.getSequentialIndex()), rbox(c.getInnerBBox()),
            rbox(c.getOuterBBox())]


def patch(p):
    return ["patch", pair(p.getIndex()), num(p.getSequentialIndex()), rbox(p.getInnerBBox()),
            rbox(p.getOuterBBox()), pair(p.getNumCells()), num(p.getCellBorder()),
            pair(p.getCellInnerDimensions())]


def same_nan(v):
    """Not-a-number made comparable."""
    return [x if x == x else "nan" for x in v]


def tract(t):
    return ["tract", num(t.getId()), rbox(t.getBBox()), coord(t.getCtrCoord()), pair(t.getNumPatches()),
            num(t.getPatchBorder()), pair(t.getPatchInnerDimensions()), t.getTractOverlap().asRadians(),
            [same_nan(coord(v)) for v in t.getVertexList()], wcs(t.getWcs())]


def attempt(f, *a, **k):
    """('ok', value) or ('exc', type name, is-a chain)."""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:   # noqa: B902
        from .core import _lacks_api
        if _lacks_api(e):
            raise
        return ("exc", type(e), e)


def tract_ids(n, rng, k):
    """A sample of tract ids that always has the ends."""
    ids = {0, n - 1, min(1, n - 1), max(0, n - 2)}
    while len(ids) < min(k, n):
        ids.add(rng.randrange(n))
    return sorted(ids)


def patch_ids(nx, ny, rng, k):
    """Patch indices: corners, edges and some others."""
    s = {(0, 0), (nx - 1, 0), (0, ny - 1), (nx - 1, ny - 1), (nx//2, 0), (0, ny//2)}
    while len(s) < min(k, nx*ny):
        s.add((rng.randrange(nx), rng.randrange(ny)))
    return sorted(s)


def pixel_of(t, ra, dec):
    """Pixel position by wcslib, from the tract's recorded WCS parameters."""
    return refwcs(t).s2p(ra, dec)


def refwcs(t, spec=None):
    """wcslib evaluation of the WCS this tract reports."""
    w = t.getWcs()
    o, c = w.getPixelOrigin(), w.getSkyOrigin()
    r = ref.RefWcs.__new__(ref.RefWcs)
    from astropy.wcs import WCS
    a = WCS(naxis=2)
    pr = spec["projection"] if spec else w._projection
    a.wcs.ctype = ["RA---" + pr, "DEC--" + pr]
    a.wcs.crval = [c.getLongitude().asDegrees(), c.getLatitude().asDegrees()]
    a.wcs.crpix = [o[0] + 1.0, o[1] + 1.0]
    a.wcs.cd = np.asarray(w.getCdMatrix())
    a.wcs.set()
    r.w, r.cd = a, a.wcs.cd
    r.crpix, r.crval, r.projection = tuple(o), tuple(a.wcs.crval), pr
    return r


def build(ctx, spec, **kw):
    m = gen.build(spec, **kw)
    ctx.ev("map built")
    ctx.seen("map", gen.label(spec))
    return m
