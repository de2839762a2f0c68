"""The layouts of dodecahedron, equatorial, discrete and HEALPix maps are the solids, bands and lists they are named for."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Maps of the four kinds over random configurations.  Dodecahedra are judged by the geometry of the solid (12 faces "
        "63.4 deg from 5 others, 20 vertices shared by 3 faces each, orientation, order of faces); equatorial bands, listed "
        "positions and HEALPix by the configuration and hpgeom.  Non-trivial: a distinct (kind, projection, orientation or "
        "count, tract) judged.")
ASSUMPTIONS = ["HEALPix maps use latitude = theta - 90 deg, as documented by the original code's conversions"]
ROUNDS = 4
REQUIRED_EVENTS = ("fine", "dodecahedron", "equatorial band", "discrete list", "healpix grid", "inner region")

RADIAL = {"TAN": math.tan, "STG": lambda r: 2*math.tan(r/2), "ARC": lambda r: r, "ZEA": lambda r: 2*math.sin(r/2)}
FACE = math.degrees(math.atan(2.0))            # 63.43 deg between neighbouring faces
VERT = 37.37736814064969                       # face centre to vertex
EDGE = 41.81031489577862                       # vertex to vertex


def cases(tier):
    n = 30 if tier == "quick" else 300
    return [(k, {"k": j}) for j in range(n) for k in ("dodeca", "equat", "discrete", "healpix")]


def run_case(ctx, name, params, rng):
    s = gen.spec_random(rng, kinds=(name,))
    if rng.random() < 0.15:
        s = gen.big(rng, s, rng.choice([("tracts",), ("tracts", "patches", "cells", "pixels")]))
        ctx.ev("big")
    if name == "discrete" and params["k"] % 4 == 1:      # a pixel or so of patch, so that any change of size shows
        ctx.ev("fine")
        f = 10.0**rng.uniform(-0.5, 1.8)/3600/max(s["radiusList"])
        s["radiusList"] = [r*f for r in s["radiusList"]]
        s["tractOverlap"] = rng.choice([0.0, 0.1/3600, rng.uniform(0, 2)/3600])
        s["pixelScale"] = rng.choice([0.05, 0.2, 0.26, rng.uniform(0.03, 0.5)])
        for k in ("cell", "cellBorder", "perPatch", "inBorder"):
            s.pop(k, None)
        s.update(builder="legacy", dims=[rng.choice([1, 2, 3]), rng.choice([1, 2, 3])], border=rng.choice([0, 1]))
    if name == "dodeca":
        s["withTractsOnPoles"] = bool(params["k"] % 2)
    if name == "healpix" and params["k"] % 5 == 4:
        s["log2NSide"] = 4 + params["k"]//5 % 3
        s["pixelScale"] /= 2**s["log2NSide"]/8
    m = obs.build(ctx, s)
    if len(m) <= 800:
        ids = [obs.num(t.getId()) for t in m]
        ctx.eq(ids, list(range(len(m))), "ids", "tract ids in order", spec=s)
    globals()[name](ctx, s, m, rng)
    ctx.sample(map=gen.label(s), tracts=len(m))


def region_vertices(ctx, s, t):
    """The inner region is the hull of the vertices."""
    ctx.ev("inner region")
    r = t.getInnerSkyRegion()
    hull = np.array([[v[0], v[1], v[2]] for v in r.getVertices()])
    want = np.array([gen.pvec(v) for v in t.getVertexList()])
    return hull, want


def same_points(a, b, tol=1e-8):
    return all(ref.sep(b, p).min() < tol for p in a) and all(ref.sep(a, p).min() < tol for p in b)


def dodeca(ctx, s, m, rng):
    ctx.ev("dodecahedron")
    poles = s["withTractsOnPoles"]
    ctx.eq(len(m), 12, "dodeca-count", "tracts", spec=s)
    c = np.array([gen.pvec(t.getCtrCoord()) for t in m])
    ang = np.array([ref.sep(c, v) for v in c])
    for i in range(12):
        a = np.sort(np.delete(ang[i], i))
        ctx.ok(np.abs(a - np.array([FACE]*5 + [180 - FACE]*5 + [180.0])).max() < 1e-5, "dodeca-faces",
               "angles from face %d: %r" % (i, a), spec=s)
    verts = [np.array([gen.pvec(v) for v in t.getVertexList()]) for t in m]
    every = np.concatenate(verts)
    distinct = []
    for v in every:
        if not any(ref.sep(v, w) < 1e-4 for w in distinct):
            distinct.append(v)
    ctx.eq(len(distinct), 20, "dodeca-vertices", "distinct vertices", spec=s)
    for v in distinct:
        ctx.eq(sum(int((ref.sep(q, v) < 1e-4).sum()) for q in verts), 3, "dodeca-shared", "faces sharing a vertex", spec=s)
        ctx.eq(int((np.abs(ref.sep(c, v) - VERT) < 1e-4).sum()), 3, "dodeca-vertex-faces", "faces nearest a vertex", spec=s)
    for i, q in enumerate(verts):
        if not ctx.ok(len(q) == 5, "dodeca-five", "face %d has %d vertices" % (i, len(q)), spec=s):
            continue
        # in order around the face
        step = ref.sep(q, np.roll(q, -1, 0))
        ctx.ok(np.abs(step - EDGE).max() < 1e-4, "dodeca-cycle", "face %d: vertices not in order (steps %r)" % (i, step),
               spec=s)
        hull, want = region_vertices(ctx, s, m[i])
        ctx.ok(same_points(hull, want), "region", "face %d: inner region is not the face" % i, spec=s)
    # orientation
    north = np.array([0, 0, 1.0])
    if poles:
        ctx.ok(ref.sep(c[0], north) < 1e-4 and ref.sep(c[11], -north) < 1e-4, "dodeca-poles",
               "faces 0 and 11 are not on the poles: %r %r" % (c[0], c[11]), spec=s)
    else:
        ctx.ok(min(ref.sep(np.array(distinct), north)) < 1e-4 and min(ref.sep(np.array(distinct), -north)) < 1e-4,
               "dodeca-poles", "no vertex on each pole", spec=s)
    # faces are numbered from north to south and eastwards
    lat = np.degrees(np.arcsin(c[:, 2]))
    ra = ref.lonlat(c)[0]
    for i in range(11):
        if lat[i] - lat[i + 1] < 1:
            ctx.ok(abs(lat[i] - lat[i + 1]) < 1e-6 and (ra[i] + 1e-3) % 360 < (ra[i + 1] + 1e-3) % 360, "dodeca-order",
                   "faces %d and %d are out of order: Dec %r %r RA %r %r" % (i, i + 1, lat[i], lat[i + 1], ra[i], ra[i + 1]),
                   spec=s)
        else:
            ctx.ok(True, "dodeca-order")
    want = [1, 5, 5, 1] if poles else [3, 3, 3, 3]
    got, k = [], 0
    for i in range(12):
        if i and lat[i - 1] - lat[i] > 1:
            got.append(i - k)
            k = i
    got.append(12 - k)
    ctx.eq(got, want, "dodeca-tiers", "faces at each declination", spec=s)
    # the northern faces start at RA 0 and are evenly spaced
    row = [1, 2, 3, 4, 5] if poles else [0, 1, 2]
    off = [abs((float(ra[i]) - 360.0/len(row)*k + 180) % 360 - 180) for k, i in enumerate(row)]
    ctx.ok(max(off) < 1e-3, "dodeca-ra", "northern faces at RA %r" % (ra[row],), spec=s)
    f = obs.attempt(m.getWithTractsOnPoles)
    ctx.ok(f == ("ok", poles), "dodeca-flag", "getWithTractsOnPoles() is %r" % (f,), spec=s)
    for _ in range(10):
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        v /= np.linalg.norm(v)
        d = c @ v
        if np.sort(d)[-1] - np.sort(d)[-2] > 1e-9:
            t = m.findTract(gen.spvec(v))
            ctx.eq(obs.num(t.getId()), int(np.argmax(d)), "dodeca-find", "nearest face", spec=s)
            # and the position is in that face's inner region
            import lsst.sphgeom as sphgeom
            if np.sort(d)[-1] - np.sort(d)[-2] > 1e-6:
                ctx.ok(t.getInnerSkyRegion().contains(sphgeom.UnitVector3d(*[float(q) for q in v])), "dodeca-inside",
                       "position is not in the face found", spec=s)
    ctx.seen("dodeca", poles, s["projection"], s["builder"])


def equat(ctx, s, m, rng):
    ctx.ev("equatorial band")
    n = s["numTracts"]
    lo, hi = s["decRange"]
    R = ref.RefMap(s)
    ctx.eq(len(m), n, "equat-count", "tracts", spec=s)
    for i, t in enumerate(m):
        wit = dict(spec=s, tract=i)
        ctx.ok(ref.sep(gen.pvec(t.getCtrCoord()), ref.vec(*R.centers[i])) < 1e-9, "equat-center", "centre %r, want %r" % (
            obs.coord(t.getCtrCoord()), R.centers[i]), **wit)
        o = t.getWcs().getSkyOrigin()
        ctx.ok(ref.sep(gen.pvec(o), ref.vec((i + 0.5)*360.0/n, 0.0)) < 1e-9, "equat-crval",
               "reference position %r is not on the equator under the centre" % (obs.coord(o),), **wit)
        v = np.array([gen.pvec(q) for q in t.getVertexList()])
        want = np.array(R.vertices[i])
        ctx.ok(len(v) == 4 and np.all(ref.sep(v, want) < 1e-8), "equat-vertices", "corners %r, want %r" % (v, want), **wit)
        hull, w = region_vertices(ctx, s, t)
        ctx.ok(same_points(hull, w), "region", "inner region is not the corners' hull", **wit)
        if i < n - 1:
            nx = m[i + 1].getVertexList()
            ctx.ok(ref.sep(gen.pvec(nx[0]), v[1]) < 1e-8 and ref.sep(gen.pvec(nx[3]), v[2]) < 1e-8, "equat-meet",
                   "tracts %d and %d do not meet" % (i, i + 1), **wit)
    f = m[0].getVertexList()
    z = m[n - 1].getVertexList()
    ctx.ok(ref.sep(gen.pvec(f[0]), gen.pvec(z[1])) < 1e-8, "equat-close", "last tract does not meet the first", spec=s)
    ctx.seen("equat", n, s["projection"], lo > 0, lo == -hi, s["builder"])


def discrete(ctx, s, m, rng):
    ctx.ev("discrete list")
    n = len(s["raList"])
    ctx.eq(len(m), n, "discrete-count", "tracts", spec=s)
    for i, t in enumerate(m):
        wit = dict(spec=s, tract=i)
        ctr = ref.vec(s["raList"][i], s["decList"][i])
        ctx.ok(ref.sep(gen.pvec(t.getCtrCoord()), ctr) < 1e-9, "discrete-center", "centre %r" % (
            obs.coord(t.getCtrCoord()),), **wit)
        ctx.ok(ref.sep(gen.pvec(t.getWcs().getSkyOrigin()), ctr) < 1e-9, "discrete-crval", "reference position %r" % (
            obs.coord(t.getWcs().getSkyOrigin()),), **wit)
        # radius + overlap each way along the axes of the grid, in the smallest number of patches
        b = t.getBBox()
        if s["rotation"] % 90 == 0 and s["projection"] in RADIAL:
            r = math.radians(s["radiusList"][i] + s["tractOverlap"])
            need = 2*RADIAL[s["projection"]](r)/math.radians(s["pixelScale"]/3600)
            slack = 2 + 1e-6*need
            for size, patch in zip((b.getWidth(), b.getHeight()), ref.patch_inner(s)):
                ctx.ok(need - slack <= size <= need + patch + slack, "discrete-size",
                       "tract is %d pixels wide or high, needs %r in patches of %d" % (size, need, patch), **wit)
        hull, want = region_vertices(ctx, s, t)
        ctx.eq(len(want), 4, "discrete-corners", "vertices", **wit)
    ctx.seen("discrete", n, s["projection"], len(set(s["radiusList"])) > 1, s["builder"])


def healpix(ctx, s, m, rng):
    ctx.ev("healpix grid")
    R = ref.RefMap(s)
    ctx.eq(len(m), 12*R.nside**2, "healpix-count", "tracts", spec=s)
    for i in obs.tract_ids(len(m), rng, 20 if ctx.thorough else 12):
        t = m[i]
        wit = dict(spec=s, tract=i)
        ctx.ok(ref.sep(gen.pvec(t.getCtrCoord()), ref.vec(*R.centers[i])) < 1e-8, "healpix-center", "centre %r, want %r" % (
            obs.coord(t.getCtrCoord()), R.centers[i]), **wit)
        ctx.eq(obs.num(m.findTract(t.getCtrCoord()).getId()), i, "healpix-find", "tract owning its own centre", **wit)
        v = np.array([gen.pvec(q) for q in t.getVertexList()])
        ctx.ok(len(v) == 4 and same_points(v, np.array(R.vertices[i])), "healpix-vertices", "corners %r" % (v,), **wit)
        hull, want = region_vertices(ctx, s, t)
        ctx.ok(same_points(hull, want), "region", "inner region is not the corners' hull", **wit)
        # a point between centre and a corner belongs to the pixel
        k = rng.randrange(4)
        p = ref.vec(*R.centers[i])*0.7 + np.array(R.vertices[i][k])*0.3
        p /= np.linalg.norm(p)
        ctx.eq(obs.num(m.findTract(gen.spvec(p)).getId()), i, "healpix-inside", "tract owning an inner position", **wit)
    ctx.seen("healpix", R.nside, s["nest"], s["projection"], s["builder"])
