"""The geometry helpers behind the maps: the dodecahedron, vectors and coordinates, the WCS factory, polygons of boxes."""
import math
import warnings

import numpy as np

from .. import gen, obs, ref

RULE = ("Dodecahedra in both orientations used in random order with every returned list and array overwritten in between; "
        "vectors of all directions and lengths, at and beside the poles; WCS factories with random scale, rotation, "
        "projection and handedness, each used for several positions; boxes of both types.  Non-trivial: a distinct (helper, "
        "orientation or projection or form of argument, region of the sky or of angles).")
ASSUMPTIONS = ["directions agree when within 1e-9 deg (1e-6 deg for WCS pixels of up to an arcminute)",
               "vectors within 1e-7 rad of the boundary between two faces may belong to either"]
ROUNDS = 4
REQUIRED_EVENTS = ("dodecahedron", "face of a vector", "overwritten", "coordinate of a vector", "pole", "rotation matrix",
                   "wcs", "flipped wcs", "polygon of a box", "refused", "healpix angles")
FACE = math.degrees(math.atan(2.0))
VERT = 37.37736814064969
EDGE = 41.81031489577862


def cases(tier):
    n = 12 if tier == "quick" else 150
    return [(k, {"k": j}) for j in range(n) for k in ("dodecahedron", "vectors", "rotations", "factory", "boxes", "angles")]


def run_case(ctx, name, params, rng):
    gen._mapclasses()
    globals()[name](ctx, rng, params["k"])


def random_vec(rng):
    v = np.array([rng.gauss(0, 1) for _ in range(3)])
    return v/np.linalg.norm(v)


def forms(v, rng):
    from lsst.sphgeom import UnitVector3d, Vector3d
    return rng.choice([lambda: np.array(v), lambda: list(v), lambda: tuple(v), lambda: Vector3d(*v),
                       lambda: np.stack([v, v], 1)[:, 0]] + ([lambda: UnitVector3d(*v)] if np.linalg.norm(v) > 1e-9 else []))()


def dodecahedron(ctx, rng, k):
    from lsst.skymap.detail import Dodecahedron
    ds = []
    for poles in rng.choice([(True, False), (False, True), (True, True, False)]):
        arg = rng.choice([poles, int(poles), np.bool_(poles)])
        d = rng.choice([lambda: Dodecahedron(arg), lambda: Dodecahedron(withFacesOnPoles=arg)])() \
            if poles or rng.random() < 0.5 else Dodecahedron()
        ds.append((poles, d))
    faces, verts = {}, {}
    for poles, d in ds:
        wit = dict(withFacesOnPoles=poles)
        ctx.ok(d.getWithFacesOnPoles() is poles, "orientation", "getWithFacesOnPoles() is %r" % d.getWithFacesOnPoles(), **wit)
        c = [np.array(v, float) for v in d.getFaceCtrList()]
        ctx.ev("dodecahedron")
        if not ctx.eq(len(c), 12, "faces", "number of faces", **wit):
            continue
        q = [[np.array(v, float) for v in d.getVertices(i)] for i in range(12)]
        if poles in faces:
            ctx.ok(max(abs(np.array(c) - faces[poles]).max(), abs(np.array(q) - verts[poles]).max()) < 1e-12, "same",
                   "two dodecahedra of one orientation differ", **wit)
        faces[poles], verts[poles] = np.array(c), np.array(q)
        solid(ctx, np.array(c), np.array(q), poles, wit)
    # any order of questions, with the answers overwritten
    for _ in range(40):
        poles, d = rng.choice(ds)
        i = rng.randrange(12)
        wit = dict(withFacesOnPoles=poles, face=i)
        what = rng.choice(["ctr", "list", "vertices", "ind", "ind"])
        if what == "ctr":
            v = d.getFaceCtr(i)
            ctx.ok(abs(np.array(v, float) - faces[poles][i]).max() < 1e-12, "face", "centre of face %d is %r" % (i, v), **wit)
            spoil(ctx, v)
        elif what == "list":
            v = d.getFaceCtrList()
            ctx.ok(len(v) == 12 and abs(np.array(v, float) - faces[poles]).max() < 1e-12, "face", "faces are %r" % (v,), **wit)
            if isinstance(v, list):
                spoil(ctx, v[i])
                del v[rng.randrange(len(v))]
        elif what == "vertices":
            v = d.getVertices(i)
            ctx.ok(len(v) == 5 and abs(np.array(v, float) - verts[poles][i]).max() < 1e-12, "vertices",
                   "vertices of face %d are %r" % (i, v), **wit)
            if isinstance(v, list):
                for x in v:
                    spoil(ctx, x)
                del v[0]
        else:
            u = toward(rng, faces[poles], verts[poles])
            dots = faces[poles] @ u
            near = np.nonzero(dots > dots.max() - 1e-7)[0]
            w = u*10.0**rng.choice([0, 0, 1, -3, 40, -40, 100, -100])
            x = forms(w if rng.random() < 0.7 else u, rng)
            keep = np.array([x[0], x[1], x[2]])
            j = d.getFaceInd(x)
            ctx.ev("face of a vector")
            ctx.ok(j in near, "face-of", "face of %r is %r, want %r" % (x, j, list(near)), **wit)
            ctx.ok((np.array([x[0], x[1], x[2]]) == keep).all(), "argument", "the vector passed in was changed", **wit)
            ctx.seen("face", poles, int(near[0]), type(x).__name__, len(near))
    for poles, d in ds:
        for f in (d.getFaceCtr, d.getVertices):
            e = obs.attempt(f, rng.choice([12, 13, 100]))
            ctx.ev("refused")
            ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "refused", "face past the end: %r" % (e,), poles=poles)
    ctx.sample(helper="dodecahedron", orientations=[p for p, _ in ds])


def spoil(ctx, v):
    """The caller does what it likes with what it was given."""
    if isinstance(v, np.ndarray) and v.flags.writeable:
        ctx.ev("overwritten")
        v[:] = (9.0, -9.0, 3.0)


def toward(rng, c, q):
    """A direction: anywhere, near a face centre, a vertex, or the boundary between two faces."""
    kind = rng.randrange(4)
    if kind == 0:
        return random_vec(rng)
    i = rng.randrange(12)
    if kind == 1:
        v = c[i] + random_vec(rng)*10.0**rng.uniform(-9, -1)
    elif kind == 2:
        v = q[i][rng.randrange(5)] + random_vec(rng)*10.0**rng.uniform(-6, -2)
    else:
        a = rng.randrange(5)
        t = rng.random()
        v = t*q[i][a] + (1 - t)*q[i][(a + 1) % 5] + random_vec(rng)*10.0**rng.uniform(-6, -2)
    return v/np.linalg.norm(v)


def solid(ctx, c, q, poles, wit):
    ctx.ok(abs(np.linalg.norm(c, axis=1) - 1).max() < 1e-12 and abs(np.linalg.norm(q, axis=2) - 1).max() < 1e-12, "unit",
           "not unit vectors", **wit)
    for i in range(12):
        a = np.sort(np.delete(ref.sep(c, c[i]), i))
        ctx.ok(abs(a - np.array([FACE]*5 + [180 - FACE]*5 + [180.0])).max() < 1e-5, "faces",
               "angles from face %d: %r" % (i, a), **wit)
        if not ctx.ok(q[i].shape == (5, 3), "vertices", "face %d has vertices %r" % (i, q[i]), **wit):
            return
        ctx.ok(abs(ref.sep(q[i], c[i]) - VERT).max() < 1e-6, "vertices", "vertices of face %d are not round it" % i, **wit)
        ctx.ok(abs(ref.sep(q[i], np.roll(q[i], -1, 0)) - EDGE).max() < 1e-6, "cycle",
               "vertices of face %d are not in order" % i, **wit)
    every = q.reshape(-1, 3)
    ctx.ok(all(int((ref.sep(every, v) < 1e-6).sum()) == 3 for v in every), "shared", "a vertex not shared by three faces", **wit)
    up = c if poles else every
    ctx.ok(ref.sep(up, np.array([0, 0, 1.0])).min() < 1e-6 and ref.sep(up, np.array([0, 0, -1.0])).min() < 1e-6, "poles",
           "the poles are not %s" % ("faces" if poles else "vertices"), **wit)
    lat = np.round(c[:, 2], 6)
    lon = np.round((ref.lonlat(c)[0] + 1e-3) % 360, 2)
    ctx.ok(all(lat[i] > lat[i + 1] or lat[i] == lat[i + 1] and lon[i] < lon[i + 1] for i in range(11)), "order",
           "faces are not numbered southwards and eastwards", **wit)


def vectors(ctx, rng, k):
    import lsst.geom as geom
    from lsst.skymap.detail import coordFromVec
    for _ in range(60):
        kind = rng.randrange(4)
        ra0 = rng.uniform(-400, 800)*geom.degrees
        if kind == 0:        # a pole
            z = rng.choice([1, -1])*10.0**rng.uniform(-5, 5)
            v = [rng.choice([0.0, -0.0]), rng.choice([0.0, -0.0, 1e-309]), z]
            x = forms(np.array(v), rng) if v[1] == 0 else v
            r = coordFromVec(x, rng.choice([ra0, ra0])) if rng.random() < 0.5 else coordFromVec(x, defRA=ra0)
            ctx.ev("pole")
            ctx.ok(abs(r.getLatitude().asDegrees() - (90.0 if z > 0 else -90.0)) < 1e-12, "pole-dec", "%r became %r" % (v, r))
            d = (r.getLongitude().asDegrees() - ra0.asDegrees()) % 360
            ctx.ok(min(d, 360 - d) < 1e-9, "pole-ra", "%r with default RA %r became %r" % (v, ra0, r))
            for a in ((x,), (x, None)):
                e = obs.attempt(coordFromVec, *a)
                ctx.ev("refused")
                ctx.ok(e[0] == "exc" and issubclass(e[1], RuntimeError), "pole-refused", "no default RA: %r" % (e,))
            ctx.seen("pole", z > 0, type(x).__name__)
            continue
        v = random_vec(rng)
        if kind == 1:        # beside a pole
            e, a = 10.0**rng.uniform(-30, -1), rng.uniform(0, 2*math.pi)
            v = np.array([e*math.cos(a), e*math.sin(a), rng.choice([1.0, -1.0])])
        elif kind == 2:      # on an axis or a meridian
            v = np.array([rng.choice([0.0, 1.0, -1.0]), rng.choice([1.0, -1.0, 0.5]), rng.choice([0.0, 1.0, -1.0])])
        w = v*10.0**rng.choice([0, 0, 3, -3])
        x = forms(w, rng)
        keep = [x[0], x[1], x[2]]
        r = rng.choice([lambda: coordFromVec(x), lambda: coordFromVec(x, ra0), lambda: coordFromVec(x, defRA=ra0)])()
        ctx.ev("coordinate of a vector")
        got = np.array(gen.pvec(r))
        ctx.ok(ref.sep(got[None, :], v/np.linalg.norm(v))[0] < 1e-9, "coord", "%r became %r" % (x, r))
        if kind == 1:
            d = (r.getLongitude().asDegrees() - math.degrees(a)) % 360
            ctx.ok(min(d, 360 - d) < 1e-6, "coord-ra", "RA of %r is %r" % (x, r))
        ctx.ok([x[0], x[1], x[2]] == keep, "argument", "the vector passed in was changed")
        ctx.seen("coord", kind, int(v[2]*5), type(x).__name__, [bool(y > 0) for y in v])


def rotations(ctx, rng, k):
    from lsst.skymap.detail.dodecahedron import computeRotationMatrix
    for _ in range(30):
        a, axis = rng.choice([rng.uniform(-10, 10), 0.0, math.pi/2, -math.pi, 1e-9]), rng.randrange(3)
        m = np.array(computeRotationMatrix(a, axis), float)
        ctx.ev("rotation matrix")
        want = np.zeros((3, 3))
        e = np.identity(3)
        i, j = (axis + 1) % 3, (axis + 2) % 3
        want[:, axis] = e[axis]
        want[:, i] = math.cos(a)*e[i] + math.sin(a)*e[j]
        want[:, j] = -math.sin(a)*e[i] + math.cos(a)*e[j]
        ctx.ok(m.shape == (3, 3) and abs(m - want).max() < 1e-12, "rotation", "by %r about %d: %r" % (a, axis, m))
        ctx.seen("rotation", axis, a > 0, int(a))


def factory(ctx, rng, k):
    import lsst.geom as geom
    from lsst.skymap.detail import WcsFactory
    for bad in ("", "T", "TANS", "TAN ", "TA"):
        e = obs.attempt(WcsFactory, 1*geom.arcseconds, bad)
        ctx.ev("refused")
        ctx.ok(e[0] == "exc" and issubclass(e[1], RuntimeError), "refused", "projection %r: %r" % (bad, e))
    made = []
    for _ in range(3):
        scale = 10.0**rng.choice([rng.uniform(-2, 1.5), rng.uniform(-2, 1.5), rng.uniform(1.5, 4)])   # arcseconds, to degrees
        rot = rng.choice([0.0, 45.0, rng.uniform(-360, 360)])
        proj = rng.choice(["TAN", "STG", "ARC", "SIN", "ZEA"])
        flip = rng.random() < 0.5
        kw = {}
        if rot or rng.random() < 0.5:
            kw["rotation"] = rot*geom.degrees
        if flip or rng.random() < 0.5:
            kw["flipX"] = flip
        f = rng.choice([lambda: WcsFactory(scale*geom.arcseconds, proj, **kw),
                        lambda: WcsFactory(pixelScale=scale*geom.arcseconds, projection=proj, **kw)])()
        made.append((f, scale, rot, proj, flip))
    for _ in range(8):
        f, scale, rot, proj, flip = rng.choice(made)
        ra, dec = rng.uniform(0, 360), rng.choice([rng.uniform(-85, 85), 0.0, 60.0])
        x, y = rng.choice([(0.0, 0.0), (rng.uniform(-9000, 9000), rng.uniform(-9000, 9000))])
        wit = dict(scale=scale, rotation=rot, projection=proj, flipX=flip, crval=[ra, dec], crpix=[x, y])
        w = rng.choice([lambda: f.makeWcs(geom.Point2D(x, y), geom.SpherePoint(ra, dec, geom.degrees)),
                        lambda: f.makeWcs(crPixPos=geom.Point2D(x, y), crValCoord=geom.SpherePoint(ra, dec, geom.degrees))])()
        ctx.ev("flipped wcs" if flip else "wcs")
        n = rng.choice([1.0, 100.0]) if scale < 60 else 1.0
        px = [(0, 0), (n, 0), (0, n), (n, -2*n)]
        sky = [w.pixelToSky(geom.Point2D(x + a, y + b)) for a, b in px]
        r = ref.RefWcs((ra, dec), scale, rot, proj)
        # a flipped axis is the axis of the unflipped frame, reversed
        want = r.p2v([-a if flip else a for a, b in px], [b for a, b in px])
        got = np.array([gen.pvec(s) for s in sky])
        # flipping reverses X before it is turned, so the turn goes the other way
        if flip:
            r2 = math.radians(rot)
            s = scale/3600.0
            cd = np.array([[s*math.cos(r2), s*math.sin(r2)], [-s*math.sin(r2), s*math.cos(r2)]])
            plane = np.array(px, float) @ cd.T
            unit = ref.RefWcs((ra, dec), 3600.0, 0.0, proj)      # one degree a pixel, X to the west
            want = unit.p2v(-plane[:, 0], plane[:, 1])
        err = max(ref.sep(got[i][None, :], want[i])[0] for i in range(len(px)))
        ctx.ok(err < 1e-6*max(1e-3, scale/60), "wcs", "pixels are %r deg from where they should be" % err, **wit)
        back = w.skyToPixel(sky[3])
        ctx.ok(abs(back[0] - x - n) < 1e-5 and abs(back[1] - y + 2*n) < 1e-5, "wcs", "a pixel came back as %r" % (back,), **wit)
        ctx.seen("wcs", proj, flip, rot == 0, int(dec/30), (x, y) == (0, 0))
    ctx.sample(helper="factory", made=[list(m[1:]) for m in made])


def boxes(ctx, rng, k):
    import lsst.geom as geom
    from lsst.skymap import makeSkyPolygonFromBBox
    from lsst.skymap.detail import WcsFactory
    scale, rot = 10.0**rng.uniform(-1, 1), rng.uniform(0, 360)
    proj, flip = rng.choice(["TAN", "STG", "ARC"]), rng.random() < 0.5
    c = geom.SpherePoint(rng.choice([0.0, 359.99, rng.uniform(0, 360)]), rng.choice([90, -89.9, rng.uniform(-90, 90)]), geom.degrees)
    w = WcsFactory(scale*geom.arcseconds, proj, rot*geom.degrees, flip).makeWcs(geom.Point2D(0, 0), c)
    for _ in range(8):
        x, y, a, b = rng.randint(-3000, 3000), rng.randint(-3000, 3000), rng.randint(1, 4000), rng.randint(1, 4000)
        box = geom.Box2I(geom.Point2I(x, y), geom.Extent2I(a, b))
        lim = [x - 0.5, y - 0.5, x + a - 0.5, y + b - 0.5]
        if rng.random() < 0.4:
            box = geom.Box2D(geom.Point2D(x + 0.25, y - 0.125), geom.Extent2D(a + 0.5, b + 0.75))
            lim = [x + 0.25, y - 0.125, x + a + 0.75, y + b + 0.625]
        keep = repr(box)
        p = rng.choice([lambda: makeSkyPolygonFromBBox(box, w), lambda: makeSkyPolygonFromBBox(bbox=box, wcs=w)])()
        ctx.ev("polygon of a box")
        want = np.array([gen.pvec(w.pixelToSky(geom.Point2D(u, v))) for u in (lim[0], lim[2]) for v in (lim[1], lim[3])])
        got = np.array([[v[0], v[1], v[2]] for v in p.getVertices()])
        wit = dict(box=keep, scale=scale, projection=proj, flipX=flip)
        ctx.ok(len(got) == 4 and all(ref.sep(want, v).min() < 1e-9 for v in got) and all(ref.sep(got, v).min() < 1e-9 for v in want),
               "polygon", "vertices %r, want %r" % (got, want), **wit)
        mid = w.pixelToSky(geom.Point2D((lim[0] + lim[2])/2, (lim[1] + lim[3])/2)).getVector()
        out = w.pixelToSky(geom.Point2D(lim[2] + 1, (lim[1] + lim[3])/2)).getVector()
        if proj == "TAN":       # straight lines are great circles
            ctx.ok(p.contains(mid), "polygon", "the middle of the box is not in it", **wit)
            ctx.ok(not p.contains(out), "polygon", "a pixel beside the box is in it", **wit)
        ctx.ok(repr(box) == keep, "argument", "the box passed in was changed", **wit)
        ctx.seen("polygon", proj, flip, type(box).__name__, a > b)


def angles(ctx, rng, k):
    from lsst.skymap.healpixSkyMap import angToCoord, coordToAng
    for _ in range(20):
        t, p = rng.choice([0.0, math.pi, rng.uniform(0, math.pi)]), rng.choice([0.0, rng.uniform(0, 2*math.pi)])
        form = rng.choice([tuple, list, np.array])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = angToCoord(form((t, p)))
            b = coordToAng(c)
        ctx.ev("healpix angles")
        ctx.ok(abs(c.getLatitude().asRadians() - (t - math.pi/2)) < 1e-12 and abs(c.getLongitude().asRadians() - p) < 1e-12,
               "angles", "%r became %r" % ((t, p), c))
        ctx.ok(abs(b[0] - t) < 1e-12 and abs(b[1] - p) < 1e-12, "angles", "%r came back as %r" % ((t, p), b))
        ctx.seen("angles", form.__name__, int(t*3), int(p*2))
