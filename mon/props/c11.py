"""A tract's pixel grid is the one its configuration denotes, and reaches as far as it must."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Random and production maps of every kind, projections, rotations, overlaps including none, both patch layouts; "
        "several tracts each.  Patch counts, size, reference pixel, projection, scale and orientation are compared with "
        "wcslib and integer arithmetic from the configuration alone.  Non-trivial: a distinct (map kind, projection, "
        "rotation class, overlap class, builder, patch counts).")
ASSUMPTIONS = ["an extent within 1e-5 pixel of a pixel boundary may round either way",
               "dodecahedron face directions are taken from the tracts themselves here and judged by C18"]
ROUNDS = 8
REQUIRED_EVENTS = ("tract geometry", "wcs sampled", "required position inside", "rebuilt")


def cases(tier):
    n = 300 if tier == "quick" else 2500
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    return out


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    ids = obs.tract_ids(len(m), rng, 5 if not ctx.thorough else 8)
    order = list(ids)
    rng.shuffle(order)
    kept = {i: m[i] for i in order}
    for i in ids:
        tract(ctx, spec, R, i, kept[i], rng)
    # the same configuration, built again and read in another order, gives the same tracts to the last bit
    m2 = obs.build(ctx, spec)
    rng.shuffle(order)
    for i in order:
        ctx.ev("rebuilt")
        a, b = obs.tract(kept[i]), obs.tract(m2[i])
        ctx.ok(repr(a) == repr(b), "reproducible", "tract %d differs when built again: %r / %r" % (i, a, b), spec=spec)
    ctx.sample(spec=spec, tracts=ids, numPatches=[obs.pair(kept[i].getNumPatches()) for i in ids])


def tract(ctx, spec, R, i, t, rng):
    wit = dict(spec=spec, tract=i)
    c = obs.coord(t.getCtrCoord())
    if spec["cls"] == "dodeca":
        ctr = (math.degrees(c[0]), math.degrees(c[1]))
        # the five vertices nearest this face
        crval = ctr
        verts = [gen.pvec(v) for v in t.getVertexList()]
        ctx.eq(len(verts), 5, "vertices", "vertices of a face", **wit)
        ang = ref.sep(np.array(verts), ref.vec(*ctr))
        ctx.ok(np.all(np.abs(ang - 37.37736814064969) < 1e-6), "vertices", "vertices %r deg from the centre" % (ang,),
               **wit)
        kw = dict(vertices=verts)
    else:
        ctr, crval = R.centers[i], R.crvals[i]
        ctx.ok(ref.sep(gen.pvec(t.getCtrCoord()), ref.vec(*ctr)) < 1e-9, "center", "tract centre %r, want %r" % (
            [math.degrees(q) for q in c], ctr), **wit)
        kw = dict(radius=R.radius[i]) if spec["cls"] in ("rings", "discrete") else dict(vertices=R.vertices[i])
        if "vertices" in kw:
            got = [gen.pvec(v) for v in t.getVertexList()]
            ctx.ok(len(got) == 4 and all(min(ref.sep(g, np.array(kw["vertices"]))) < 1e-8 for g in got)
                   and all(min(ref.sep(np.array(got), v)) < 1e-8 for v in kw["vertices"]), "vertices",
                   "inner region vertices %r" % (got,), **wit)
    ctx.ev("tract geometry")
    ctx.ok(abs(t.getTractOverlap().asDegrees() - spec["tractOverlap"]) < 1e-12, "overlap", "tract overlap %r" % (
        t.getTractOverlap().asDegrees(),), **wit)
    T = ref.RefTract(spec, ctr, crval, **kw)
    num, b = obs.pair(t.getNumPatches()), obs.rbox(t.getBBox())
    w = t.getWcs()
    org = tuple(w.getPixelOrigin())
    if np.isfinite(T.lo).all() and np.isfinite(T.hi).all():
        ctx.eq(b[:2], [0, 0], "origin", "tract bbox starts at", **wit)
        ctx.ok(T.accept(num, (b[2] + 1, b[3] + 1), org), "geometry",
               "%r patches, %r pixels, reference pixel %r; want (count, begin) x %r, y %r" % (
                   num, [b[2] + 1, b[3] + 1], org, T.options[0][:4], T.options[1][:4]), **wit)
    # projection, scale, rotation: the pixel grid against wcslib with the configured parameters
    rw = ref.RefWcs(crval, spec["pixelScale"], spec["rotation"], spec["projection"], crpix=org)
    o = w.getSkyOrigin()
    ctx.ok(ref.sep(gen.pvec(o), ref.vec(*crval)) < 1e-9, "crval", "reference position %r, want %r" % (
        obs.coord(o), crval), **wit)
    xs = np.array([rng.uniform(b[0], b[2]) for _ in range(6)] + [org[0], 0., b[2]])
    ys = np.array([rng.uniform(b[1], b[3]) for _ in range(6)] + [org[1], 0., b[3]])
    sky = rw.p2s(xs, ys)
    for k in range(len(xs)):
        if not np.isfinite(sky[k]).all() or gen.singular(spec, sky[k][1]):
            continue
        g = w.pixelToSky(float(xs[k]), float(ys[k]))
        ctx.ev("wcs sampled")
        d = float(ref.sep(gen.pvec(g), ref.vec(*sky[k])))*3600
        ctx.ok(d < 1e-4*spec["pixelScale"] + 1e-6, "wcs", "pixel (%r, %r) is %.3g arcsec from where %s puts it" % (
            xs[k], ys[k], d, spec["projection"]), **wit)
        ctx.ok(ref.sep(gen.pvec(t.wcs.pixelToSky(float(xs[k]), float(ys[k]))), gen.pvec(g)) == 0, "wcs-alias",
               "wcs property differs from getWcs()", **wit)
    # reach: what must be inside is inside
    need = T.need + np.array(org)
    for x, y in need:
        if np.isfinite(x) and np.isfinite(y):
            ctx.ev("required position inside")
            ctx.ok(-0.5 - 1e-4 <= x <= b[2] + 0.5 + 1e-4 and -0.5 - 1e-4 <= y <= b[3] + 0.5 + 1e-4, "reach",
                   "required pixel (%r, %r) is outside %r" % (x, y, b), **wit)
    ctx.seen(spec["cls"], spec["projection"], spec["rotation"] % 90 == 0, spec["tractOverlap"] == 0, spec["builder"],
             num[0], num[1])
