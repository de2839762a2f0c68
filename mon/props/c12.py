"""Sky polygons of tracts, patches and cells are the sky positions of their box corners."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Random and production maps of every kind; tract outer, patch inner/outer and cell inner/outer polygons against "
        "wcslib positions of the box corners (half a pixel beyond the edge pixels), plus positions just in and out of the "
        "polygon; explicit WCS argument; inner regions.  Non-trivial: a distinct (map kind, projection, polygon kind, "
        "position in grid).")
ASSUMPTIONS = ["boxes whose corners do not form a convex polygon on the sky may be refused",
               "vertices are compared to 1e-4 pixel + 1e-9 deg"]
ROUNDS = 3
REQUIRED_EVENTS = ("polygon", "cell polygon", "explicit wcs", "inner region", "point in polygon")


def cases(tier):
    n = 250 if tier == "quick" else 2000
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    return out


def corners(rw, b):
    x0, y0, x1, y1 = b[0] - .5, b[1] - .5, b[2] + .5, b[3] + .5
    return rw.p2v([x0, x1, x1, x0], [y0, y0, y1, y1])


def convex(vs):
    """Is this ring of 4 vectors usable as a convex spherical polygon, with room to spare?"""
    if not np.isfinite(vs).all():
        return False
    c = vs.sum(0)
    if np.linalg.norm(c) < 1e-3 or np.min(vs @ (c/np.linalg.norm(c))) < 0.02:
        return False
    for k in range(4):
        n = np.cross(vs[k], vs[(k + 1) % 4])
        s = [np.dot(n, vs[(k + 2) % 4]), np.dot(n, vs[(k + 3) % 4])]
        ln = np.linalg.norm(n)
        if ln == 0 or abs(s[0]) < 1e-3*ln*np.linalg.norm(vs[(k + 2) % 4] - vs[k]) or s[0]*s[1] <= 0 \
                or abs(s[1]) < 1e-3*ln*np.linalg.norm(vs[(k + 3) % 4] - vs[k]):
            return False
    return True


def judge(ctx, spec, f, box, rw, what, wit, rng, key="polygon"):
    want = corners(rw, box)
    r = obs.attempt(f)
    if not convex(want):
        ctx.ev("not convex")
        return
    if not ctx.ok(r[0] == "ok", key + "-refused", "%s: %r" % (what, r[-1]), **wit):
        return
    g = np.array(obs.poly(r[1]))
    ctx.ev("polygon")
    tol = (1e-4*spec["pixelScale"])/3600 + 1e-9
    good = len(g) == len(want) and all(np.min(ref.sep(g, v)) < tol for v in want)
    ctx.ok(good, key, "%s: box %r, vertices %r, want %r" % (what, box, [np.round(q, 9).tolist() for q in ref.lonlat(g)],
                                                            [np.round(q, 9).tolist() for q in ref.lonlat(want)]), **wit)
    ctx.seen(spec["cls"], spec["projection"], what)
    if convex(want) and good:
        # a pixel just inside the box edge is in the polygon when the polygon is straight-sided there (corner chords)
        from lsst.sphgeom import UnitVector3d
        c = want.sum(0)
        c /= np.linalg.norm(c)
        for v in want[:2]:
            for s, inside in ((1 - 1e-5, True), (1 + 1e-5, False)):
                q = c + (v - c)*s
                q /= np.linalg.norm(q)
                ctx.ev("point in polygon")
                ctx.ok(r[1].contains(UnitVector3d(*q)) == inside, key + "-contains",
                       "%s: point %s its corner is %s" % (what, "inside" if inside else "beyond",
                                                          "out" if inside else "in"), **wit)


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    m = obs.build(ctx, spec)
    ids = obs.tract_ids(len(m), rng, 4)
    tracts = [m[i] for i in ids]
    for t in tracts:
        rw = obs.refwcs(t, spec)
        i = t.getId()
        wit = dict(spec=spec, tract=i)
        judge(ctx, spec, t.getOuterSkyPolygon, obs.rbox(t.getBBox()), rw, "tract outer", wit, rng)
        judge(ctx, spec, lambda: t.outer_sky_polygon, obs.rbox(t.getBBox()), rw, "tract outer", wit, rng)
        inner(ctx, spec, t, rw, wit)
        nx, ny = obs.pair(t.getNumPatches())
        other = tracts[rng.randrange(len(tracts))]
        orw = obs.refwcs(other, spec)
        for x, y in rng.sample(obs.patch_ids(nx, ny, rng, 8), min(5, nx*ny)):
            p = t.getPatchInfo((x, y))
            wit = dict(spec=spec, tract=i, patch=[x, y])
            bi, bo = obs.rbox(p.getInnerBBox()), obs.rbox(p.getOuterBBox())
            judge(ctx, spec, p.getInnerSkyPolygon, bi, rw, "patch inner", wit, rng)
            judge(ctx, spec, lambda: p.inner_sky_polygon, bi, rw, "patch inner", wit, rng)
            judge(ctx, spec, p.getOuterSkyPolygon, bo, rw, "patch outer", wit, rng)
            judge(ctx, spec, lambda: p.outer_sky_polygon, bo, rw, "patch outer", wit, rng)
            ctx.ev("explicit wcs")
            judge(ctx, spec, lambda: p.getInnerSkyPolygon(other.getWcs()), bi, orw, "patch inner, other wcs", wit, rng)
            judge(ctx, spec, lambda: p.getOuterSkyPolygon(tractWcs=other.getWcs()), bo, orw, "patch outer, other wcs",
                  wit, rng)
            if spec["builder"] == "cells":
                nc = ref.num_cells(spec)[0]
                for a, b in rng.sample(obs.patch_ids(nc, nc, rng, 6), min(3, nc*nc)):
                    c = p.getCellInfo((a, b))
                    wit = dict(spec=spec, tract=i, patch=[x, y], cell=[a, b])
                    ci, co = obs.rbox(c.getInnerBBox()), obs.rbox(c.getOuterBBox())
                    ctx.ev("cell polygon")
                    judge(ctx, spec, c.getInnerSkyPolygon, ci, rw, "cell inner", wit, rng)
                    judge(ctx, spec, lambda: c.inner_sky_polygon, ci, rw, "cell inner", wit, rng)
                    judge(ctx, spec, c.getOuterSkyPolygon, co, rw, "cell outer", wit, rng)
                    judge(ctx, spec, lambda: c.outer_sky_polygon, co, rw, "cell outer", wit, rng)
                    judge(ctx, spec, lambda: c.getInnerSkyPolygon(other.getWcs()), ci, orw, "cell inner, other wcs",
                          wit, rng)
                    judge(ctx, spec, lambda: c.getOuterSkyPolygon(tractWcs=other.getWcs()), co, orw,
                          "cell outer, other wcs", wit, rng)
    # tracts made directly, with limits of the inner region and without
    from .. import extend
    ra, dec = rng.uniform(0, 360), rng.uniform(-80, 80)
    w = min(3, ref.patch_inner(spec)[0]*spec["pixelScale"]/3600*rng.uniform(0.4, 2))
    corners = [[ra - 0.7*w, dec - 0.8*w], [ra + 0.9*w, dec + 0.6*w]] if rng.random() < 0.6 else None
    vs = ref.offset(ra, dec, np.arange(5)*72.0, np.full(5, w)) if rng.random() < 0.6 else None
    small = dict(spec, tractOverlap=0.1*w)
    t = extend.own_tract(small, 3, (ra, dec), radius=w if vs is None else None, vertices=vs, corners=corners)
    wit = dict(spec=small, centre=[ra, dec], size=w, corners=corners, given="radius" if vs is None else "vertices")
    extend.judge_inner(ctx, t, corners, wit)
    judge(ctx, small, t.getOuterSkyPolygon, obs.rbox(t.getBBox()), obs.refwcs(t, small), "own tract outer", wit, rng)
    import lsst.skymap as sk
    t = tracts[0]
    b = t.getBBox()
    judge(ctx, spec, lambda: sk.makeSkyPolygonFromBBox(b, t.getWcs()), obs.rbox(b), obs.refwcs(t, spec), "from box",
          dict(spec=spec), rng)
    ctx.sample(spec=spec, tracts=ids)


def inner(ctx, spec, t, rw, wit):
    """Inner regions: the ring box, or the hull of the inner vertices."""
    R = ref.RefMap(spec)
    g = obs.attempt(t.getInnerSkyRegion)
    h = obs.attempt(lambda: t.inner_sky_region)
    ctx.ev("inner region")
    b = obs.rbox(t.getBBox())
    vs = np.array([gen.pvec(v) for v in t.getVertexList()])
    if spec["cls"] in ("discrete", "rings"):
        # corners a thousandth of a pixel in from the tract bbox
        want = rw.p2v([b[0] - .499, b[2] + .499, b[2] + .499, b[0] - .499],
                      [b[1] - .499, b[1] - .499, b[3] + .499, b[3] + .499])
        if np.isfinite(want).all() and np.isfinite(vs).all():
            ctx.ev("explicit tract's vertices")
            tol = (1e-3*spec["pixelScale"])/3600 + 1e-9
            ctx.ok(len(vs) == 4 and all(np.min(ref.sep(vs, v)) < tol for v in want), "tract-vertices",
                   "vertices %r want %r" % (ref.lonlat(vs), ref.lonlat(want)), **wit)
    if spec["cls"] == "rings":
        if not ctx.ok(g[0] == "ok" and hasattr(g[1], "getLon"), "inner-region", "inner region %r" % (g[1],), **wit):
            return
        a0, a1, lo, hi = R.ranges[t.getId()]
        la, w = g[1].getLat(), g[1].getLon()
        good = abs(math.degrees(la.getA().asRadians()) - lo) < 1e-9 and \
            abs(math.degrees(la.getB().asRadians()) - hi) < 1e-9
        if a1 - a0 < 360:
            good = good and abs((math.degrees(w.getA().asRadians()) - a0 + 180) % 360 - 180) < 1e-9 and \
                abs((math.degrees(w.getB().asRadians()) - a1 + 180) % 360 - 180) < 1e-9
        else:
            good = good and w.isFull()
        ctx.ok(good, "inner-region", "inner region %r, want RA %r..%r Dec %r..%r" % (g[1], a0, a1, lo, hi), **wit)
        ctx.ok(h[0] == "ok" and obs.region(h[1]) == obs.region(g[1]), "inner-alias", "inner_sky_region differs", **wit)
        return
    if not np.isfinite(vs).all():
        return
    if g[0] == "exc":
        return   # not convex; nothing to compare
    gv = np.array(obs.poly(g[1]))
    ctx.ok(all(np.min(ref.sep(vs, v)) < 1e-9 for v in gv) and all(
        g[1].contains(v.getVector()) or np.min(ref.sep(gv, gen.pvec(v))) < 1e-9 or spec["cls"] == "equat"
        for v in t.getVertexList()), "inner-region", "inner region %r is not the hull of %r" % (gv, vs), **wit)
    ctx.ok(h[0] == "ok" and obs.region(h[1]) == obs.region(g[1]), "inner-alias", "inner_sky_region differs", **wit)
