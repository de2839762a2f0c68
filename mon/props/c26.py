"""Descriptions of tracts, patches and cells behave as values: equality, names of one thing, text, and construction checks."""
import copy
import itertools
import pickle
import warnings

import numpy as np

from .. import gen, obs, ref

RULE = ("Families of maps that differ in one setting; every pair among sampled patches (and cells) of all family members is "
        "compared with ==, != in both orders and judged by index, boxes and cell layout; every accessor against its attribute; "
        "text forms; direct construction with good and bad boxes and cell dimensions.  Non-trivial: a distinct (map kind, "
        "builder, what differs, equal or not).")
ASSUMPTIONS = ["which tract a patch or cell belongs to is no part of its value"]
ROUNDS = 6
REQUIRED_EVENTS = ("compared equal", "compared different", "cells compared", "names agree", "constructed", "refused",
                   "deprecated polygon", "text")

TRACT = {"bbox": "getBBox", "ctr_coord": "getCtrCoord", "tract_id": "getId", "num_patches": "getNumPatches",
         "patch_border": "getPatchBorder", "patch_inner_dimensions": "getPatchInnerDimensions",
         "tract_overlap": "getTractOverlap", "vertex_list": "getVertexList", "inner_sky_region": "getInnerSkyRegion",
         "outer_sky_polygon": "getOuterSkyPolygon", "wcs": "getWcs"}
PATCH = {"index": "getIndex", "sequential_index": "getSequentialIndex", "wcs": "getWcs", "inner_bbox": "getInnerBBox",
         "outer_bbox": "getOuterBBox", "inner_sky_polygon": "getInnerSkyPolygon", "outer_sky_polygon": "getOuterSkyPolygon",
         "num_cells": "getNumCells", "cell_border": "getCellBorder", "cell_inner_dimensions": "getCellInnerDimensions"}
CELL = {"index": "getIndex", "sequential_index": "getSequentialIndex", "wcs": "getWcs", "inner_bbox": "getInnerBBox",
        "outer_bbox": "getOuterBBox", "inner_sky_polygon": "getInnerSkyPolygon", "outer_sky_polygon": "getOuterSkyPolygon"}


def cases(tier):
    n = 40 if tier == "quick" else 500
    return ([("production", {"name": p["name"]}) for p in gen.PRODUCTION]
            + [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(5*n)]
            + [("direct", {"k": k}) for k in range(n)])


def run_case(ctx, name, params, rng):
    if name == "direct":
        return direct(ctx, rng)
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=12)
        if spec["cls"] == "healpix":
            spec["log2NSide"] = min(spec["log2NSide"], 2)
    m = obs.build(ctx, spec)
    t = m[rng.randrange(len(m))]
    names(ctx, spec, t, rng)
    compare(ctx, spec, m, t, rng)


def relatives(spec, rng):
    """The map again, and maps that differ in one setting."""
    yield "same", dict(spec)
    if spec["builder"] == "legacy":
        yield "border", dict(spec, border=spec["border"] + rng.choice([1, 5]))
        yield "dims", dict(spec, dims=[spec["dims"][0] + 1, spec["dims"][1]])
    else:
        yield "cellBorder", dict(spec, cellBorder=spec["cellBorder"] + 1)
        yield "inBorder", dict(spec, inBorder=spec["inBorder"] + 1)
        yield "perPatch", dict(spec, perPatch=spec["perPatch"] + 1)
        yield "cell", dict(spec, cell=[spec["cell"][0] + 1]*2)
        w = spec["cell"][0]*spec["perPatch"]
        yield "no cells", dict({k: v for k, v in spec.items() if k not in ("cell", "cellBorder", "perPatch", "inBorder")},
                               builder="legacy", dims=[w, w], border=ref.patch_border(spec))


def value(p):
    return [obs.pair(p.getIndex()), obs.rbox(p.getInnerBBox()), obs.rbox(p.getOuterBBox()), obs.pair(p.getNumCells()),
            obs.num(p.getCellBorder())]


def cvalue(c):
    return [obs.pair(c.getIndex()), obs.rbox(c.getInnerBBox()), obs.rbox(c.getOuterBBox())]


def judge(ctx, a, b, want, what, wit):
    r = [a == b, not (a != b), b == a, not (b != a)]
    ctx.ok(all(type(x) is bool for x in r), "equality-type", "comparisons gave %r" % (r,), **wit)
    ctx.ok(all(bool(x) == want for x in r), "equality", "%s: %r and %r compare as %r, want %r" % (what, a, b, r, want), **wit)
    ctx.ev("compared equal" if want else "compared different")


def compare(ctx, spec, m, t, rng):
    i = t.getId()
    n = obs.pair(t.getNumPatches())
    ids = obs.patch_ids(n[0], n[1], rng, 7)
    pool = [("here", t.getPatchInfo(j)) for j in ids]
    pool += [("again", t.getPatchInfo(j)) for j in ids[:3]]
    for what, s in relatives(spec, rng):
        mm = gen.build(s)
        tt = mm[i]
        k = obs.pair(tt.getNumPatches())
        pool += [(what, tt.getPatchInfo(j)) for j in ids if j[0] < k[0] and j[1] < k[1]][:4]
    p0 = pool[0][1]
    pool.append(("pickled", pickle.loads(pickle.dumps(p0))))
    pool.append(("copied", copy.copy(p0)))
    pool.append(("deep copied", copy.deepcopy(p0)))
    wit = dict(spec=spec, tract=obs.num(i))
    pairs = list(itertools.product(pool, pool))
    rng.shuffle(pairs)
    for (wa, a), (wb, b) in [(x, y) for x in pool for y in (x, pool[0])] + pairs[:250]:
        want = value(a) == value(b)
        judge(ctx, a, b, want, "patches", wit)
        ctx.seen(spec["cls"], spec["builder"], wa, wb, want)
    for what in ("pickled", "copied", "deep copied", "same", "again"):
        for w, b in pool:
            if w == what and obs.pair(b.getIndex()) == obs.pair(p0.getIndex()):
                judge(ctx, p0, b, True, what, wit)
    cells = []
    for what, p in pool[:2] + [x for x in pool if x[0] in ("same", "cellBorder", "inBorder", "cell")][:4]:
        k = obs.pair(p.getNumCells())
        if k[0]:
            cells += [(what, p[j]) for j in obs.patch_ids(k[0], k[1], rng, 6)]
    if cells:
        c0 = cells[0][1]
        cells += [("pickled", pickle.loads(pickle.dumps(c0))), ("copied", copy.deepcopy(c0))]
        for w, b in cells[-2:]:
            judge(ctx, c0, b, True, w, wit)
    pairs = list(itertools.product(cells, cells))
    rng.shuffle(pairs)
    for (wa, a), (wb, b) in pairs[:150]:
        ctx.ev("cells compared")
        judge(ctx, a, b, cvalue(a) == cvalue(b), "cells", wit)
        ctx.seen(spec["cls"], "cell", wa, wb, cvalue(a) == cvalue(b))
    # text forms tell them apart
    ctx.ev("text")
    for kind, things, val in (("PatchInfo", [p for _, p in pool[:6]], value), ("CellInfo", [c for _, c in cells[:6]], cvalue)):
        for x in things:
            ix = obs.pair(x.getIndex())
            for s in (str(x), repr(x)):
                ctx.ok(s.startswith(kind) and all(str(v) in s for v in ix), "text", "%s %r reads %r" % (kind, ix, s), **wit)
            for y in things:
                if val(x)[0] != val(y)[0]:
                    ctx.ok(str(x) != str(y) and repr(x) != repr(y), "text", "%r and %r read the same: %s" % (
                        val(x), val(y), x), **wit)
                if val(x)[:3] != val(y)[:3]:
                    ctx.ok(repr(x) != repr(y), "text", "%r and %r read the same: %r" % (val(x), val(y), x), **wit)
    for s in (str(t), repr(t)):
        ctx.ok(s.startswith("TractInfo") and "id=%d" % i in s, "text", "tract %r reads %r" % (i, s), **wit)


def plain(v):
    if hasattr(v, "getMinX"):
        return obs.rbox(v)
    if hasattr(v, "getVertices") or hasattr(v, "getLon") and hasattr(v, "getLat"):
        return obs.region(v)
    if hasattr(v, "getCdMatrix"):
        return obs.wcs(v)
    if hasattr(v, "getLongitude"):
        return obs.coord(v)
    if hasattr(v, "asRadians"):
        return v.asRadians()
    if isinstance(v, (list, tuple)) and v and hasattr(v[0], "getLongitude"):
        return [obs.coord(x) for x in v]
    try:
        return obs.pair(v)
    except TypeError:
        return obs.num(v)


def names(ctx, spec, t, rng):
    """Every attribute is the accessor of the same meaning."""
    nx, ny = obs.pair(t.getNumPatches())
    p = t.getPatchInfo((rng.randrange(nx), rng.randrange(ny)))
    things = [("tract", t, TRACT), ("patch", p, PATCH)]
    k = obs.pair(p.getNumCells())
    if k[0]:
        things.append(("cell", p[rng.randrange(k[0]*k[1])], CELL))
    for what, x, table in things:
        for a, g in table.items():
            one, two = obs.attempt(getattr, x, a), obs.attempt(getattr(x, g))
            ctx.ev("names agree")
            wit = dict(spec=spec, what=what, name=a)
            if one[0] == two[0] == "exc" and "polygon" in a or "region" in a and one[0] == "exc":
                ctx.ok(one[1] is two[1], "names", "%s.%s raises %r, %s() raises %r" % (what, a, one[2], g, two[-1]), **wit)
                continue
            if not ctx.ok(one[0] == two[0] == "ok", "names", "%s.%s: %r; %s(): %r" % (what, a, one, g, two), **wit):
                continue
            ctx.eq(repr(plain(one[1])), repr(plain(two[1])), "names", "%s.%s and %s()" % (what, a, g), **wit)
            ctx.ok(type(one[1]) is type(two[1]), "names", "%s.%s is a %s, %s() a %s" % (
                what, a, type(one[1]), g, type(two[1])), **wit)
    # the deprecated polygon is what it was: the hull of the vertices
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = obs.attempt(t.getInnerSkyPolygon)
        r2 = obs.attempt(lambda: t.inner_sky_polygon)
    ctx.ev("deprecated polygon")
    ctx.ok(any(issubclass(x.category, FutureWarning) for x in w), "deprecated", "no FutureWarning from getInnerSkyPolygon",
           spec=spec)
    ctx.eq(r[0], r2[0], "deprecated", "getInnerSkyPolygon and inner_sky_polygon", spec=spec)
    if r[0] == "ok":
        from lsst.sphgeom import ConvexPolygon
        want = ConvexPolygon.convexHull([v.getVector() for v in t.getVertexList()])
        ctx.ok(r[1] == want and r2[1] == want, "deprecated", "inner polygon %r, want %r" % (obs.poly(r[1]), obs.poly(want)),
               spec=spec)
    for x in (p.getIndex(), p.getNumCells(), t.getNumPatches()):
        a, b = x
        ctx.ok(x == (a, b) and (x.x, x.y) == (a, b) and hash(x) == hash((a, b)) and x[0] == a and x[1] == b and len(x) == 2,
               "index", "index %r is not the pair (%r, %r)" % (x, a, b), spec=spec)


def single(ctx, rng, inner, ix, seq):
    """Patches and cells that differ in one constructor argument."""
    import lsst.geom as geom
    from lsst.skymap import CellInfo, Index2D, PatchInfo
    outer = geom.Box2I(inner)
    outer.grow(3)
    base = dict(index=ix, innerBBox=inner, outerBBox=outer, sequentialIndex=seq, tractWcs=None)
    other = dict(index=[Index2D(ix.y + 1, ix.x), Index2D(ix.x, ix.y + 1), Index2D(ix.x + 1, ix.y)])
    for k in ("innerBBox", "outerBBox"):
        other[k] = []
        for a in range(4):       # one edge of the box at a time
            b = base[k]
            e = [b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY()]
            e[a] += (1 if a < 2 else -1)*(1 if k == "innerBBox" else rng.choice([-1, 1]))
            if e[0] <= e[2] and e[1] <= e[3]:
                other[k].append(geom.Box2I(geom.Point2I(e[0], e[1]), geom.Point2I(e[2], e[3])))
    cells = dict(cellInnerDimensions=(5, 5), cellBorder=2, numCellsPerPatchInner=4, numCellsInPatchBorder=1)
    more = dict(cellBorder=[0, 1, 3], numCellsPerPatchInner=[3, 5], numCellsInPatchBorder=[0, 2])
    for cls in (PatchInfo, CellInfo):
        for b, o in ([(base, other)] + ([(dict(base, **cells), dict(other, **more))] if cls is PatchInfo else [])):
            one = cls(**b)
            judge(ctx, one, cls(**b), True, "the same by hand", {})
            # an index is the pair of its numbers, of whatever integer type
            for same in (tuple(ix), Index2D(np.int64(ix.x), np.int32(ix.y)), (np.int64(ix.x), ix.y)):
                judge(ctx, one, cls(**dict(b, index=same)), True, "index %r" % (same,), {})
                judge(ctx, cls(**dict(b, index=(ix.x, ix.y + 1))), cls(**dict(b, index=same)), False, "index %r" % (same,), {})
            for k in o:
                for v in o[k]:
                    two = cls(**dict(b, **{k: v}))
                    val = value if cls is PatchInfo else cvalue
                    judge(ctx, one, two, val(one) == val(two), "%s differs" % k, dict(k=k))
                    if val(one) != val(two):
                        ctx.ev("text")
                        ctx.ok(repr(one) != repr(two), "text", "%r and %r read the same: %r" % (val(one), val(two), one), k=k)
                    ctx.seen("direct", cls.__name__, k, b is base, val(one) == val(two))


def direct(ctx, rng):
    """Patches and cells made by hand: an outer box must hold the inner one."""
    import lsst.geom as geom
    from lsst.skymap import CellInfo, Index2D, PatchInfo
    for _ in range(12):
        x, y, w, h = rng.randint(-50, 50), rng.randint(-50, 50), rng.randint(1, 30), rng.randint(1, 30)
        inner = geom.Box2I(geom.Point2I(x, y), geom.Extent2I(w, h))
        d = [rng.choice([0, 0, 0, 1, 3, -1]) for _ in range(4)]
        if w + d[0] + d[1] < 1 or h + d[2] + d[3] < 1:
            continue
        outer = geom.Box2I(geom.Point2I(x - d[0], y - d[2]), geom.Extent2I(w + d[0] + d[1], h + d[2] + d[3]))
        good = min(d) >= 0
        ix = Index2D(rng.randint(0, 9), rng.randint(0, 9))
        seq = rng.randint(0, 99)
        wit = dict(inner=obs.rbox(inner), outer=obs.rbox(outer))
        for cls in (PatchInfo, CellInfo):
            r = obs.attempt(cls, index=ix, innerBBox=inner, outerBBox=outer, sequentialIndex=seq, tractWcs=None)
            if good:
                ctx.ev("constructed")
                if ctx.ok(r[0] == "ok", "constructed", "%s refused: %r" % (cls.__name__, r[-1]), **wit):
                    o = r[1]
                    ctx.eq([obs.pair(o.getIndex()), obs.num(o.getSequentialIndex()), obs.rbox(o.getInnerBBox()),
                            obs.rbox(o.getOuterBBox())], [list(ix), seq, wit["inner"], wit["outer"]], "constructed",
                           cls.__name__, **wit)
                    if cls is PatchInfo:
                        ctx.eq([obs.pair(o.getNumCells()), len(o), list(o)], [[0, 0], 0, []], "constructed",
                               "cells of a patch without cells", **wit)
            else:
                ctx.ev("refused")
                ctx.ok(r[0] == "exc" and issubclass(r[1], RuntimeError), "refused",
                       "%s whose outer box does not hold the inner one: %r" % (cls.__name__, r[-1]), **wit)
            ctx.seen("direct", cls.__name__, [v < 0 for v in d], [v > 0 for v in d])
        single(ctx, rng, inner, ix, seq)
        n, b = rng.randint(1, 5), rng.randint(0, 3)
        cd, cb = [rng.randint(1, 9), rng.randint(1, 9)], rng.randint(0, 4)
        for dims in (cd, tuple(cd), geom.Extent2I(*cd), iter(cd), 7, None, cd[:1], cd + [1], ()):
            kind = type(dims).__name__
            bad = not isinstance(dims, (tuple, list, geom.Extent2I)) or len(dims) != 2
            if kind == "list_iterator":
                continue
            r = obs.attempt(PatchInfo, ix, inner, inner, seq, None, cellInnerDimensions=dims, cellBorder=cb,
                            numCellsPerPatchInner=n, numCellsInPatchBorder=b)
            if bad:
                ctx.ev("refused")
                ctx.ok(r[0] == "exc" and issubclass(r[1], ValueError), "refused", "cell dimensions %r: %r" % (dims, r[-1]),
                       **wit)
            elif ctx.ok(r[0] == "ok", "constructed", "cell dimensions %r refused: %r" % (dims, r[-1]), **wit):
                ctx.ev("constructed")
                p = r[1]
                ctx.eq([obs.pair(p.getNumCells()), len(p), obs.pair(p.getCellInnerDimensions()), obs.num(p.getCellBorder())],
                       [[n + 2*b]*2, (n + 2*b)**2, cd, cb], "constructed", "cell layout", **wit)
                c = p[n + 2*b + 1] if n + 2*b > 1 else p[0]
                j = (1, 1) if n + 2*b > 1 else (0, 0)
                bx = [x + (j[0] - b)*cd[0], y + (j[1] - b)*cd[1]]
                want = [bx[0], bx[1], bx[0] + cd[0] - 1, bx[1] + cd[1] - 1]
                ctx.eq(obs.rbox(c.getInnerBBox()), want, "constructed", "cell %r" % (j,), **wit)
                ctx.eq(obs.rbox(c.getOuterBBox()), [want[0] - cb, want[1] - cb, want[2] + cb, want[3] + cb], "constructed",
                       "cell %r" % (j,), **wit)
            ctx.seen("direct", "cells", kind, bad)
