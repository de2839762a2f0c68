"""Which patches (and tracts) a region touches: exactly the ones its pixel extent reaches."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Random and production maps; coordinate lists of 0 to 300 points: compact regions inside a patch, across patch "
        "edges, across tract edges, near poles and RA 0, wholly outside, and with far points.  The expected patches are "
        "computed from wcslib pixel positions and integer arithmetic.  Non-trivial: a distinct (map shape, builder, "
        "number of points, number of patches, clipped or not, query kind) combination.")
ASSUMPTIONS = ["a pixel extent within 1e-5 pixel of a pixel boundary may round either way",
               "a tract more than 90 deg from every coordinate may be listed or not (documented as naive)"]
REQUIRED_EVENTS = ("findPatchList", "findTractPatchList", "findClosestTractPatchList", "empty region", "off tract", "far point")
TIE = 1e-5


def cases(tier):
    n = 200 if tier == "quick" else 1600
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    return out


def options(spec, pix, num):
    """Acceptable (x0, y0, x1, y1) patch ranges (or None for empty) for pixel positions."""
    w = ref.patch_inner(spec)
    b = ref.patch_border(spec)
    out = [set(), set()]
    for k in range(2):
        lo, hi = pix[:, k].min(), pix[:, k].max()
        for dl in (-TIE, 0, TIE):
            for dh in (-TIE, 0, TIE):
                p0 = math.floor(lo + dl + 0.5) - b
                p1 = max(math.floor(lo + dl + 0.5), math.ceil(hi + dh - 0.5)) + b
                p0, p1 = max(p0, 0), min(p1, num[k]*w[k] - 1)
                out[k].add(None if p0 > p1 else (p0//w[k], p1//w[k]))
    res = set()
    for a in out[0]:
        for c in out[1]:
            res.add(frozenset() if a is None or c is None else frozenset(
                (x, y) for x in range(a[0], a[1] + 1) for y in range(c[0], c[1] + 1)))
    return res


def pixels(rw, coords):
    """Pixel positions by wcslib, and whether each is well defined (not on a branch cut or a horizon)."""
    c = np.array(coords, float)
    p = rw.s2p(c[:, 0], c[:, 1])
    sure = np.ones(len(c), bool)
    for dr, dd in ((1e-7, 0), (-1e-7, 0), (0, 1e-7), (0, -1e-7)):
        q = rw.s2p(c[:, 0] + dr, np.clip(c[:, 1] + dd, -90, 90))
        sure &= np.isfinite(q).all(1) == np.isfinite(p).all(1)
        sure &= ~(np.abs(q - p).max(1) > 1.0)
    sure &= ~(np.abs(p).max(1) > 1e8)
    sure &= ref.sep(ref.vec(c[:, 0], c[:, 1]), ref.vec(*rw.crval)) < 179.9
    return p, sure


def check_patches(ctx, spec, t, rw, coords, got, what):
    """Is this patch list right for this tract?  Returns False when it was not judged."""
    num = obs.pair(t.getNumPatches())
    idx = [tuple(obs.pair(p.getIndex())) for p in got]
    ctx.ok(len(set(idx)) == len(idx), "repeats", "%s: repeated patches %r" % (what, idx), spec=spec)
    if not coords:
        ctx.eq(len(idx), 0, "empty", "%s: no coordinates, yet patches" % what, spec=spec)
        return
    pix, sure = pixels(rw, coords)
    if not sure.all():
        ctx.ev("ill-defined pixel position")
        return
    pix = pix[np.isfinite(pix).all(1)]
    if not len(pix):
        ctx.eq(len(idx), 0, "empty", "%s: no pixel positions, yet patches" % what, spec=spec, coords=coords)
        return
    want = options(spec, pix, num)
    if not ctx.ok(frozenset(idx) in want, "patches", "%s tract %r (%d x %d patches): got %d patches %r, want %r" % (
            what, t.getId(), num[0], num[1], len(idx), sorted(idx)[:6], [sorted(s)[:6] for s in want][:3]),
            spec=spec, coords=coords):
        return
    for p in got[:2]:
        i = tuple(p.getIndex())
        ctx.eq(obs.patch(p), obs.patch(t.getPatchInfo(i)), "patch-value", "%s: patch %r" % (what, i), spec=spec)
        ctx.eq(obs.rbox(p.getInnerBBox()), list(ref.inner_box(spec, *i)), "patch-box", "%s: %r" % (what, i), spec=spec)
    ctx.seen(gen.label(spec)[0], spec["projection"], spec["builder"], len(coords), min(len(idx), 50),
             len(idx) == num[0]*num[1], what)


def region(ctx, spec, t, rw, rng):
    """A list of (ra, dec) to query, laid out in the pixels of one tract."""
    b = obs.rbox(t.getBBox())
    W, H = b[2] + 1, b[3] + 1
    w, h = ref.patch_inner(spec)
    bo = ref.patch_border(spec)
    n = rng.choice([1, 1, 2, 3, 4, 4, 8, 8, 33, 70, 300]) if rng.random() < 0.5 else rng.choice([1, 1, 2, 3, 4])
    k = rng.random()
    if k < 0.35:     # compact, anywhere in or near
        cx, cy = rng.uniform(-0.1, 1.1)*W, rng.uniform(-0.1, 1.1)*H
        s = rng.choice([0.0, 0.5, w*0.3, w, 2*w])
        pts = [(cx + rng.uniform(-s, s), cy + rng.uniform(-s, s)) for _ in range(n)]
    elif k < 0.75:   # edges exactly a border away from a patch boundary
        def pos(side, total):
            e = rng.randint(0, max(1, total//side))*side
            return e + rng.choice([-1, 1, 0])*bo + rng.choice([-1.4, -0.6, -0.4, 0.4, -1.6, 0.6, -2.4, 1.4, 0.0])
        pts = [(pos(w, W), pos(h, H)) for _ in range(n)]
        if rng.random() < 0.5:
            x, y = pts[0]
            pts = [(x + rng.uniform(-0.05, 0.05), y + rng.uniform(-0.05, 0.05)) for _ in range(n)]
    elif k < 0.85:   # just off the tract, within / beyond the border
        d = bo + rng.choice([-3, -1, 1, 3, 20])
        x = rng.choice([-d, W - 1 + d, rng.uniform(0, W)])
        y = rng.choice([-d, H - 1 + d, rng.uniform(0, H)])
        pts = [(x + 0.2, y + 0.3)]*n
    elif k < 0.93:   # straddling the whole tract
        pts = [(-2.0*w, rng.uniform(0, H)), (W + 2.0*w, rng.uniform(0, H))]
    else:            # anywhere on the sky
        return [c for c in (gen.sky(rng) for _ in range(n)) if not gen.singular(spec, c[1])]
    s = rw.p2s(*np.array(pts).T)
    s = s[np.isfinite(s).all(1)]
    return [(float(a), float(d)) for a, d in s if not gen.singular(spec, d)]


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.08:
        spec = gen.big(rng, spec, rng.choice([("patches",), ("pixels",), ("pixels",)]), 64)
        ctx.ev("big")
    from lsst.afw.geom import WcsFaults
    was, WcsFaults.mode = WcsFaults.mode, rng.choice(["nan", "runtime", "domain"])
    try:
        drive(ctx, name, spec, rng)
    finally:
        WcsFaults.mode = was


def drive(ctx, name, spec, rng):
    m = obs.build(ctx, spec)
    n = len(m)
    slots = ref.RefMap(spec).slots if spec["cls"] == "rings" else None
    nreg = 14 if not ctx.thorough else 40
    if name == "production":
        nreg = 8
    rws = {}

    def rwof(i):
        if i not in rws:
            rws[i] = obs.refwcs(m[i], spec)
        return rws[i]
    ids = obs.tract_ids(n, rng, 5)
    for j in range(nreg):
        i = rng.choice(ids)
        t = m[i]
        rw = rwof(i)
        coords = region(ctx, spec, t, rw, rng)
        if coords and rng.random() < (0.5 if spec["projection"] in ("TAN", "SIN") else 0.05 if len(t) < 200 else 0):
            # points on the far side of the sky, which may have no pixel, anywhere in the list
            c0 = ref.vec(*coords[0])
            for _ in range(rng.choice([1, 1, 2])):
                v = -c0 + 0.4*np.array([rng.gauss(0, 1) for _ in range(3)])
                a, d = ref.lonlat(v)
                if not gen.singular(spec, float(d)):
                    coords.insert(rng.randint(0, len(coords)), (float(a), float(d)))
                    ctx.ev("far point")
        pts = [gen.sp(*c) for c in coords]
        got = ask(ctx, t.findPatchList, pts, spec, coords, [rw]) if coords else t.findPatchList(pts)
        if got is None:
            continue
        ctx.ev("findPatchList")
        if not got:
            ctx.ev("off tract")
        check_patches(ctx, spec, t, rw, coords, got, "findPatchList")
        if j == 0:
            ctx.sample(spec=spec, tract=i, coords=coords, patches=[list(p.getIndex()) for p in got[:8]])
            ctx.eq(len(t.findPatchList([])), 0, "empty", "patches for no coordinates", spec=spec)
            ctx.eq(len(m.findTractPatchList([])), 0, "empty", "tracts for no coordinates", spec=spec)
            ctx.eq(len(m.findClosestTractPatchList([])), 0, "empty", "closest for no coordinates", spec=spec)
            ctx.ev("empty region")
        if not coords:
            continue
        if j % 2 == 0:
            whole(ctx, spec, m, n, slots, coords, pts, rwof)
        else:
            closest(ctx, spec, m, coords, pts, rwof)


def listing(ctx, spec, res, what):
    out = {}
    for t, patches in res:
        i = obs.num(t.getId())
        ctx.ok(i not in out, "repeats", "%s lists tract %r twice" % (what, i), spec=spec)
        ctx.ok(len(patches) > 0, "hollow", "%s lists tract %r with no patches" % (what, i), spec=spec)
        out[i] = (t, patches)
    return out


def ask(ctx, f, pts, spec, coords, rws):
    """Query; a pixel position too large for an integer box (near a tract's antipode) may be refused."""
    r = obs.attempt(f, pts)
    if r[0] == "ok":
        return r[1]
    if issubclass(r[1], OverflowError) and any(not pixels(w, coords)[1].all() for w in rws):
        ctx.ev("refused: antipodal")
        return None
    raise r[2]


def whole(ctx, spec, m, n, slots, coords, pts, rwof):
    r = ask(ctx, m.findTractPatchList, pts, spec, coords, (rwof(i) for i in range(n)))
    if r is None:
        return
    got = listing(ctx, spec, r, "findTractPatchList")
    ctx.ev("findTractPatchList")
    v = np.array([ref.vec(*c) for c in coords])
    big = n > 300
    cand = range(n)
    if big:
        R = ref.RefMap(spec)
        cv = np.array([ref.vec(*c) for c in R.centers])
        b = obs.rbox(m[0].getBBox())
        reach = 1.3*math.hypot(b[2] + 1, b[3] + 1)*spec["pixelScale"]/3600.0/2
        near = np.min([ref.sep(cv, x) for x in v], axis=0) < reach
        cand = sorted(set(np.nonzero(near)[0].tolist()) | set(got))
    for i in cand:
        t = m[i]
        rw = rwof(i)
        c = gen.pvec(t.getCtrCoord())
        pix, sure = pixels(rw, coords)
        if not sure.all():
            ctx.ev("ill-defined pixel position")
            continue
        fin = np.isfinite(pix).all(1)
        if spec["cls"] == "rings":
            b = obs.rbox(t.getBBox())
            e = np.where(fin, np.minimum(np.minimum(pix[:, 0] + .5, b[2] + .5 - pix[:, 0]),
                                         np.minimum(pix[:, 1] + .5, b[3] + .5 - pix[:, 1])), -1e9)
            if e.max() < -1e-6:
                ctx.ok(i not in got, "extra-tract", "tract %r holds none of the coordinates" % i, spec=spec,
                       coords=coords)
                continue
            if e.max() <= 1e-6 and i not in got:
                continue
            if i not in got and spec["version"] == 0 and slots.count(slots[i]) > 1 and any(
                    slots[o] == slots[i] for o in got):
                continue
            if not ctx.ok(i in got, "missing-tract", "tract %r holds a coordinate but is not listed (%r)" % (
                    i, sorted(got)), spec=spec, coords=coords):
                continue
        else:
            if i not in got:
                pf = pix[fin]
                if not len(pf) or ref.sep(v, c).min() > 90:
                    continue
                w = options(spec, pf, obs.pair(t.getNumPatches()))
                ctx.ok(frozenset() in w, "missing-tract", "tract %r is touched but not listed" % i, spec=spec,
                       coords=coords)
                continue
            if ref.sep(v, c).min() > 90:
                continue
        check_patches(ctx, spec, t, rw, coords, got[i][1], "findTractPatchList")


def closest(ctx, spec, m, coords, pts, rwof):
    r = ask(ctx, m.findClosestTractPatchList, pts, spec, coords,
            (rwof(obs.num(m.findTract(p).getId())) for p in pts))
    if r is None:
        return
    got = listing(ctx, spec, r, "findClosestTractPatchList")
    ctx.ev("findClosestTractPatchList")
    want = {}
    for p in pts:
        t = m.findTract(p)
        if len(t.findPatchList(pts)):
            want[obs.num(t.getId())] = t
    ctx.eq(sorted(got), sorted(want), "closest-tracts", "tracts owning the coordinates", spec=spec, coords=coords)
    for i, (t, patches) in got.items():
        check_patches(ctx, spec, t, rwof(i), coords, patches, "findClosestTractPatchList")
