"""Registering a map records all of it: every tract and patch, with the right numbers, grid places and regions."""
import lsst.sphgeom as sphgeom
import numpy as np

from .. import gen, obs, ref
from ..repo import Repo, state
from . import c12

RULE = ("Maps of every kind are registered, one to three per repository, in real Butler repositories (sqlite), and everything "
        "recorded is read back with a new client: summary, tracts, patches, regions, stored map; points are looked up by "
        "region query and data IDs packed.  Non-trivial: a distinct (map shape, patch counts) read back.")
ASSUMPTIONS = ["the repository uses a coarse common sky pixelization, which affects only how fast queries are",
               "regions may differ from wcslib corners by 1e-9"]
ROUNDS = 2
NAMES = ["m1", "DC2", "hsc_rings_v1", "LSST-cells/v1", "Carte du ciel: été", "map.of.all", "0", "M" + "x"*63, "m%d{tract}", "None"]
REQUIRED_EVENTS = ("registered", "tract record", "patch record", "map read back", "point query", "packed")


def cases(tier):
    n = 12 if tier == "quick" else 100
    out = [("random", {"kinds": [k]}) for _ in range(n) for k in gen.ALL]
    out += [("several", {"k": k}) for k in range(8 if tier == "quick" else 60)]
    out += [("counts", {"k": k}) for k in range(1 if tier == "quick" else 6)]
    out += [("fine", {"k": k}) for k in range(1 if tier == "quick" else 8)]
    return out


def prepare(tier):
    from ..repo import template
    template()


def small(rng, kinds):
    while True:
        s = gen.spec_random(rng, kinds=kinds, maxpatch=4, max_rings=4)
        if s["cls"] == "healpix":
            s["log2NSide"] = min(s["log2NSide"], 1)
        m = gen.build(s)
        if len(m) > 60:
            continue
        ok = True
        total = 0
        for t in m:
            total += len(t)
            nx, ny = t.getNumPatches()
            if nx*ny > 40 or total > 500:
                ok = False
                break
            # a region that is no convex polygon cannot be recorded
            for q in [t] + [t[i] for i in ((0, 0), (nx - 1, 0), (0, ny - 1), (nx - 1, ny - 1))]:
                if obs.attempt(q.getOuterSkyPolygon)[0] != "ok":
                    ok = False
                    break
            if not ok:
                break
        if ok and all(obs.attempt(p.getOuterSkyPolygon)[0] == "ok" for t in m for p in t):
            return s, gen.build(s)


def counts(rng):
    """A map with tracts of every number of patches, up to a hundred, and one of more."""
    w = rng.choice([6, 10])
    want = list(range(1, 102)) + [rng.choice([128, 200, 201, 250, 251, 256, 257, 301])]
    rng.shuffle(want)
    s = dict(gen.production("discrete_three"), pixelScale=3.0, builder="legacy", border=rng.choice([0, 3]), tractOverlap=0.0,
             rotation=0.0, projection="TAN", dims=[w, 4000] if rng.random() < 0.5 else [4000, w])
    s["raList"] = [rng.uniform(0, 360) for _ in want]
    s["decList"] = [rng.uniform(-60, 60) for _ in want]
    s["radiusList"] = [(k*w - w/2.0)*0.5*s["pixelScale"]/3600 for k in want]
    return s, gen.build(s)


def many(rng, which):
    """A map of many tracts (a list, or rings), or with a tract of many patches; cheap to register."""
    s = dict(gen.production("discrete_three"), pixelScale=100.0, builder="legacy", border=rng.choice([0, 3]), tractOverlap=0.0,
             rotation=0.0, projection="TAN", dims=[60, 60])
    n = rng.randint(60, 140)
    if which == 0:
        s["raList"] = [rng.uniform(0, 360) for _ in range(n)]
        s["decList"] = [rng.uniform(-80, 80) for _ in range(n)]
        s["radiusList"] = [rng.choice([0.1, 0.3]) for _ in range(n)]
    elif which == 1:
        s["raList"], s["decList"], s["radiusList"] = [rng.uniform(0, 360)], [rng.uniform(-60, 60)], [0.5]
        s["dims"] = [1, rng.choice([2, 4, 36])]
    else:
        s = dict(cls="rings", numRings=rng.choice([7, 8, 9]), raStart=0.0, version=1, tractOverlap=0.5, pixelScale=1000.0, rotation=0.0,
                 projection="TAN", builder="legacy", dims=[100, 100], border=2)
    return s


def run_case(ctx, name, params, rng):
    if name == "random":
        maps = [(rng.choice(NAMES), *small(rng, tuple(params["kinds"])))]
    elif name == "counts":
        maps = [("counts", *counts(rng))]
    elif name == "fine":
        n = rng.choice([501, 513, 999, 1001, 1025, 2049])
        s = dict(gen.production("discrete_three"), raList=[rng.uniform(0, 360)], decList=[rng.uniform(-60, 60)],
                 radiusList=[0.5], pixelScale=1.0, builder="legacy", border=rng.choice([0, 2, 50]))
        s["dims"] = [max(3, 3600//n), 3600]
        maps = [("fine", s, gen.build(s))]
    else:
        names = ["map a", "map A", " map a"] if rng.random() < 0.5 else rng.sample(NAMES, 3)
        maps = [(k, *small(rng, gen.ALL)) for k in names]
    with Repo() as repo:
        b = repo.butler()
        for nm, s, m in maps:
            use(m, rng)
            m.register(nm, b)
            ctx.ev("registered")
        reader = repo.reader()
        st = state(repo.root)
        ctx.eq(sorted(r["name"] for r in st["skymap"]), sorted(n for n, _, _ in maps), "names", "registered names")
        for nm, s, m in maps:
            check(ctx, nm, s, m, reader, st, rng)


def use(m, rng):
    """Whatever was asked of a map before must not change what is recorded."""
    for _ in range(rng.choice([0, 0, 1, 5])):
        k = rng.random()
        if k < 0.4:
            m.findTract(gen.sp(*gen.sky(rng)))
        elif k < 0.6:
            m.findTractIdArray(np.array([rng.uniform(0, 360)]), np.array([rng.uniform(-90, 90)]), degrees=True)
        elif k < 0.8:
            t = m[np.int64(rng.randrange(len(m)))]
            t[(np.int64(0), np.int64(0))]
        else:
            m.getSha1()


def check(ctx, nm, s, m, reader, st, rng):
    wit = dict(spec=s)
    fresh = gen.build(s)         # says what should have been recorded
    rec = [r for r in st["skymap"] if r["name"] == nm][0]
    ctx.eq(rec["hash"], ref.sha1(s).hex(), "summary", "recorded digest", **wit)
    ctx.eq(rec["tract_max"], len(ref.RefMap(s)), "summary", "recorded number of tracts", **wit)
    num = [obs.pair(t.getNumPatches()) for t in fresh]
    ctx.eq([rec["patch_nx_max"], rec["patch_ny_max"]], [max(n[0] for n in num), max(n[1] for n in num)], "summary",
           "recorded patch counts", **wit)
    tr = {r["id"]: r for r in st["tract"] if r["skymap"] == nm}
    ctx.eq(sorted(tr), list(range(len(fresh))), "tracts", "recorded tracts", **wit)
    pr = {}
    for r in st["patch"]:
        if r["skymap"] == nm:
            pr.setdefault(r["tract"], {})[r["id"]] = r
    ctx.eq(sorted(pr), list(range(len(fresh))), "patches", "tracts with recorded patches", **wit)
    for t in fresh:
        i = obs.num(t.getId())
        nx, ny = num[i]
        ctx.ev("tract record")
        w = obs.refwcs(t, s)
        b = t.getBBox()
        region(ctx, s, "tract %d" % i, tr[i]["region"], t, w, (0, 0, b.getMaxX(), b.getMaxY()), rng)
        ctx.eq(sorted(pr[i]), list(range(nx*ny)), "patches", "recorded patches of tract %d" % i, **wit)
        for k, r in sorted(pr[i].items()):
            ctx.ev("patch record")
            ctx.eq([r["cell_x"], r["cell_y"]], [k % nx, k//nx], "place", "grid place of patch %d of tract %d (%d x %d)" % (
                k, i, nx, ny), **wit)
            region(ctx, s, "patch %d of tract %d" % (k, i), r["region"], t, w,
                   ref.outer_box(s, k % nx, k//nx, (b.getMaxX() + 1, b.getMaxY() + 1)), rng)
        ctx.seen(gen.label(s), nx, ny)
    ctx.eq([d for d in st["datasets"] if d[0] == nm], [(nm, "skymaps", True)], "dataset", "stored maps", **wit)
    back = reader.get("skyMap", skymap=nm, collections="skymaps")
    ctx.ev("map read back")
    ctx.ok(back == fresh and type(back).__name__ == type(fresh).__name__ and len(back) == len(fresh), "dataset",
           "map read back is %r" % (back,), **wit)
    i = rng.randrange(len(fresh))
    ctx.eq(obs.tract(back[i]), obs.tract(fresh[i]), "dataset", "tract %d of the map read back" % i, **wit)
    # a position in a patch's inner region is found by that patch's recorded region
    for _ in range(3):
        t = fresh[rng.randrange(len(fresh))]
        p = t[rng.randrange(len(t))]
        x0, y0, x1, y1 = obs.rbox(p.getInnerBBox())
        c = t.getWcs().pixelToSky((x0 + x1)/2.0, (y0 + y1)/2.0)
        b = t.getBBox()
        w = obs.refwcs(t, s)
        box = ref.outer_box(s, *p.getIndex(), (b.getMaxX() + 1, b.getMaxY() + 1))
        if not np.isfinite(obs.coord(c)).all() or not holds(c12.corners(w, box), gen.pvec(c)):
            continue
        ra, dec = c.getLongitude().asDegrees(), c.getLatitude().asDegrees()
        q = reader.registry.queryDataIds(["patch"], where="patch.region OVERLAPS POINT(%.12f, %.12f)" % (ra, dec),
                                         skymap=nm)
        r = obs.attempt(lambda: {(d["tract"], d["patch"]) for d in q})
        ctx.ev("point query")
        ctx.ok(r[0] == "ok" and (obs.num(t.getId()), obs.num(p.getSequentialIndex())) in r[1], "query",
               "patches recorded at (%r, %r): %r; want tract %d patch %d" % (
                   ra, dec, r[1], obs.num(t.getId()), obs.num(p.getSequentialIndex())), **wit)
    packs(ctx, nm, s, fresh, reader, num)


def packs(ctx, nm, s, m, reader, num):
    """Every recorded tract and patch fits in an ID packed with the recorded counts."""
    from lsst.daf.butler import DataCoordinate
    from lsst.skymap.packers import SkyMapDimensionPacker
    fixed = reader.registry.expandDataId(skymap=nm)
    pk = SkyMapDimensionPacker.from_config(fixed, SkyMapDimensionPacker.ConfigClass())
    got = set()
    n = 0
    for i, (nx, ny) in enumerate(num):
        for k in {0, nx*ny - 1, nx*ny//2}:
            d = DataCoordinate.standardize(skymap=nm, tract=i, patch=k, universe=reader.dimensions)
            v = pk.pack(d)
            ctx.ev("packed")
            n += 1
            got.add(v)
            u = pk.unpack(v)
            ctx.ok(v >= 0 and v.bit_length() <= pk.maxBits and (u["tract"], u["patch"], u["skymap"]) == (i, k, nm), "packed",
                   "tract %d patch %d packed as %d (of %d bits), unpacked as %r" % (i, k, v, pk.maxBits, u), spec=s)
    ctx.eq(len(got), n, "packed", "distinct packed ids", spec=s)


def region(ctx, s, what, code, t, w, box, rng):
    r = sphgeom.Region.decode(bytes.fromhex(code))
    if not ctx.ok(isinstance(r, sphgeom.ConvexPolygon), "region-kind", "%s has region %r" % (what, r), spec=s):
        return
    v = np.array([[q[0], q[1], q[2]] for q in r.getVertices()])
    x = np.array([box[0] - .5, box[2] + .5, box[2] + .5, box[0] - .5])
    y = np.array([box[1] - .5, box[1] - .5, box[3] + .5, box[3] + .5])
    want = w.p2v(x, y)
    if not np.isfinite(want).all() or not np.isfinite(v).all():
        return
    if s["projection"] not in ref.ZENITHAL and np.abs(w.p2s(x, y)[:, 1]).max() > 89.9:
        return
    ok = all(ref.sep(want, q).min() < 1e-7 for q in v) and (
        not c12.convex(want) or len(v) == 4 and all(ref.sep(v, q).min() < 1e-7 for q in want))
    ctx.ok(ok, "region", "%s: recorded region %r, corners of its pixels %r" % (what, v.tolist(), want.tolist()), spec=s)
    # the centre of its pixels is in it
    c = w.p2v([(box[0] + box[2])/2.0], [(box[1] + box[3])/2.0])[0]
    if ok and holds(want, c):
        ctx.ok(r.contains(sphgeom.UnitVector3d(*[float(q) for q in c])), "region-inside",
               "%s: the centre of its pixels is outside its recorded region" % what, spec=s)


def holds(v, c):
    """Is c well inside the convex polygon, by the reference?"""
    if not np.isfinite(c).all() or not c12.convex(v) or np.dot(v.sum(0), c) < 0:
        return False
    k = [float(np.dot(np.cross(v[i], v[(i + 1) % 4]), c)) for i in range(4)]
    return all(q > 1e-6*abs(k[0]) + 1e-12 for q in k) or all(q < -1e-6*abs(k[0]) - 1e-12 for q in k)
