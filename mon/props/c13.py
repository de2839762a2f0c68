"""Answers do not depend on what was asked before, of this map or of any other."""
import copy
import math
import pickle

import lsst.sphgeom as sphgeom
import numpy as np

from .. import gen, obs, pristine, ref

RULE = ("Two or three maps (sometimes sharing one configuration object, sometimes equal, sometimes differing in one "
        "field) receive one random interleaved history of 30 to 120 operations, including changing returned boxes and "
        "arrays, reusing and changing input arrays, dropping and re-reading tracts.  Every answer is compared with the "
        "answer of a fresh map asked only that.  Non-trivial: a distinct (operation, previous operation, map kinds).")
ASSUMPTIONS = ["positions, polygons and WCSs are immutable in the stack"]
REQUIRED_EVENTS = ("operation", "same question of another map", "close positions on the sides of a step", "returned value changed", "input unchanged", "fresh answer")


def cases(tier):
    n = 250 if tier == "quick" else 2500
    return [("history", {"k": k}) for k in range(n)] + [("production", {"k": k}) for k in range(n//20)]


def canon(v):
    """Plain value of anything an operation returns."""
    if v is None or isinstance(v, (bool, str, bytes, float)):
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, np.ndarray):
        return ["array", v.tolist()]
    if hasattr(v, "getVertexList") and hasattr(v, "getNumPatches"):
        return obs.tract(v)
    if hasattr(v, "getNumCells"):
        return obs.patch(v)
    if hasattr(v, "getSequentialIndex"):
        return obs.cell(v)
    if hasattr(v, "getVertices") or hasattr(v, "getLon"):
        return obs.region(v)
    if isinstance(v, (list, tuple)):
        return [canon(q) for q in v]
    if hasattr(v, "getMinX"):
        return obs.rbox(v)
    return repr(v)


def random_op(rng, spec, n, dims):
    """An operation as plain data: (name, arguments)."""
    i = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n), rng.randrange(min(n, 3))])
    k = rng.random()
    if k < 0.12:
        return ("tract", i)
    if k < 0.22:
        return ("find", gen.sky(rng))
    if k < 0.28:
        c = [gen.sky(rng) for _ in range(rng.choice([1, 3, 10]))]
        return ("array", [q[0] % 360 for q in c], [q[1] for q in c], rng.random() < 0.5)
    if k < 0.33 and spec["cls"] == "rings":
        return ("all", gen.sky(rng))
    if k < 0.43:
        return ("patch", i, rng.random(), rng.random(), rng.choice(["pair", "seq"]))
    if k < 0.50:
        return ("findpatch", i, rng.uniform(-0.05, 1.05), rng.uniform(-0.05, 1.05))
    if k < 0.56:
        return ("patchlist", i, [(rng.uniform(-.1, 1.1), rng.uniform(-.1, 1.1)) for _ in range(rng.choice([1, 2, 4]))])
    if k < 0.60:
        return ("tractpatch", i, rng.random(), rng.random(), rng.choice(["all", "closest"]))
    if k < 0.68:
        return ("polygon", i, rng.random(), rng.random(), rng.choice(["tract", "inner", "outer", "region", "region"]))
    if k < 0.72:
        return ("cell", i, rng.random(), rng.random(), rng.random(), rng.random())
    if k < 0.75:
        return ("sha1",)
    if k < 0.78:
        return ("len",)
    if k < 0.81:
        return ("contains", i, gen.sky(rng))
    if k < 0.84:
        return ("bad", rng.choice(["index", "patch", "findpatch"]), i)
    if k < 0.88:
        return ("grow", i, rng.choice(["bbox", "inner", "outer", "celli", "cello", "dims", "patchdims", "celldims",
                                       "vertices", "region"]))
    if k < 0.91:
        return ("roundtrip", rng.choice(["pickle", "copy", "deepcopy"]), i)
    if k < 0.94:
        return ("iter", rng.choice([1, 2, 5]))
    if k < 0.96:
        return ("equal", rng.randrange(3))
    if k < 0.97:
        return ("repr", i)
    if k < 0.985:
        return ("burst", i, rng.choice(["contains", "find", "patch", "list"]),
                [(rng.uniform(-1.0, 2.0), rng.uniform(-1.0, 2.0)) for _ in range(rng.choice([8, 30]))])
    return ("scribble", rng.choice(["array", "list"]), i)


def perform(m, op, others, ctx=None):
    """Apply an operation; returns a plain value."""
    k = op[0]
    if k == "tract":
        return obs.tract(m[op[1]])
    if k == "find":
        return obs.tract(m.findTract(gen.sp(*op[1])))
    if k == "array":
        ra, dec = np.array(op[1]), np.array(op[2])
        if not op[3]:
            ra, dec = np.deg2rad(ra), np.deg2rad(dec)
        c = (ra.copy(), dec.copy())
        out = m.findTractIdArray(ra, dec, degrees=op[3])
        if ctx is not None:
            ctx.ev("input unchanged")
            ctx.ok(np.array_equal(ra, c[0]) and np.array_equal(dec, c[1]), "input", "findTractIdArray changed its input")
        res = [int(q) for q in out]
        if ctx is not None:      # others made while this one is kept, of as many positions and on maps with as much in common
            for o in [m] + list(others or ())[:2]:
                for r in (ra[::-1].copy() + 0.5, np.where(ra > 3, ra - 3, ra + 1)):
                    obs.attempt(o.findTractIdArray, r, -dec, degrees=op[3])
            ctx.ev("answer kept")
            ctx.eq([int(q) for q in out], res, "kept", "an array of tract numbers kept while others were made", op=repr(op))
        ra[:] = 0.0
        out[:] = 0      # the caller owns both
        return res
    if k == "all":
        return sorted(int(t.getId()) for t in m.findAllTracts(gen.sp(*op[1])))
    t = m[op[1]] if len(op) > 1 and isinstance(op[1], int) and k not in ("iter", "equal") else None
    if k == "patch":
        p = pick(t, op[2], op[3])
        return obs.patch(t.getPatchInfo(p if op[4] == "pair" else p[1]*t.getNumPatches()[0] + p[0]))
    if k == "patchsky":
        r = obs.attempt(t.findPatch, gen.sp(*op[2]))
        return obs.pair(r[1].getIndex()) if r[0] == "ok" else r[1].__name__
    if k == "findpatch":
        r = obs.attempt(t.findPatch, at(t, op[2], op[3]))
        return obs.patch(r[1]) if r[0] == "ok" else r[1].__name__
    if k == "patchlist":
        pts = [at(t, *q) for q in op[2]]
        c = list(pts)
        out = t.findPatchList(pts)
        if ctx is not None:
            ctx.ev("input unchanged")
            ctx.ok(pts == c, "input", "findPatchList changed its input")
        return sorted(obs.pair(p.getIndex()) for p in out)
    if k == "tractpatch":
        pts = [at(t, op[2], op[3])]
        f = m.findTractPatchList if op[4] == "all" else m.findClosestTractPatchList
        return sorted([int(a.getId()), sorted(obs.pair(p.getIndex()) for p in b)] for a, b in f(pts))
    if k == "polygon":
        p = t.getPatchInfo(pick(t, op[2], op[3]))
        f = {"tract": t.getOuterSkyPolygon, "inner": p.getInnerSkyPolygon, "outer": p.getOuterSkyPolygon,
             "region": t.getInnerSkyRegion}[op[4]]
        r = obs.attempt(f)
        return obs.region(r[1]) if r[0] == "ok" else r[1].__name__
    if k == "cell":
        p = t.getPatchInfo(pick(t, op[2], op[3]))
        nx, ny = p.getNumCells()
        r = obs.attempt(p.getCellInfo, (int(op[4]*nx), int(op[5]*ny)))
        return obs.cell(r[1]) if r[0] == "ok" else r[1].__name__
    if k == "sha1":
        return m.getSha1().hex()
    if k == "len":
        return len(m)
    if k == "contains":
        return bool(t.contains(gen.sp(*op[2])))
    if k == "bad":
        if op[1] == "index":
            return obs.attempt(m.__getitem__, len(m))[0]
        t = m[op[2]]
        if op[1] == "patch":
            return obs.attempt(t.getPatchInfo, tuple(t.getNumPatches()))[0]
        c = t.getCtrCoord()
        v = -gen.pvec(c)
        return obs.attempt(t.findPatch, gen.spvec(v))[0]
    if k == "grow":
        p = t.getPatchInfo((0, 0))
        w = op[2]
        c = p.getCellInfo((0, 0)) if p.getNumCells()[0] else None
        held = [obs.tract(t), obs.patch(p), c and obs.cell(c)]
        if w == "bbox":
            t.getBBox().grow(7)
            b = t.bbox
            b.grow(3)
        elif w == "inner":
            p.getInnerBBox().grow(5)
        elif w == "outer":
            p.getOuterBBox().grow(5)
        elif w == "dims":
            d = t.getBBox().getDimensions()
            d.setX(1)
        elif w == "patchdims":
            t.getPatchInnerDimensions().setX(3)
            t.patch_inner_dimensions.setY(3)
        elif w == "vertices":
            for v in (t.getVertexList(), t.vertex_list):
                if isinstance(v, list):
                    v.reverse()
                    v.pop()
        elif w == "region":
            for r in (t.getInnerSkyRegion, p.getInnerSkyPolygon, t.getOuterSkyPolygon):
                r = obs.attempt(r)
                if r[0] == "ok" and hasattr(r[1], "dilateBy"):      # a box
                    r[1].dilateBy(sphgeom.Angle(0.1))
                elif r[0] == "ok":
                    r[1].getVertices().clear()
        elif w == "celldims":
            p.getCellInnerDimensions().setX(3)
        elif c:
            (c.getInnerBBox() if w == "celli" else c.getOuterBBox()).grow(4)
            (c.inner_bbox if w == "celli" else c.outer_bbox).grow(4)
        if ctx is not None:
            ctx.ev("returned value changed")
            now = [obs.tract(t), obs.patch(p), c and obs.cell(c)]
            ctx.eq(now, held, "alias", "the tract, patch and cell whose %s was changed by the caller" % w, op=repr(op))
        return [obs.tract(m[op[1]]), obs.patch(m[op[1]].getPatchInfo((0, 0)))]
    if k == "roundtrip":
        c = {"pickle": lambda: pickle.loads(pickle.dumps(m)), "copy": lambda: copy.copy(m),
             "deepcopy": lambda: copy.deepcopy(m)}[op[1]]()
        return [bool(c == m), obs.tract(c[op[2]])]
    if k == "iter":
        out = []
        for t in m:
            out.append(int(t.getId()))
            if len(out) >= op[1]:
                break
        return out
    if k == "equal":
        return bool(m == others[op[1] % len(others)])
    if k == "repr":
        return [str(m[op[1]]), repr(m[op[1]]), repr(m[op[1]].getPatchInfo((0, 0)))]
    if k == "burst":
        # positions made for one question each and dropped before the next; kept when asking the fresh map
        f = {"contains": lambda c: bool(t.contains(c)), "find": lambda c: obs.num(m.findTract(c).getId()),
             "patch": lambda c: obs.patch(t.findPatch(c)), "list": lambda c: [obs.pair(p.getIndex()) for p in t.findPatchList([c])]}
        where = [key(at(t, *q)) for q in op[3]]
        keep, out = [], []
        for a, d in where:
            if not math.isfinite(a + d):
                continue
            if ctx is None:
                keep.append(gen.sp(a, d))
                r = obs.attempt(f[op[2]], keep[-1])
            else:
                ctx.ev("short-lived position")
                r = obs.attempt(f[op[2]], gen.sp(a, d))
            out.append(r[1] if r[0] == "ok" else r[1].__name__)
            del r       # an exception would keep the position
        return out
    if k == "scribble":
        if op[1] == "list":
            pts = [m[op[2]].getCtrCoord()]
            r = m.findTractPatchList(pts)
            n = len(r)
            r.clear()
            pts.clear()
            return n
        ids = m.findTractIdArray(np.array([1.0]), np.array([0.5]))
        ids[0] = 99
        return [int(q) for q in m.findTractIdArray(np.array([1.0]), np.array([0.5]))]
    raise AssertionError(k)


def alone(specs, j, op):
    """The answer of a map that has been asked nothing else, in a process that has made no other map."""
    m = gen.build(specs[j])
    o = [gen.build(s) for s in specs] if op[0] == "equal" else None
    return perform(m, op, o)


def step(specs, j, what, i, a, b):
    """Two positions, next to each other, on the sides of a step of one of the answers between a and b; None without."""
    g = {"find": lambda m, q: m.findTract(q).getId(), "contains": lambda m, q: bool(m[i].contains(q)),
         "patchsky": lambda m, q: obs.pair(m[i].findPatch(q).getIndex())}[what]
    t = gen.build(specs[j])[i]

    def f(q):
        return g(gen.build(specs[j]), q)
    a, b = [gen.pvec(gen.sp(*q) if what == "find" else at(t, *q)) for q in (a, b)]
    fa = f(gen.spvec(a))
    if fa == f(gen.spvec(b)):
        return None
    for _ in range(45):
        c = a + b
        c = c/math.sqrt(float(c @ c))
        if f(gen.spvec(c)) == fa:
            a = c
        else:
            b = c
    return key(gen.spvec(a)), key(gen.spvec(b))


def twins(specs, j, n, rng):
    """The same question of two positions close to each other, often on the two sides of a step of the answer."""
    what = rng.choice(["find", "find", "contains", "patchsky"])
    i = rng.randrange(n)
    e = 10**rng.uniform(-11, -2)
    if rng.random() < 0.7:
        if what == "patchsky":
            a, b = (rng.random(), rng.random()), (rng.random(), rng.random())
        elif what == "contains":
            a, b = (rng.uniform(.3, .7), rng.uniform(.3, .7)), (rng.choice([-.2, 1.2]), rng.uniform(-.2, 1.2))
        else:
            a, b = gen.sky(rng), gen.sky(rng)
        try:
            s = pristine.ask(step, specs, j, what, i, a, b)
        except pristine.Raised:
            s = None
        if s:
            # the two sides, moved apart along the line that joins the places asked about
            (p, q) = s
            d = (rng.gauss(0, 1)*e, rng.gauss(0, 1)*e)
            ps = [(p[0] + d[0], p[1] + d[1]), (q[0] - d[0], q[1] - d[1])]
            ps = [(r, max(-90.0, min(90.0, c))) for r, c in ps] + [p, q]
            rng.shuffle(ps)
            return [make(what, i, r) for r in ps], True
    p = gen.sky(rng)
    q = (p[0] + e*rng.choice([-1, 1]), max(-90.0, min(90.0, p[1] + e*rng.choice([-1, 1]))))
    return [make(what, i, r) for r in (p, q)], False


def make(what, i, p):
    return ("find", p) if what == "find" else (what, i, p)


def key(c):
    return c.getLongitude().asDegrees(), c.getLatitude().asDegrees()


def pick(t, fx, fy):
    nx, ny = t.getNumPatches()
    return (min(nx - 1, int(fx*nx)), min(ny - 1, int(fy*ny)))


def at(t, fx, fy):
    b = t.getBBox()
    return t.getWcs().pixelToSky(fx*(b.getMaxX() + 1) - 0.25, fy*(b.getMaxY() + 1) - 0.25)


def run_case(ctx, name, params, rng):
    pristine.start()
    if name == "production":
        specs = [gen.production(rng.choice(gen.PRODUCTION)["name"]) for _ in range(2)]
    else:
        s = gen.spec_random(rng, max_rings=12)
        specs = [s, rng.choice([dict(s), gen.spec_random(rng, max_rings=12), neighbour(s, rng)])]
        if rng.random() < 0.3:
            specs.append(neighbour(s, rng))
    share = rng.random() < 0.3 and specs[0]["cls"] == specs[1]["cls"]
    if share:
        v = specs[1].get("version")
        specs[1] = dict(specs[0], version=v) if specs[0]["cls"] == "rings" else dict(specs[0])
    cfg = gen.make_config(specs[0])
    maps = [gen.build(s, config=cfg if j < 2 and share else None) for j, s in enumerate(specs)]
    fresh_cache = {}

    def fresh(j, op):
        return pristine.ask(alone, specs, j, op)
    lens = [len(m) for m in maps]
    n = rng.randint(30, 60) if not ctx.thorough else rng.randint(40, 120)
    prev = None
    script = []
    todo = []
    for _ in range(n):
        j = rng.randrange(len(maps))
        if not todo and rng.random() < 0.06:
            pair, stepped = twins(specs, j, lens[j], rng)
            todo = [(j, q) for q in pair]
            ctx.ev("close positions on the sides of a step" if stepped else "close positions")
        if todo and rng.random() < 0.8:
            j, op = todo.pop()
        elif script and rng.random() < 0.18 and script[-1][1][0] != "equal":
            # the same question of another map
            op = script[-1][1]
            j = rng.choice([q for q in range(len(maps)) if q != script[-1][0]])
            if len(op) > 1 and isinstance(op[1], int) and op[1] >= lens[j] or op[0] in ("all", "burst") and specs[j]["cls"] != "rings":
                continue
            if op[0] in ("bad", "roundtrip", "scribble") and op[2] >= lens[j]:
                continue
            ctx.ev("same question of another map")
        elif script and rng.random() < 0.15:
            j, op = rng.choice(script)       # ask the same again
        else:
            op = random_op(rng, specs[j], lens[j], None)
        if specs[j]["name"] if "name" in specs[j] else False:
            if op[0] == "tractpatch" and lens[j] > 1000 and specs[j]["cls"] != "rings":
                continue
        script.append((j, op))
        got = run(maps[j], op, maps, ctx)
        ctx.ev("operation")
        ctx.ev("answer: raised" if isinstance(got, tuple) else "answer: " + op[0])
        key = (j, repr(op))
        if key not in fresh_cache:
            fresh_cache[key] = run_fresh(fresh, j, op)
            ctx.ev("fresh answer")
        if not ctx.ok(same(got, fresh_cache[key]), "history", "%s on map %d after %d operations: %s, fresh map: %s" % (
                op, j, len(script), short(got), short(fresh_cache[key])), specs=specs, script=script[-12:]):
            pass
        ctx.seen(op[0], prev, specs[j]["cls"], specs[j]["builder"])
        prev = op[0]
    # finally, everything again from the end state
    for (j, op) in rng.sample(script, min(12, len(script))):
        got = run(maps[j], op, maps, ctx)
        ctx.ok(same(got, fresh_cache[(j, repr(op))]), "history-end", "%s on map %d at the end: %s, fresh map: %s" % (
            op, j, short(got), short(fresh_cache[(j, repr(op))])), specs=specs)
    ctx.sample(specs=[gen.label(s) for s in specs], script=[o for _, o in script[:10]])


def same(a, b):
    return repr(a) == repr(b)


def short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def run(m, op, maps, ctx):
    r = obs.attempt(perform, m, op, maps, ctx)
    if r[0] == "exc":
        from ..core import StopCase
        if issubclass(r[1], StopCase):
            raise r[2]
        return ("raised", r[1].__name__)
    return r[1]


def run_fresh(fresh, j, op):
    try:
        return fresh(j, op)
    except pristine.Raised as e:
        return ("raised", e.name)


def neighbour(s, rng):
    """The same map with one thing different, by much or by almost nothing."""
    t = dict(s)
    if rng.random() < 0.5:
        keys = [k for k in ("tractOverlap", "pixelScale", "rotation", "raStart", "raList", "decList", "radiusList", "decRange",
                            "withTractsOnPoles", "nest") if k in s]
        place = [k for k in keys if k in ("raStart", "raList", "decList", "decRange", "withTractsOnPoles", "nest")]
        k = rng.choice(place if place and rng.random() < 0.5 else keys)
        e = 10**rng.uniform(-9, -3)
        if isinstance(s[k], bool):
            t[k] = not s[k]
        elif isinstance(s[k], (list, tuple)):
            i = rng.randrange(len(s[k]))
            t[k] = [v*(1 - e) + (1e-9 if v == 0 else 0.0) if j == i else v for j, v in enumerate(s[k])]
        elif k == "raStart":
            t[k] = (s[k] + rng.choice([e, 90.0, 7.0])) % 360
        else:
            t[k] = s[k]*(1 + e) + (1e-9 if s[k] == 0 else 0.0)
        return t
    k = rng.choice(["tractOverlap", "pixelScale", "rotation", "turn", "border", "dims"])
    if k == "tractOverlap":
        t[k] = s[k]*0.5 + 0.001
    elif k == "pixelScale":
        t[k] = s[k]*1.5
    elif k == "rotation":
        t[k] = s[k] + 90.0
    elif k == "turn":
        t["rotation"] = -s["rotation"] if s["rotation"] % 180 else s["rotation"] + 180.0
    elif s["builder"] == "legacy":
        if k == "border":
            t[k] = s[k] + 1
        else:
            t[k] = [s[k][0] + 3, s[k][1]]
    else:
        t["cellBorder"] = s["cellBorder"] + 1
    return t
