"""Map and patch-layout types of one's own get lookups, sequences, caching, identity and registration right."""
import copy
import io
import logging
import pickle
import types

import numpy as np

from .. import gen, obs, ref
from ..repo import Repo, state

RULE = ("Types written for the purpose: maps made on demand or at once, with their own owner rule, tract numbers or tract type, "
        "derived from built-in maps, and patch layouts with their own grid, numbering and borders, under random settings and on "
        "every kind of built-in map.  Every inherited operation is compared with its definition in terms of what the type "
        "itself says; tracts that fail to be made are asked for again.  Non-trivial: a distinct (type, operation, shape).")
ASSUMPTIONS = ["types use the documented extension points only: generateTract, findTract, updateSha1, getPatchInfo, setupPatches "
               "and the like"]
ROUNDS = 2
REQUIRED_EVENTS = ("nearest centre", "own owner rule", "own numbers", "tract not made", "made on second try", "region query",
                   "own layout", "same layout, other digest", "registered", "not written", "pickled", "derived", "own constructor", "by name")


def cases(tier):
    n = 12 if tier == "quick" else 120
    out = []
    for k in range(n):
        out += [("maps", {"type": t, "k": k}) for t in ("scatter", "listed", "bylongitude", "numbered")]
        out += [("layout", {"kind": c, "k": k}) for c in gen.ALL]
        out += [("broken", {"k": k}), ("tracts", {"k": k}), ("identity", {"k": k}), ("derived", {"k": k})]
    out += [("register", {"type": t, "k": k}) for k in range(n//4) for t in ("scatter", "listed")]
    return out + [("missing", {"k": k}) for k in range(2)]


def prepare(tier):
    from ..repo import template
    template()


def run_case(ctx, name, params, rng):
    globals()["do_" + name](ctx, params, rng)


# ------------------------------------------------------------------ making
def settings(rng, n=None):
    n = n or rng.choice([1, 2, 3, 5, 9, 20])
    s = dict(raList=[rng.choice([0.0, 359.9, rng.uniform(0, 360), rng.uniform(0, 360)]) for _ in range(n)],
             decList=[rng.choice([0.0, 88.0, -80.0, rng.uniform(-89, 89), rng.uniform(-60, 60)]) for _ in range(n)],
             size=rng.choice([0.2, 1.0, 5.0]), tractOverlap=rng.choice([0.0, 0.1, 0.5]),
             projection=rng.choice(["TAN", "STG", "ZEA"]), rotation=rng.choice([0.0, 0.0, 45.0, rng.uniform(0, 360)]))
    while len(set(zip(s["raList"], s["decList"]))) < n:
        s["raList"] = [rng.uniform(0, 360) for _ in range(n)]
    s["pixelScale"] = 2*(s["size"] + s["tractOverlap"])*3600/rng.choice([60, 250, 400])
    s["builder"] = rng.choice(["legacy", "cells", "verif-own", "verif-salted"])
    s["dims"] = rng.choice([[100, 100], [100, 60], [37, 90]])
    s["border"] = rng.choice([0, 5, 20])
    return s


def layout(config, s):
    """Choose the patch layout ``s`` asks for."""
    config.tractBuilder = s["builder"]
    b = config.tractBuilder[s["builder"]]
    if s["builder"] == "cells":
        b.cellInnerDimensions = [s["dims"][0]]*2
        b.cellBorder = s["border"]
        b.numCellsPerPatchInner = 2
    elif s["builder"] == "verif-own":
        b.size, b.left, b.right = s["dims"], s["border"], s["border"] + s.get("more", 2)
    else:
        b.patchInnerDimensions, b.patchBorder = s["dims"], s["border"]
        if s["builder"] == "verif-salted":
            b.salt = s.get("salt", 0)


def config_of(cls, s):
    c = cls.ConfigClass()
    for k in ("raList", "decList", "size", "tractOverlap", "pixelScale", "projection", "rotation"):
        setattr(c, k, s[k])
    layout(c, s)
    return c


def ids(ts):
    return [obs.num(t.getId()) for t in ts]


def answer(res):
    return [(obs.num(t.getId()), [obs.patch(p) for p in ps]) for t, ps in res]


def positions(rng, s, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.5:
            out.append(gen.sky(rng))
        else:
            k = rng.randrange(len(s["raList"]))
            d = s["size"]*rng.choice([0.0, 0.3, 1.0, 1.5])
            v = ref.offset(s["raList"][k], s["decList"][k], np.array([rng.uniform(0, 360)]), np.array([d]))
            a, b = ref.lonlat(v[0])
            out.append((float(a), float(b)))
    return out


# ------------------------------------------------------------------ map types
def do_maps(ctx, params, rng):
    from .. import extend
    cls = extend.MAPS[params["type"]]
    s = settings(rng)
    n = len(s["raList"])
    m = cls(config_of(cls, s))
    wit = dict(type=params["type"], settings=s)
    lazy = params["type"] != "listed"
    base = 1000 if params["type"] == "numbered" else 0
    # what the type itself says
    truth = [extend.make_tract(m.config, i) for i in range(n)]
    made = m.made if lazy else []
    for f in (lambda: len(m), m.getSha1, lambda: hash(m), lambda: m == m, lambda: m != m):
        f()
    ctx.eq(list(made), [], "made-early", "tracts made", **wit)
    want_owner = owners(params["type"], s)
    ops = ["array", "single", "list", "closest", "iterate", "index", "log", "pickle"]
    rng.shuffle(ops)
    for op in ops:
        pts = positions(rng, s, rng.choice([1, 2, 3, 6]))
        coords = [gen.sp(*p) for p in pts]
        own = [want_owner(p) for p in pts]
        sure = all(len(o) == 1 for o in own)
        if op == "single":
            for p, c, o in zip(pts, coords, own):
                t = m.findTract(c)
                ctx.ev("nearest centre" if params["type"] != "bylongitude" else "own owner rule")
                ctx.ok(obs.num(t.getId()) - base in o, "owner", "tract %r for %r, want %r" % (t.getId(), p, o), **wit)
                ctx.ok(any(t is u for u in m), "same-tract", "tract %r is not one of the map's" % (t.getId(),), **wit)
        elif op == "array":
            pts = positions(rng, s, 40)
            own = [want_owner(p) for p in pts]
            deg = rng.random() < 0.5
            a = np.array(pts) if deg else np.radians(np.array(pts))
            got = m.findTractIdArray(a[:, 0], a[:, 1], degrees=deg)
            ctx.ev("nearest centre" if params["type"] != "bylongitude" else "own owner rule", len(pts))
            ctx.ok(np.shape(got) == (40,), "array-shape", "shape %r" % (np.shape(got),), **wit)
            bad = [(p, int(g), o) for p, g, o in zip(pts, got, own) if int(g) - base not in o]
            ctx.eq(bad, [], "array-owner", "array lookup", **wit)
            one = m.findTractIdArray(a[0, 0], a[0, 1], degrees=deg)
            ctx.ok(np.ravel(one)[0] == got[0], "array-scalar", "scalar lookup gave %r, want %r" % (one, got[0]), **wit)
        elif op == "list":
            if any(obs.attempt(u.findPatchList, coords)[0] != "ok" for u in truth):
                continue             # a position whose pixel is beyond any box
            got = obs.attempt(m.findTractPatchList, coords)
            want = [(base + i, [obs.patch(p) for p in t.findPatchList(coords)]) for i, t in enumerate(truth)]
            want = [w for w in want if w[1]]
            ctx.ev("region query")
            ctx.ok(got[0] == "ok", "region", "region query: %r" % (got,), **wit)
            ctx.eq(answer(got[1]), want, "region", "tracts and patches near %r" % (pts,), **wit)
        elif op == "closest" and sure:
            if any(obs.attempt(u.findPatchList, coords)[0] != "ok" for u in truth):
                continue
            want = []
            for o in own:
                i = next(iter(o))
                ps = [obs.patch(p) for p in truth[i].findPatchList(coords)]
                if ps and base + i not in [w[0] for w in want]:
                    want.append((base + i, ps))
            ctx.ev("region query")
            ctx.eq(answer(m.findClosestTractPatchList(coords)), want, "closest", "owners and patches near %r" % (pts,), **wit)
        elif op == "iterate":
            ctx.eq(ids(m), [base + i for i in range(n)], "iterate", "ids met", **wit)
            ctx.ev("own numbers" if base else "iterated")
            a, b = iter(m), iter(m)
            first = next(a)
            ctx.eq(ids(b), [base + i for i in range(n)], "interleave", "ids met by a second iteration", **wit)
            ctx.eq(ids([first] + list(a)), [base + i for i in range(n)], "interleave", "ids met by the first", **wit)
        elif op == "index":
            for i in {0, n - 1, rng.randrange(n)}:
                for j in (i, np.int64(i)):
                    t = m[j]
                    ctx.ok(t is m[i], "index-same", "not the same tract at %r twice" % (j,), **wit)
                    ctx.eq(obs.tract(t)[2:], obs.tract(truth[i])[2:], "index", "tract at %r" % (j,), **wit)
            for j in (n, n + 7):
                e = obs.attempt(m.__getitem__, j)
                ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "past-end", "tract %d of %d: %r" % (j, n, e), **wit)
        elif op == "log":
            out = io.StringIO()
            lg = logging.Logger("verif", level=logging.INFO)
            lg.addHandler(logging.StreamHandler(out))
            m.logSkyMapInfo(lg)
            lines = out.getvalue().splitlines()
            ctx.ok(len(lines) == n + 1 and all("tract %d " % (base + i) in ln for i, ln in enumerate(lines[1:])), "log",
                   "log %r" % (lines[:4],), **wit)
        elif op == "pickle":
            ctx.ev("pickled")
            for c in (pickle.loads(pickle.dumps(m)), copy.deepcopy(m)):
                ctx.ok(type(c) is cls and c == m and not c != m and hash(c) == hash(m), "pickle", "a copy differs", **wit)
                ctx.eq(ids(c), [base + i for i in range(n)], "pickle", "ids of a copy", **wit)
        ctx.seen(params["type"], op, n, s["builder"])
    if lazy:
        ctx.ok(len(set(made)) == len(made) and all(type(i) is int for i in made), "made-twice", "tracts made: %r" % (made,),
               **wit)
    ctx.sample(type=params["type"], tracts=n)


def owners(kind, s):
    """Position -> the places of the tracts it may be said to belong to."""
    n = len(s["raList"])
    cen = np.array([ref.vec(a, d) for a, d in zip(s["raList"], s["decList"])])

    def nearest(p):
        d = ref.sep(cen, ref.vec(*p))
        return set(np.flatnonzero(d <= d.min() + 1e-7).tolist())

    def slice_(p):
        x = p[0] % 360.0/(360.0/n)
        return {min(n - 1, int(y)) % n for y in (x - 1e-9, x, x + 1e-9) if y >= 0} | ({n - 1, 0} if x < 1e-9 or x > n - 1e-9
                                                                                       else set())
    return slice_ if kind == "bylongitude" else nearest


class Trouble(Exception):
    pass


def do_broken(ctx, params, rng):
    """A tract that cannot be made now: the error is the type's own, nothing is kept, and the rest go on working."""
    from .. import extend
    s = settings(rng, rng.choice([2, 4, 8]))
    n = len(s["raList"])
    m = extend.Scatter(config_of(extend.Scatter, s))
    bad = rng.randrange(n)
    err = rng.choice([Trouble("now"), ValueError("now"), LookupError("now"), IndexError("now"), RuntimeError("now"),
                      AttributeError("now"), TypeError("now"), KeyError("now")])
    m.broken[bad] = err
    wit = dict(settings=s, bad=bad, error=repr(err))
    before = [i for i in range(n) if i != bad and rng.random() < 0.5]
    for i in before:
        m[i]
    here = gen.sp(s["raList"][bad], s["decList"][bad])
    uses = [("index", lambda: m[bad]), ("iterate", lambda: list(m)), ("lookup", lambda: m.findTract(here)),
            ("array", lambda: m.findTractIdArray(np.array([10.0]), np.array([1.0]), degrees=True)),
            ("region", lambda: m.findTractPatchList([here])), ("closest", lambda: m.findClosestTractPatchList([here])),
            ("log", lambda: m.logSkyMapInfo(logging.Logger("verif", level=logging.INFO)))]
    for what, f in rng.sample(uses, 5):
        e = obs.attempt(f)
        ctx.ev("tract not made")
        ctx.ok(e[0] == "exc" and e[2] is err, "own-error", "%s when tract %d cannot be made: %r" % (what, bad, e), **wit)
        ctx.seen("broken", what, type(err).__name__)
    for i in range(n):
        if i != bad:
            ctx.eq(obs.num(m[i].getId()), i, "others", "tract %d of a map with a bad one" % i, **wit)
    ctx.eq(len(m), n, "others", "length", **wit)
    del m.broken[bad]
    tries = m.made.count(bad)
    t = m[bad]
    ctx.ev("made on second try")
    ctx.eq(obs.tract(t), obs.tract(extend.make_tract(m.config, bad)), "second-try", "tract made later", **wit)
    ctx.ok(m[bad] is t and m.made.count(bad) == tries + 1, "second-try", "made %d times more" % (m.made.count(bad) - tries), **wit)
    ctx.ok(all(m.made.count(i) == 1 for i in range(n) if i != bad), "made-twice", "tracts made: %r" % (m.made,), **wit)
    ctx.eq(ids(m), list(range(n)), "second-try", "ids met", **wit)
    ctx.ok(m.findTract(here) is t or s["decList"].count(s["decList"][bad]) > 1, "second-try", "lookup at the centre", **wit)


def do_identity(ctx, params, rng):
    """Maps are equal exactly when their types, settings and layouts are."""
    from .. import extend
    s = settings(rng, rng.choice([1, 3]))
    variants = [("same", {}, "scatter", True), ("type", {}, "twin", False), ("size", {"size": s["size"]*1.5}, "scatter", False),
                ("scale", {"pixelScale": s["pixelScale"]*1.01}, "scatter", False),
                ("overlap", {"tractOverlap": s["tractOverlap"] + 0.01}, "scatter", False),
                ("projection", {"projection": "ARC"}, "scatter", False),
                ("rotation", {"rotation": s["rotation"] + 1.0}, "scatter", False),
                ("border", {"border": s["border"] + 1}, "scatter", False),
                ("centre", {"decList": [d + 0.5 for d in s["decList"]]}, "scatter", False)]
    if s["builder"] == "verif-own":
        variants.append(("more", {"more": 9}, "scatter", False))
    if s["builder"] == "verif-salted":
        variants.append(("salt", {"salt": 3}, "scatter", False))
        variants.append(("layout", {"builder": "legacy"}, "scatter", False))
    make = {k: extend.MAPS[k] for k in ("scatter", "twin")}
    a = make["scatter"](config_of(make["scatter"], s))
    for what, change, kind, same in variants:
        b = make[kind](config_of(make[kind], dict(s, **change)))
        wit = dict(settings=s, change=change, type=kind)
        ctx.eq((a == b, b == a, a != b, b != a), (same, same, not same, not same), "equal", "maps that differ by %s" % what, **wit)
        ctx.eq(a.getSha1() == b.getSha1(), same, "digest", "digests of maps that differ by %s" % what, **wit)
        if same:
            ctx.eq(hash(a), hash(b), "hash", "hashes", **wit)
        ctx.ev("same layout, other digest" if what == "salt" else "compared")
        ctx.seen("identity", what, s["builder"])
    want = pickle.loads(pickle.dumps(a)).getSha1()
    ctx.eq(a.getSha1(), want, "digest", "digest of a restored map", settings=s)
    ctx.ok(len(want) == 20 and isinstance(want, bytes), "digest", "digest %r" % (want,), settings=s)
    # by name, as a pipeline would make them
    from lsst.skymap import skyMapRegistry
    import lsst.pex.config as pexConfig

    class Holder(pexConfig.Config):
        skyMap = skyMapRegistry.makeField(doc="which map", default="verif-scatter")
    h = Holder()
    kind = rng.choice(["scatter", "twin"])
    h.skyMap.name = "verif-" + kind
    c = h.skyMap.active
    for k in ("raList", "decList", "size", "tractOverlap", "pixelScale", "projection", "rotation"):
        setattr(c, k, s[k])
    layout(c, s)
    b = h.skyMap.apply()
    ctx.ev("by name")
    ctx.ok(type(b) is make[kind] and b == make[kind](config_of(make[kind], s)), "by-name", "map made by name is %r" % (b,),
           settings=s)


# ------------------------------------------------------------------ built-in types, derived
def do_derived(ctx, params, rng):
    from .. import extend
    s = gen.spec_random(rng, kinds=("discrete",), maxpatch=6)
    n = len(s["raList"])
    wit = dict(spec=s)
    a = gen.build(s)
    b, c = (k(gen.make_config(s)) for k in (extend.PlainDiscrete, extend.HalfDiscrete))
    ctx.ev("derived")
    ctx.ok(a != b and b != c and a != c and not a == b, "derived-equal", "maps of different types are equal", **wit)
    for i in range(n):
        ctx.eq(obs.tract(b[i]), obs.tract(a[i]), "derived-same", "tract %d of a type that changes nothing" % i, **wit)
        r = max(ref.sep(gen.pvec(v), gen.pvec(c[i].getCtrCoord())) for v in c[i].getVertexList())
        ctx.ok(abs(r - s["radiusList"][i]/2) < 1e-6, "derived-own", "vertices %r deg from the centre, own rule says %r" % (
            r, s["radiusList"][i]/2), **wit)
    pts = [gen.sky(rng) for _ in range(6)]
    coords = [gen.sp(*p) for p in pts]
    ctx.eq(ids([b.findTract(p) for p in coords]), ids([a.findTract(p) for p in coords]), "derived-same", "owners", **wit)
    want = obs.attempt(lambda: [(i, [obs.patch(p) for p in c[i].findPatchList(coords[:2])]) for i in range(n)])
    if want[0] == "ok":
        ctx.eq(answer(c.findTractPatchList(coords[:2])), [w for w in want[1] if w[1]], "derived-own", "region query", **wit)
    for m in (b, c):
        d = pickle.loads(pickle.dumps(m))
        ctx.ok(type(d) is type(m) and d == m, "derived-pickle", "restored map is a %s" % type(d).__name__, **wit)
        ctx.eq(obs.tract(d[n - 1]), obs.tract(m[n - 1]), "derived-pickle", "last tract of a restored map", **wit)
    ctx.seen("derived", gen.label(s))
    # built-in types with a constructor of their own
    kind = rng.choice(gen.ALL)
    s = gen.spec_random(rng, kinds=(kind,), maxpatch=4, max_rings=5)
    wit = dict(spec=s)
    plain = gen.build(s)
    cls = extend.NOTED[kind]
    c = gen.make_config(s)
    m = cls(c, s["version"]) if s.get("version") is not None else cls(c)
    want = ["%g" % s["pixelScale"], cls.__name__, len(plain)]
    ctx.eq(m.note, want, "derived-note", "note made", **wit)
    for how, d in (("pickle", pickle.loads(pickle.dumps(m, rng.randint(0, pickle.HIGHEST_PROTOCOL)))),
                   ("copy", copy.copy(m)), ("deepcopy", copy.deepcopy(m))):
        ctx.ev("own constructor")
        ctx.ok(type(d) is cls and d == m and not d != m, "derived-" + how, "restored map is a %s" % type(d).__name__, **wit)
        ctx.ok(d != plain, "derived-" + how, "equal to a map of the built-in type", **wit)
        ctx.eq(getattr(d, "note", None), want, "derived-note", "note of a map after %s" % how, **wit)
        i = rng.choice(obs.tract_ids(len(m), rng, 3))
        ctx.eq(obs.tract(d[i]), obs.tract(plain[i]), "derived-" + how, "tract %d" % i, **wit)
    ctx.seen("own constructor", gen.label(s))


def do_tracts(ctx, params, rng):
    """Tracts a type makes for itself, of any size down to a part of a pixel, with and without limits of the inner region."""
    from .. import extend
    for _ in range(6):
        spec = gen.spec_random(rng, kinds=("discrete",), maxpatch=5)
        ra, dec = rng.uniform(0, 360), rng.uniform(-85, 85)
        px = spec["pixelScale"]/3600
        if rng.random() < 0.5:      # patches of a few pixels, where a part of a pixel decides
            if spec["builder"] == "legacy":
                spec.update(dims=[rng.choice([1, 2, 3]), rng.choice([1, 2, 3])], border=rng.choice([0, 1]))
            else:
                spec.update(cell=[rng.choice([1, 2])]*2, cellBorder=1, perPatch=rng.choice([1, 2]), inBorder=rng.choice([0, 1]))
        w = ref.patch_inner(spec)
        spec["tractOverlap"] = rng.choice([0.0, 0.0, 0.3*px, 2.5*px])
        size = min(rng.choice([0.05, 0.2, 0.45, 0.7, 1.3, 3.1, rng.uniform(0, 3)*max(w)])*px, 15.0)
        how = rng.choice(["radius", "vertices"])
        vs = None
        if how == "vertices":
            k = rng.choice([3, 4, 5, 6])
            turn = rng.uniform(0, 360)
            vs = ref.offset(ra, dec, np.arange(k)*360.0/k + turn, np.full(k, size))
        corners = [[ra - 1.5, dec - 2.0], [ra + 2.5, dec + 1.0]] if rng.random() < 0.5 else None
        wit = dict(spec=spec, centre=[ra, dec], size=size, how=how, corners=corners)
        n = rng.randrange(9)
        t = extend.own_tract(spec, n, (ra, dec), radius=size if vs is None else None, vertices=vs, corners=corners)
        ctx.ev("tract of one's own")
        ctx.eq(t.getId(), n, "tract-id", "number", **wit)
        b = obs.rbox(t.getBBox())
        T = ref.RefTract(spec, (ra, dec), (ra, dec), radius=size if vs is None else None, vertices=vs)
        ctx.ok(b[:2] == [0, 0] and T.accept(obs.pair(t.getNumPatches()), (b[2] + 1, b[3] + 1), list(t.getWcs().getPixelOrigin())),
               "tract-geometry", "patches %r, box %r; wanted one of %r" % (obs.pair(t.getNumPatches()), b, T.options), **wit)
        extend.judge_inner(ctx, t, corners, wit)
        ctx.seen("own tract", how, spec["projection"], spec["builder"], corners is not None, size < px)


# ------------------------------------------------------------------ patch layouts
def do_layout(ctx, params, rng):
    """A built-in map with a patch layout of one's own."""
    from .. import extend  # noqa: F401
    while True:
        s = gen.spec_random(rng, kinds=(params["kind"],), builders=("legacy",), maxpatch=6, max_rings=6)
        if s["cls"] == "healpix":
            s["log2NSide"] = min(s["log2NSide"], 1)
        s["border"] = rng.choice([0, 4, 11])
        if min(s["dims"]) > 40:
            break
    config = gen.make_config(s)
    layout(config, dict(s, builder="verif-own", more=7))
    m = gen.build(s, config)
    plain = gen.build(s)
    n = len(m)
    wit = dict(spec=s)
    ctx.ok(m != plain and m == gen.build(s, config), "layout-equal", "maps of different layouts are equal", **wit)
    w, h = s["dims"]
    lo, hi = s["border"], s["border"] + 7
    chosen = obs.tract_ids(n, rng, 3)
    rng.shuffle(chosen)
    ts = {i: m[i] for i in chosen}       # all made before any is looked at
    for i in chosen:
        t, p = ts[i], plain[i]
        ctx.ev("own layout")
        px, py = p.getNumPatches()
        nx, ny = t.getNumPatches()
        ctx.ok(type(nx) is int and ny in (py, py + 1, py - 1) and px <= nx <= px + 2, "layout-grid", "grid %r, usually %r" % (
            (nx, ny), (px, py)), **wit)
        ctx.eq(obs.rbox(t.getBBox()), [0, 0, nx*w - 1, ny*h - 1], "layout-box", "box of tract %d" % i, **wit)
        ctx.eq(len(t), nx*ny, "layout-len", "patches", **wit)
        ctx.eq(obs.pair(t.getPatchInnerDimensions()), [w, h], "layout-dims", "inner size", **wit)
        ctx.eq(obs.num(t.getPatchBorder()), hi, "layout-border", "border", **wit)
        every = list(t)
        ctx.eq(sorted(obs.pair(q.getIndex()) for q in every), [[x, y] for x in range(nx) for y in range(ny)], "layout-iterate",
               "patches met", **wit)
        met = {tuple(obs.pair(q.getIndex())): q for q in every}
        for x, y in obs.patch_ids(nx, ny, rng, 8):
            k = x*ny + y
            want = ["patch", [x, y], k, [x*w, y*h, x*w + w - 1, y*h + h - 1],
                    [x*w - lo, y*h - lo, x*w + w - 1 + hi, y*h + h - 1 + hi], [0, 0], 0, [0, 0]]
            for q in (t[(x, y)], t[k], t.getPatchInfo((x, y)), t.getPatchInfo(k), met[(x, y)]):
                ctx.eq(obs.patch(q)[:5], want[:5], "layout-patch", "patch %r of tract %d" % ((x, y), i), **wit)
            ctx.eq(t.getSequentialPatchIndex(t[k]), k, "layout-number", "number of patch %r" % ((x, y),), **wit)
            ctx.eq(t.getSequentialPatchIndexFromPair((x, y)), k, "layout-number", "number of pair %r" % ((x, y),), **wit)
            ctx.eq(obs.pair(t.getPatchIndexPair(k)), [x, y], "layout-pair", "pair of number %d" % k, **wit)
            # inside and at the edge of the patch
            pix = (x*w + rng.uniform(-.3, w - .7), y*h + rng.uniform(-.3, h - .7))
            sky = t.getWcs().pixelToSky(*pix)
            if np.isfinite(sky.getLongitude().asRadians()) and not gen.singular(s, sky.getLatitude().asDegrees()):
                back = t.getWcs().skyToPixel(sky)
                if abs(back[0] - pix[0]) < 0.01 and abs(back[1] - pix[1]) < 0.01:
                    ctx.eq(obs.pair(t.findPatch(sky).getIndex()), [x, y], "layout-find", "patch at pixel %r" % (pix,), **wit)
                    got = sorted(obs.pair(q.getIndex()) for q in t.findPatchList([sky]))
                    ctx.eq(got, near(pix, w, h, nx, ny, hi), "layout-list", "patches within %d of pixel %r" % (hi, pix), **wit)
        for j in ((nx, 0), (0, ny), nx*ny):
            e = obs.attempt(t.__getitem__, j)
            ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "layout-refused", "patch %r: %r" % (j, e), **wit)
        ctx.seen("layout", s["cls"], nx, ny)
    d = pickle.loads(pickle.dumps(m))
    i = rng.choice(chosen)
    ctx.ok(d == m and obs.patch(d[i][0]) == obs.patch(m[i][0]) and obs.tract(d[i]) == obs.tract(m[i]), "layout-pickle",
           "restored map differs", **wit)


def near(pix, w, h, nx, ny, b):
    px, py = (int(np.floor(v + 0.5)) for v in pix)
    return [[x, y] for x in range(max(0, (px - b)//w), min(nx - 1, (px + b)//w) + 1)
            for y in range(max(0, (py - b)//h), min(ny - 1, (py + b)//h) + 1)]


# ------------------------------------------------------------------ the butler
def do_register(ctx, params, rng):
    from .. import extend
    cls = extend.MAPS[params["type"]]
    s = settings(rng, rng.choice([1, 2, 4]))
    m = cls(config_of(cls, s))
    with Repo() as r:
        m.register("mine", r.butler())
        st = state(r.root)
        wit = dict(type=params["type"], settings=s)
        ctx.ev("registered")
        sky, = st["skymap"]
        ctx.eq((sky["hash"], sky["tract_max"], sky["patch_nx_max"], sky["patch_ny_max"]),
               (m.getSha1().hex(), len(m), max(t.getNumPatches()[0] for t in m), max(t.getNumPatches()[1] for t in m)),
               "register-summary", "summary", **wit)
        ctx.eq(sorted(x["id"] for x in st["tract"]), list(range(len(m))), "register-tracts", "tracts", **wit)
        ctx.eq(sorted((x["tract"], x["id"], x["cell_x"], x["cell_y"]) for x in st["patch"]),
               sorted((i, p.getSequentialIndex(), *p.getIndex()) for i, t in enumerate(m) for p in t),
               "register-patches", "patches", **wit)
        ctx.eq({(x["tract"], x["id"]): x["region"] for x in st["patch"]},
               {(i, p.getSequentialIndex()): p.getOuterSkyPolygon().encode().hex() for i, t in enumerate(m) for p in t},
               "register-regions", "patch regions", **wit)
        back = r.reader().get("skyMap", skymap="mine", collections="skymaps")
        ctx.ok(type(back) is cls and back == m, "register-back", "stored map is a %s" % type(back).__name__, **wit)
        m.register("mine", r.butler())
        ctx.eq(state(r.root), st, "register-again", "state after registering again", **wit)
        ctx.seen("register", params["type"], s["builder"])


def do_missing(ctx, params, rng):
    """What a type forgot to say is reported, not made up."""
    from .. import extend
    from lsst.skymap.baseSkyMap import BaseSkyMap
    s = settings(rng, 3)
    a = extend.NoTracts(config_of(extend.NoTracts, s))
    b = extend.NoDigest(config_of(extend.NoDigest, s))
    c = config_of(extend.Scatter, dict(s, builder="legacy"))
    here = gen.sp(10.0, 20.0)
    for what, f in (("index", lambda: a[0]), ("iterate", lambda: list(a)), ("lookup", lambda: a.findTract(here)),
                    ("digest", b.getSha1), ("hash", lambda: hash(b)), ("base", lambda: BaseSkyMap(c).getSha1())):
        e = obs.attempt(f)
        ctx.ev("not written")
        ctx.ok(e[0] == "exc" and issubclass(e[1], NotImplementedError), "missing", "%s: %r" % (what, e))
        ctx.seen("missing", what)
    ctx.eq(len(a), 3, "missing", "length")
    ctx.eq(ids(b), [0, 1, 2], "missing", "tracts of a map without digest")
    for cls in (extend.NoLayout, extend.NoPacking):
        e = obs.attempt(lambda: extend.Scatter(types.SimpleNamespace(
            freeze=lambda: None, tractBuilder=types.SimpleNamespace(apply=lambda: cls(cls.ConfigClass()), name="x"),
            raList=[1.0], decList=[2.0], size=1.0, pixelScale=30.0, projection="TAN", rotation=0.0, tractOverlap=0.0))[0][0])
        if cls is extend.NoLayout:
            ctx.ok(e[0] == "exc" and issubclass(e[1], (TypeError, NotImplementedError)), "missing", "no layout: %r" % (e,))
