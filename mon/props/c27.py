"""Big maps stay cheap: tracts are made only when asked for, once each, and lookups make only nearby ones."""
import contextlib
import copy
import pickle

import numpy as np

from .. import gen, obs, ref

RULE = ("Rings (up to 256 rings), healpix and discrete maps; a recorder on tract construction notes which tracts come into "
        "being during building, hashing, comparing, pickling, logging, indexing and every lookup, in random orders.  "
        "Non-trivial: a distinct (map kind, number of rings, operation, tracts made).")
ASSUMPTIONS = ["only lookups from one thread: threads may make a tract more than once (C14)",
               "findAllTracts and findTractPatchList of a ring map may look at tracts within a few tract sizes of a position"]
ROUNDS = 6
REQUIRED_EVENTS = ("nothing made", "one made", "made again: never", "near tracts only", "array lookup", "unpickled")


def cases(tier):
    n = 60 if tier == "quick" else 600
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION if p["cls"] in ("rings", "discrete", "healpix")]
    out += [("random", {"kind": ("rings", "rings", "healpix", "discrete")[k % 4], "k": k}) for k in range(n*4)]
    return out + [("big", {"k": k}) for k in range(2 if tier == "quick" else 6)]


@contextlib.contextmanager
def recorder():
    """Which tracts are constructed meanwhile, in order."""
    from lsst.skymap.tractInfo import TractInfo
    made, init = [], TractInfo.__init__

    def wrapped(self, *a, **k):
        init(self, *a, **k)
        made.append(obs.num(self.getId()))
    TractInfo.__init__ = wrapped
    try:
        yield made
    finally:
        TractInfo.__init__ = init


def run_case(ctx, name, params, rng):
    if name == "big":
        return big(ctx, rng)
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=rng.choice([24, 256]))
    with recorder() as made:
        body(ctx, spec, made, rng)


def big(ctx, rng):
    """Every tract of a map of thousands, in one order or another, and again."""
    spec = dict(gen.production(rng.choice([p["name"] for p in gen.PRODUCTION if p["cls"] == "rings"])),
                numRings=rng.choice([30, 45, 70, 100]), raStart=rng.uniform(0, 360))
    with recorder() as made:
        m = gen.build(spec)
        n = len(m)
        order = list(range(n))
        if rng.random() < 0.6:
            rng.shuffle(order)
            for i in order:
                m[i]
        else:
            for t in m:
                pass
        ctx.eq(len(made), len(set(made)), "twice", "different tracts among those made", spec=spec)
        ctx.eq(sorted(set(made)), list(range(n)), "all", "tracts made by asking for each", spec=spec)
        ctx.ev("thousands of tracts", n)
        ctx.ev("made again: never")
        for what, f in (("asking for each again", lambda: [m[i] for i in reversed(order)]), ("iterating", lambda: [t for t in m]),
                        ("locating", lambda: [m.findTract(gen.sp(*gen.sky(rng))) for _ in range(50)])):
            made.clear()
            f()
            ctx.eq(list(made)[:9], [], "twice", "tracts made by %s once all are made" % what, spec=spec)
    ctx.seen("big", spec["numRings"], order[0] == 0)


def body(ctx, spec, made, rng):
    m = gen.build(spec)
    wit = dict(spec=spec)
    n = len(m)
    R = ref.RefMap(spec)
    centers = np.array([ref.vec(*c) for c in R.centers])
    ever = set()

    def quiet(what, f):
        made.clear()
        r = f()
        ctx.ev("nothing made")
        ctx.eq(list(made), [], "not-needed", "tracts made by %s" % what, **wit)
        ctx.seen(spec["cls"], spec.get("numRings"), what)
        return r

    def account(what):
        """Nothing is made twice."""
        again = [i for i in made if i in ever] + [i for i in set(made) if made.count(i) > 1]
        ctx.ev("made again: never")
        ctx.eq(again, [], "twice", "tracts made again by %s" % what, **wit)
        ever.update(made)
    ctx.eq(list(made), [], "not-needed", "tracts made by building the map", **wit)
    quiet("len", lambda: len(m))
    quiet("digest", m.getSha1)
    quiet("hash", lambda: hash(m))
    other = quiet("another map", lambda: gen.build(spec))
    quiet("compare", lambda: (m == other, m != other))
    blob = quiet("pickle", lambda: pickle.dumps(m))
    quiet("unpickle", lambda: pickle.loads(blob))
    quiet("refused index", lambda: [obs.attempt(m.__getitem__, i) for i in (n, n + 5, -1)])
    size = {"rings": 180.0/(spec.get("numRings", 1) + 1)}.get(spec["cls"], 0)
    half = size/2 + spec["tractOverlap"]
    reach = 8*(size + half) + 1
    for _ in range(14 if not ctx.thorough else 30):
        made.clear()
        op = rng.choice(["index", "findTract", "findTract", "array", "all", "closest", "list", "contains"])
        ra, dec = gen.sky(rng)
        p = gen.sp(ra, dec)
        v = gen.pvec(p)
        if op == "index":
            i = rng.randrange(n)
            m[i]
            ctx.ev("one made")
            ctx.ok(made == ([] if i in ever else [i]), "index", "asking for tract %d made %r" % (i, made), **wit)
        elif op == "findTract" and spec["cls"] in ("rings", "healpix"):
            t = m.findTract(p)
            i = obs.num(t.getId())
            ctx.ev("one made")
            ctx.ok(made == ([] if i in ever else [i]), "findTract", "locating tract %d made %r" % (i, made), **wit)
        elif op == "array" and spec["cls"] == "rings":
            c = [gen.sky(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 50, 300]))]
            a, b = [x[0] for x in c], [x[1] for x in c]
            if rng.random() < 0.7:
                a, b = np.array(a), np.array(b)
            if rng.random() < 0.5:
                m.findTractIdArray(a, b, degrees=True)
            else:
                m.findTractIdArray(np.radians(a), np.radians(b))
            ctx.ev("array lookup")
            ctx.eq(list(made), [], "array", "tracts made by a vector lookup", **wit)
        elif op == "all" and spec["cls"] == "rings":
            m.findAllTracts(p)
            near(ctx, made, centers, [v], reach, n, "findAllTracts", wit)
        elif op == "list" and spec["cls"] == "rings":
            q = gen.sp(ra, min(90, max(-90, dec + rng.uniform(-.1, .1))))
            if not gen.singular(spec, dec) and not np.isnan(dec):
                r = obs.attempt(m.findTractPatchList, [p, q] if n > 200 else [p])
                if r[0] == "ok":
                    near(ctx, made, centers, [v, gen.pvec(q)], reach, n, "findTractPatchList", wit)
        elif op == "closest" and spec["cls"] in ("rings", "healpix"):
            r = obs.attempt(m.findClosestTractPatchList, [p])
            if r[0] == "ok":
                i = obs.num(m.findTract(p).getId())
                ctx.ok(set(made) <= {i}, "closest", "the closest tract is %d; made %r" % (i, made), **wit)
        elif op == "contains":
            i = rng.randrange(n)
            t = m[i]
            k = len(made)
            t.contains(p)
            obs.attempt(t.findPatch, p)
            t.getPatchInfo((0, 0))
            ctx.eq(made[k:], [], "patch", "tracts made by asking a tract about its patches", **wit)
        else:
            continue
        account(op)
        ctx.seen(spec["cls"], spec.get("numRings"), op, min(len(made), 8))
    # a map that has made tracts is saved and restored without making any, and starts over
    blob = quiet("pickle (used)", lambda: pickle.dumps(m))
    u = quiet("unpickle (used)", lambda: pickle.loads(blob))
    ctx.ev("unpickled")
    ctx.ok(len(blob) < 20000 + 40*len(R.centers if spec["cls"] == "discrete" else ()), "blob",
           "a saved map takes %d bytes" % len(blob), **wit)
    quiet("compare (used)", lambda: (m == u, hash(u)))
    made.clear()
    i = rng.randrange(n)
    u[i]
    ctx.ok(made in ([], [i]), "unpickled", "asking an unpickled map for tract %d made %r" % (i, made), **wit)
    quiet("digest (used)", m.getSha1)
    if n <= 60:
        made.clear()
        k = [obs.num(t.getId()) for t in m]
        ctx.eq(k, list(range(n)), "iterate", "tracts in order", **wit)
        account("iterating")
        quiet("iterating again", lambda: [t for t in m])
        it = iter(gen.build(spec))
        made.clear()
        next(it)
        ctx.ok(made == [0], "iterate", "the first step of an iteration made %r" % (made,), **wit)
    copy_check(ctx, m, made, wit)


def copy_check(ctx, m, made, wit):
    """A copy makes nothing by being made."""
    made.clear()
    copy.copy(m)
    ctx.ok(made == [], "not-needed", "tracts made by copying: %r" % (made,), **wit)


def near(ctx, made, centers, vs, reach, n, what, wit):
    ctx.ev("near tracts only")
    d = [min(float(ref.sep(centers[i], v)) for v in vs) for i in made if i not in (0, n - 1)]
    ctx.ok(not d or max(d) < reach, "far", "%s made a tract %.1f deg away (reach %.1f)" % (what, max(d or [0]), reach), **wit)
