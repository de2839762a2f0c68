"""Maps, tracts and patches are sequences: length, iteration and indexing describe the same members once each."""
import itertools
import logging
import re

import numpy as np

from .. import gen, obs, ref

RULE = ("Maps of every kind (production maps through their indices, small ones exhaustively): whole, partial, nested and "
        "interleaved iteration over tracts, patches and cells compared with indexing by Python and numpy integers, pairs and "
        "sequential numbers; indices past either end; and the summary written to a log.  Non-trivial: a distinct (map shape, "
        "kind of traversal).")
ASSUMPTIONS = ["negative tract indices are either refused or count from the end"]
ROUNDS = 7
REQUIRED_EVENTS = ("iterated", "indexed", "refused", "interleaved", "log line")


def cases(tier):
    n = 25 if tier == "quick" else 300
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("many", {"k": k}) for k in range(2 if tier == "quick" else 10)]
    out += [("big", {"k": k}) for k in range(4 if tier == "quick" else 20)]
    return out + [("random", {"kind": k}) for _ in range(n) for k in gen.ALL]


def tid(t):
    return obs.num(t.getId())


class Lite:
    """A tract that is nothing but its number."""
    def __init__(self, i):
        self.i = i

    def getId(self):
        return self.i


def big(ctx, rng):
    """Thousands of tracts: a type of one's own, with tracts that cost nothing."""
    from lsst.skymap.cachingSkyMap import CachingSkyMap
    from lsst.skymap.ringsSkyMap import RingsSkyMap

    class Many(CachingSkyMap):
        def generateTract(self, index):
            return Lite(index)

    class Rings(RingsSkyMap):
        def generateTract(self, index):
            return Lite(index)
    if rng.random() < 0.5:
        n = rng.choice([255, 256, 257, 4096, 4097, 65535, 65536, 65537, rng.randrange(1000, 100000)])
        m = Many(n, Many.ConfigClass())
    else:
        c = Rings.ConfigClass()
        c.numRings = rng.randrange(40, 260)
        m = Rings(c)
        n = len(ref.RefMap({"cls": "rings", "numRings": c.numRings, "raStart": 0.0, "version": 1}).centers)
    wit = dict(tracts=n, type=type(m).__name__)
    ctx.eq(len(m), n, "len", "tracts", **wit)
    for i in rng.sample(range(n), rng.choice([0, 3, 50])):
        ctx.eq(tid(m[i]), i, "index", "id of tract at index %d" % i, **wit)
    some = list(itertools.islice(iter(m), rng.randrange(1, n)))
    ctx.ok([tid(t) for t in some] == list(range(len(some))), "iterate", "ids met by iterating over some", **wit)
    for what, it in (("iterate", m), ("iterate-again", m), ("by-index", (m[i] for i in range(n)))):
        ids = [tid(t) for t in it]
        ctx.ev("iterated")
        ctx.ok(ids == list(range(n)), what, "%d ids met, %d different, last %r" % (len(ids), len(set(ids)), ids[-1:]), **wit)
    ctx.ok([tid(t) for t in reversed(m)] == list(range(n))[::-1], "reversed", "ids met in reverse", **wit)
    for i in (n, n + 1, n*2, -n - 1):
        e = obs.attempt(m.__getitem__, i)
        ctx.ev("refused")
        ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "past-end", "index %r of %d: %r" % (i, n, e), **wit)
    ctx.seen("big", type(m).__name__, n)


def many(ctx, rng):
    """Tracts of thousands of patches, patches of thousands of cells."""
    s = dict(gen.production("discrete_three"), raList=[rng.uniform(0, 360)], decList=[rng.uniform(-60, 60)], radiusList=[1.0],
             tractOverlap=0.0, rotation=0.0)
    nx, ny = rng.choice([(40, 30), (70, 64), (130, 100), (257, 60), (20, 300)])
    if rng.random() < 0.5:
        s.update(builder="legacy", dims=[2*ny, 2*nx], border=1, pixelScale=7200.0/(2*nx*ny - 1))
    else:
        s.update(builder="cells", cell=[2, 2], cellBorder=1, perPatch=nx, inBorder=1, pixelScale=7200.0/(4*nx - 1))
    t = obs.build(ctx, s)[0]
    wit = dict(spec=s)
    top = t if s["builder"] == "legacy" else t[(1, 0)]
    ax, ay = obs.pair(t.getNumPatches() if top is t else top.getNumCells())
    ctx.eq(len(top), ax*ay, "many-len", "patches or cells", **wit)
    want = [[x, y] for y in range(ay) for x in range(ax)]
    for what, it in (("many-iterate", lambda: top), ("many-index", lambda: (top[k] for k in range(ax*ay)))):
        got = [(obs.pair(p.getIndex()), obs.num(p.getSequentialIndex())) for p in it()]
        ctx.ev("iterated")
        ctx.ok(got == [(q, k) for k, q in enumerate(want)], what, "%d of %d met, the last %r" % (len(got), ax*ay, got[-1:]), **wit)
    ctx.seen("many", s["builder"], ax, ay)


def run_case(ctx, name, params, rng):
    if name == "many":
        return many(ctx, rng)
    if name == "big":
        return big(ctx, rng)
    s = gen.production(params["name"]) if name == "production" else gen.spec_random(
        rng, kinds=(params["kind"],), max_rings=10)
    if name != "production" and s["cls"] == "healpix":
        s["log2NSide"] = min(s["log2NSide"], 2)
    m = obs.build(ctx, s)
    R = ref.RefMap(s)
    n = len(R)
    ctx.eq(len(m), n, "len", "tracts", spec=s)
    ctx.ok(isinstance(len(m), int), "len", "length is %r" % (len(m),))
    if rng.random() < 0.5:
        refused(ctx, s, m, n, R)
    if n < 2000:
        order = rng.sample(range(n), n)
        if rng.random() < 0.5:       # cold or partly read maps alike
            for i in order[:n//2]:
                m[i]
        ids = [tid(t) for t in m]
        ctx.ev("iterated")
        ctx.eq(ids, list(range(n)), "iterate", "ids met by iterating", spec=s)
        ctx.eq([tid(t) for t in m], ids, "iterate-again", "ids met by iterating again", spec=s)
        ctx.eq([tid(t) for t in reversed(m)], ids[::-1], "reversed", "ids met in reverse", spec=s)
        for k in range(3):
            a, b = iter(m), iter(m)
            ga, gb = [], []
            while len(ga) < n or len(gb) < n:
                ctx.ev("interleaved")
                it, g = (a, ga) if (rng.random() < 0.5 and len(ga) < n) or len(gb) >= n else (b, gb)
                g.append(tid(next(it)))
                if rng.random() < 0.1:
                    m[rng.randrange(n)]
            ctx.ok(ga == ids and gb == ids, "interleave", "two iterations at once gave %r and %r" % (ga[:9], gb[:9]), spec=s)
            for it in (a, b):
                ctx.ok(next(it, None) is None, "exhausted", "iterator goes on", spec=s)
            if n > 40:
                break
        ctx.seen(gen.label(s), "tracts")
        if n <= 40:
            ctx.eq([(tid(a), tid(b)) for a, b in itertools.product(m, m)], list(itertools.product(ids, ids)), "nested",
                   "nested iteration", spec=s)
    for i in obs.tract_ids(n, rng, 8):
        for j in rng.sample((i, np.int64(i), np.int32(i)), 3):
            ctx.ev("indexed")
            ctx.eq(tid(m[j]), i, "index", "id of tract at index %r" % (j,), spec=s)
            ctx.ok(type(m[j].getId()) is int, "id-type", "id of tract at index %r is %s" % (j, type(m[j].getId())), spec=s)
    refused(ctx, s, m, n, R)
    for i in obs.tract_ids(n, rng, 3):
        patches(ctx, s, m[i], rng)
    if n < 200:
        fresh = obs.build(ctx, s)
        for i in rng.sample(range(n), rng.randint(0, n - 1) if rng.random() < 0.7 else 0):
            fresh[i]
        log(ctx, s, rng.choice([m, fresh, fresh]), m)
    ctx.sample(map=gen.label(s), tracts=n)


def refused(ctx, s, m, n, R):
    for i in (-1, -n, -n - 1, n, n + 1, n + 1000, np.int64(n), np.int64(-1), 10**9):
        ctx.ev("refused")
        e = obs.attempt(m.__getitem__, i)
        good = e[0] == "exc" and issubclass(e[1], IndexError) or (-n <= i < 0 and e[0] == "ok" and tid(e[1]) == n + i)
        ctx.ok(good, "past-end" if i >= n else "negative", "index %r of %d: %r" % (i, n, e), spec=s)
    # after refusals the map is as it was
    ctx.eq(tid(m[n - 1]), n - 1, "after-refusal", "last tract", spec=s)
    ctx.eq(tid(m[0]), 0, "after-refusal", "first tract", spec=s)
    ctx.eq(len(m), n, "after-refusal", "tracts", spec=s)


def patches(ctx, s, t, rng):
    nx, ny = t.getNumPatches()
    wit = dict(spec=s, tract=tid(t))
    ctx.eq(len(t), nx*ny, "patch-len", "patches", **wit)
    want = [[x, y] for y in range(ny) for x in range(nx)]
    if nx*ny <= 400:
        got = [obs.pair(p.getIndex()) for p in t]
        ctx.ev("iterated")
        ctx.eq(got, want, "patch-iterate", "patches met by iterating", **wit)
        ctx.eq([obs.num(p.getSequentialIndex()) for p in t], list(range(nx*ny)), "patch-sequential", "sequential numbers",
               **wit)
        a, b = iter(t), iter(t)
        next(a)
        ctx.eq([obs.pair(p.getIndex()) for p in b], want, "patch-interleave", "second iteration", **wit)
        ctx.eq([obs.pair(p.getIndex()) for p in a], want[1:], "patch-interleave", "rest of the first", **wit)
        ctx.eq([obs.pair(p.getIndex()) for p in reversed(t)], want[::-1], "patch-reversed", "patches in reverse", **wit)
        left(ctx, t, want, "patch", rng, wit)
    for x, y in obs.patch_ids(nx, ny, rng, 8):
        k = y*nx + x
        for j in ((x, y), [x, y], k, np.int64(k), (np.int64(x), np.int64(y))):
            ctx.ev("indexed")
            ctx.ok(t[j] == t.getPatchInfo((x, y)) and obs.pair(t[j].getIndex()) == [x, y], "patch-index",
                   "patch at %r is %r" % (j, t[j]), **wit)
    for j in ((nx, 0), (0, ny), (-1, 0), (0, -1), nx*ny, nx*ny + 5, -1):
        ctx.ev("refused")
        e = obs.attempt(t.__getitem__, j)
        ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "patch-refused", "patch %r of %r: %r" % (j, (nx, ny), e), **wit)
    p = t[(rng.randrange(nx), rng.randrange(ny))]
    cx, cy = p.getNumCells()
    ctx.eq(len(p), cx*cy, "cell-len", "cells", **wit)
    if s["builder"] == "legacy":
        ctx.eq(list(p), [], "cell-none", "cells of a patch without cells", **wit)
        e = obs.attempt(p.__getitem__, 0)
        ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "cell-refused", "cell of a patch without cells: %r" % (e,),
               **wit)
    else:
        ctx.ok(cx > 0 and cy > 0, "cell-len", "no cells", **wit)
        ctx.ev("iterated")
        ctx.eq([obs.pair(c.getIndex()) for c in p], [[x, y] for y in range(cy) for x in range(cx)], "cell-iterate",
               "cells met by iterating", **wit)
        ctx.eq([obs.num(c.getSequentialIndex()) for c in p], list(range(cx*cy)), "cell-sequential", "sequential numbers",
               **wit)
        left(ctx, p, [[x, y] for y in range(cy) for x in range(cx)], "cell", rng, wit)
        k = rng.randrange(cx*cy)
        ctx.ok(p[k] == p[(k % cx, k//cx)] and obs.num(p[k].getSequentialIndex()) == k, "cell-index", "cell %d" % k, **wit)
        for j in (cx*cy, (cx, 0), (0, cy), -1, (-1, 0)):
            ctx.ev("refused")
            e = obs.attempt(p.__getitem__, j)
            ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "cell-refused", "cell %r of %r: %r" % (j, (cx, cy), e),
                   **wit)
    ctx.seen(s["cls"], s["builder"], nx, ny)


def left(ctx, top, want, what, rng, wit):
    """Iterations given up part of the way, by hand or by an error, and others after and between."""
    for _ in range(2):
        k = rng.randrange(len(want))
        it = iter(top)
        got = [obs.pair(q.getIndex()) for q in itertools.islice(it, k)]
        ctx.ev("left unfinished")
        ctx.ok(got == want[:k], what + "-left", "the first %d met: %r" % (k, got[-3:]), **wit)
        if rng.random() < 0.5 and hasattr(it, "close"):
            it.close()
            it = iter(())
            k = len(want)
        ctx.eq([obs.pair(q.getIndex()) for q in top], want, what + "-left", "met after an iteration left at %d" % k, **wit)
        ctx.eq([obs.pair(q.getIndex()) for q in it], want[k:], what + "-left", "met by going on with it", **wit)
    if len(want) <= 30:
        got = [(obs.pair(a.getIndex()), obs.pair(b.getIndex())) for a in top for b in top]
        ctx.ok(got == [(a, b) for a in want for b in want], what + "-nested", "met by nested iteration: %r" % (got[:4],), **wit)


def log(ctx, s, m, full):
    """The summary in the log: one line for the map and one for each tract, in order, with its corners and patch counts."""
    lines = []

    class Keep(logging.Handler):
        def emit(self, rec):
            lines.append(rec.getMessage())
    lg = logging.Logger("verif", level=logging.INFO)
    lg.addHandler(Keep())
    corners = []
    for t in full:
        b = t.getBBox()
        w = t.getWcs()
        corners.append([w.pixelToSky(x, y) for x, y in (
            (b.getMinX() - .5, b.getMinY() - .5), (b.getMaxX() + .5, b.getMinY() - .5),
            (b.getMaxX() + .5, b.getMaxY() + .5), (b.getMinX() - .5, b.getMaxY() + .5))])
    m.logSkyMapInfo(lg)
    if not ctx.ok(len(lines) == len(full) + 1, "log-lines", "%d log lines for %d tracts" % (len(lines), len(full)), spec=s):
        return
    num = r"(-?[0-9.]+|nan|-?inf)"
    ctx.ok(re.findall(r"\d+", lines[0]) == [str(len(full))], "log-count", "first line %r for %d tracts" % (lines[0], len(full)),
           spec=s)
    for t, line, cs in zip(m, lines[1:], corners):
        ctx.ev("log line")
        pairs = re.findall(r"\(%s, %s\)" % (num, num), line)
        ints = re.findall(r"\b(\d+)\b", re.sub(r"\([^)]*\)", "", line))
        nx, ny = t.getNumPatches()
        ctx.ok(ints == [str(tid(t)), str(nx), str(ny)], "log-tract", "line for tract %d of %d x %d patches: %r" % (
            tid(t), nx, ny, line), spec=s)
        want = [c.getPosition(_deg()) for c in cs]
        ok = len(pairs) == 4 and all(near(float(a), p[0], 360) and near(float(d), p[1], 0)
                                     for (a, d), p in zip(pairs, want))
        ctx.ok(ok, "log-corners", "corners of tract %d: %r, log says %r" % (tid(t), [tuple(p) for p in want], line), spec=s)


def near(a, b, wrap):
    if not (np.isfinite(a) and np.isfinite(b)):
        return not np.isfinite(a) and not np.isfinite(b)
    d = abs(a - b)
    return min(d, abs(d - wrap)) < 0.0011


def _deg():
    import lsst.geom
    return lsst.geom.degrees
