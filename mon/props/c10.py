"""Cell index pairs and sequential indices are one-to-one and bounds are enforced."""
import numpy as np

from .. import gen, obs, ref
from .c08 import forms, number

RULE = ("Random cell-based maps; every cell index of small grids and a sample of large ones, in every accepted form; "
        "indices just and far outside in one or both coordinates; patches without cells.  Non-trivial: a distinct (grid "
        "size, index form, bound violated).")
ASSUMPTIONS = []
ROUNDS = 10
REQUIRED_EVENTS = ("index round trip", "out of range", "no cells", "other patch's cell")


def cases(tier):
    n = 300 if tier == "quick" else 2000
    out = [("production", {})]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    out += [("legacy", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n//6)]
    return out


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production("lsst_cells_v1")
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), builders=("cells" if name == "random" else "legacy",),
                               max_rings=40)
        if name == "random" and rng.random() < 0.12:
            spec = gen.big(rng, spec, rng.choice([("cells",), ("tracts", "patches", "cells", "pixels")]))
            ctx.ev("big")
    m = obs.build(ctx, spec)
    t = m[rng.choice(obs.tract_ids(len(m), rng, 5))]
    nx, ny = obs.pair(t.getNumPatches())
    x, y = rng.choice(obs.patch_ids(nx, ny, rng, 8))
    p = t.getPatchInfo((x, y))
    wit = dict(spec=spec, tract=t.getId(), patch=[x, y])
    if name == "legacy":
        return none(ctx, p, wit, rng)
    nc = ref.num_cells(spec)[0]
    n = nc*nc
    full = nc <= 12 or ctx.thorough
    pairs = [(a, b) for b in range(nc) for a in range(nc)] if full else obs.patch_ids(nc, nc, rng, 60)
    seen = {}
    for a, b in pairs:
        kind, f = rng.choice(forms((a, b), rng))
        s = obs.num(p.getSequentialCellIndexFromPair(f))
        ctx.ev("index round trip")
        ctx.ok(isinstance(s, int) and 0 <= s < n, "range", "sequential index of %r is %r of %d" % ((a, b), s, n), **wit)
        ctx.ok(s not in seen, "collision", "cells %r and %r share index %r" % ((a, b), seen.get(s), s), **wit)
        seen[s] = (a, b)
        back = p.getCellIndexPair(number(s, rng))
        ctx.eq(tuple(obs.pair(back)), (a, b), "inverse", "pair of sequential index %r" % s, **wit)
        ctx.eq((obs.num(back.x), obs.num(back.y)), (a, b), "named", "named fields", **wit)
        c = p.getCellInfo(f)
        ctx.eq(tuple(obs.pair(c.getIndex())), (a, b), "info-index", "cell asked for as %s" % kind, **wit)
        ctx.eq(obs.num(c.getSequentialIndex()), s, "info-seq", "sequential index carried by the cell", **wit)
        ctx.eq(obs.num(p.getSequentialCellIndex(c)), s, "seq-of-info", "sequential index of the cell", **wit)
        ctx.eq(obs.cell(p.getCellInfo(number(s, rng))), obs.cell(c), "by-number",
               "cell %r by number" % s, **wit)
        ctx.eq(obs.cell(p[s]), obs.cell(c), "getitem", "cell by [%d]" % s, **wit)
        ctx.eq(obs.cell(p[f]), obs.cell(c), "getitem", "cell by [%r]" % (f,), **wit)
        ctx.seen("in", nc, kind, a in (0, nc - 1), b in (0, nc - 1))
    if not full:     # the ends of every row
        for b in range(nc):
            for a in (0, nc - 1):
                s = b*nc + a
                ctx.eq(obs.pair(p.getCellIndexPair(s)), [a, b], "row-ends", "pair of sequential index %d" % s, **wit)
                ctx.eq(obs.num(p.getSequentialCellIndexFromPair((a, b))), s, "row-ends", "number of %r" % ((a, b),), **wit)
        ctx.ev("row ends", nc)
    ctx.ok(all(s == b*nc + a for s, (a, b) in seen.items()), "order", "sequential order is row by row", **wit)
    # a cell stands for its place, whichever patch made it
    import lsst.skymap as sk
    from lsst.skymap.cellInfo import CellInfo
    for _ in range(6):
        a, b = rng.choice([(nc - 1, nc - 1), (nc, 0), (0, nc), (rng.randrange(nc), rng.randrange(nc))])
        c = p.getCellInfo((0, 0))
        c = CellInfo(sk.Index2D(a, b), c.getInnerBBox(), c.getOuterBBox(), rng.choice([0, None, b*(nc + 1) + a]), c.getWcs())
        r = obs.attempt(p.getSequentialCellIndex, c)
        ctx.ev("other patch's cell")
        ok = obs.num(r[1]) == b*nc + a if r[0] == "ok" and a < nc and b < nc else \
            r[0] == "exc" and issubclass(r[1], IndexError) and not (a < nc and b < nc)
        ctx.ok(ok, "other-cell", "sequential index among %d x %d cells of cell (%d, %d) made elsewhere: %r" % (nc, nc, a, b, r), **wit)
    bad = [(-1, 0), (0, -1), (nc, 0), (0, nc), (nc, nc - 1), (nc - 1, nc), (-1, nc - 1), (nc - 1, -1), (nc + 7, 0),
           (-nc, 0), (-1, 1), (nc, -1), (10**6, 0), (0, 10**9)]
    for f in bad:
        kind, v = rng.choice(forms(f, rng))
        for g, w in ((p.getCellInfo, "getCellInfo"), (p.__getitem__, "[]"),
                     (p.getSequentialCellIndexFromPair, "getSequentialCellIndexFromPair")):
            r = obs.attempt(g, v)
            ctx.ev("out of range")
            ctx.ok(r[0] == "exc" and issubclass(r[1], IndexError), "accepted-pair", "%s(%r) of %d x %d cells gave %r" % (
                w, v, nc, nc, r[1]), **wit)
        ctx.seen("out", f[0] < 0, f[0] >= nc, f[1] < 0, f[1] >= nc, kind)
    for s in (-1, n, n + 1, -n, n + nc, 10**9, -2):
        s = number(s, rng)
        for g, w in ((p.getCellInfo, "getCellInfo"), (p.__getitem__, "[]"), (p.getCellIndexPair, "getCellIndexPair")):
            r = obs.attempt(g, s)
            ctx.ev("out of range")
            ctx.ok(r[0] == "exc" and issubclass(r[1], IndexError), "accepted-number",
                   "%s(%r) of %d cells gave %r" % (w, s, n, r[1]), **wit)
    for v in ((1,), (0, 0, 0), None):
        r = obs.attempt(p.getCellInfo, v)
        ctx.ok(r[0] == "exc", "malformed", "getCellInfo(%r) gave %r" % (v, r[1]), **wit)
    ctx.sample(cells=nc, bad=bad[:4], patch=[x, y])


def none(ctx, p, wit, rng):
    ctx.eq(obs.pair(p.getNumCells()), [0, 0], "no-cells", "cells of a patch without cells", **wit)
    ctx.eq(len(p), 0, "no-cells", "length of a patch without cells", **wit)
    ctx.eq(list(p), [], "no-cells", "cells of a patch without cells", **wit)
    for v in (0, (0, 0), [0, 0], -1, 1, np.int64(0)):
        for g in (p.getCellInfo, p.__getitem__) + ((p.getCellIndexPair,) if not isinstance(v, (tuple, list)) else
                                                   (p.getSequentialCellIndexFromPair,)):
            r = obs.attempt(g, v)
            ctx.ev("no cells")
            ctx.ok(r[0] == "exc" and issubclass(r[1], IndexError), "no-cells", "%s(%r) gave %r" % (
                g.__name__, v, r[1]), **wit)
            ctx.seen("none", g.__name__, repr(v))
