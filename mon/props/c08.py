"""Patch index pairs and sequential indices are one-to-one and bounds are enforced."""
import numpy as np

from .. import gen, obs, ref

RULE = ("Random and production maps, several tracts of one map used interleaved; every index of small grids, a sample of "
        "large ones, given as pair, list, named pair, numpy integers and sequential number; and indices just and far "
        "outside, including in only one coordinate.  Non-trivial: a distinct (grid size, index form, which bound).")
ASSUMPTIONS = []
ROUNDS = 10
REQUIRED_EVENTS = ("index round trip", "out of range", "malformed index", "other tract's patch")


def cases(tier):
    n = 250 if tier == "quick" else 2000
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    return out


def forms(pair, rng):
    import lsst.skymap as sk
    x, y = pair
    return [("tuple", (x, y)), ("list", [x, y]), ("Index2D", sk.Index2D(x, y)), ("Index2D-kw", sk.Index2D(y=y, x=x)),
            ("np", (np.int64(x), np.int32(y))), ("nparray", np.array([x, y]))] + narrow(pair, rng)


TYPES = (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64)


def narrow(pair, rng):
    """The pair as integers of types that just hold it, where pixel coordinates need not fit."""
    import lsst.skymap as sk
    fit = [T for T in TYPES if all(np.iinfo(T).min <= v <= np.iinfo(T).max for v in pair)]
    T, U = fit[0], rng.choice(fit)
    return [("np-narrow", (T(pair[0]), T(pair[1]))), ("np-any", sk.Index2D(U(pair[0]), rng.choice([T, U])(pair[1]))),
            ("nparray-any", np.array(pair, dtype=U))]


def number(s, rng):
    """A sequential index as some integer type that holds it."""
    return rng.choice([s, np.int64(s)] + [T(s) for T in TYPES if np.iinfo(T).min <= s <= np.iinfo(T).max])


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    if name == "random" and params["k"] % 25 == 3:      # more patches than any number type of 32 or fewer bits counts
        spec = dict(gen.spec_random(rng, kinds=("discrete",)), builder="legacy", border=rng.choice([0, 1]),
                    dims=rng.choice([[1, 1], [1, 2], [2, 1]]), rotation=0.0, projection="TAN", decList=[0.0], raList=[10.0],
                    radiusList=[rng.choice([0.5, 2.0, 9.0])], tractOverlap=0.0)
        for k in ("cell", "cellBorder", "perPatch", "inBorder"):
            spec.pop(k, None)
        spec["pixelScale"] = spec["radiusList"][0]*7200.0/rng.choice([300, 70000, 110000, 200000])
        ctx.ev("huge")
    m = obs.build(ctx, spec)
    ids = obs.tract_ids(len(m), rng, 3)
    tracts = [m[i] for i in ids]
    for t in tracts:
        tract(ctx, spec, t, rng)
    # a patch stands for its place, whichever tract made it
    import lsst.skymap as sk
    for a, b in zip(tracts, tracts[1:] + tracts[:1]):
        nx, ny = obs.pair(b.getNumPatches())
        mx, my = obs.pair(a.getNumPatches())
        for _ in range(6):
            x, y = rng.choice([(mx - 1, my - 1), (rng.randrange(mx), rng.randrange(my)),
                               (rng.randrange(min(mx, nx)), rng.randrange(min(my, ny)))])
            p = a.getPatchInfo((x, y))
            if rng.random() < 0.5:
                p = sk.PatchInfo(p.getIndex(), p.getInnerBBox(), p.getOuterBBox(), rng.choice([0, None, p.getSequentialIndex()]),
                                 p.getWcs())
            r = obs.attempt(b.getSequentialPatchIndex, p)
            ctx.ev("other tract's patch")
            want = ("ok", y*nx + x) if x < nx and y < ny else ("exc", IndexError)
            ctx.ok(r[0] == want[0] and (obs.num(r[1]) == want[1] if r[0] == "ok" else issubclass(r[1], want[1])), "other-patch",
                   "sequential index in a %d x %d grid of patch (%d, %d) made elsewhere: %r" % (nx, ny, x, y, r), spec=spec)


def tract(ctx, spec, t, rng):
    nx, ny = obs.pair(t.getNumPatches())
    n = nx*ny
    wit = dict(spec=spec, tract=t.getId(), grid=[nx, ny])
    full = n <= (150 if not ctx.thorough else 2000)
    pairs = [(x, y) for y in range(ny) for x in range(nx)] if full else obs.patch_ids(nx, ny, rng, 60)
    seen = {}
    for k, (x, y) in enumerate(pairs):
        kind, f = rng.choice(forms((x, y), rng))
        s = obs.num(t.getSequentialPatchIndexFromPair(f))
        ctx.ev("index round trip")
        ctx.ok(isinstance(s, int) and 0 <= s < n, "range", "sequential index of %r is %r of %d" % ((x, y), s, n), **wit)
        ctx.ok(s not in seen, "collision", "patches %r and %r share sequential index %r" % ((x, y), seen.get(s), s),
               **wit)
        seen[s] = (x, y)
        back = t.getPatchIndexPair(number(s, rng))
        ctx.eq(tuple(obs.pair(back)), (x, y), "inverse", "pair of sequential index %r" % s, **wit)
        ctx.eq((obs.num(back.x), obs.num(back.y)), (x, y), "named", "named fields", **wit)
        p = t.getPatchInfo(f)
        ctx.eq(tuple(obs.pair(p.getIndex())), (x, y), "info-index", "index of patch asked for as %s" % kind, **wit)
        ctx.eq(obs.num(p.getSequentialIndex()), s, "info-seq", "sequential index carried by the patch", **wit)
        ctx.eq(obs.num(t.getSequentialPatchIndex(p)), s, "seq-of-info", "sequential index of the patch", **wit)
        q = t.getPatchInfo(number(s, rng))
        ctx.eq(obs.patch(q), obs.patch(p), "by-number", "patch by number %r" % s, **wit)
        ctx.ok(p == q, "equality", "same patch reached two ways is unequal", **wit)
        ctx.eq(obs.patch(t[f]), obs.patch(p), "getitem", "patch by [] %r" % (f,), **wit)
        ctx.eq(obs.patch(t[s]), obs.patch(p), "getitem", "patch by [%d]" % s, **wit)
        ctx.seen("in", nx, ny, kind, x in (0, nx - 1), y in (0, ny - 1))
    if full:
        ctx.eq(sorted(seen), list(range(n)), "onto", "sequential indices", **wit)
        # row by row, x fastest: what iteration order and stored identifiers rely on
        ctx.eq([seen[s] for s in range(n)], pairs, "order", "sequential order", **wit)
    else:
        ctx.ok(all(s == y*nx + x for s, (x, y) in seen.items()), "order", "sequential order", **wit)
    bad = [(-1, 0), (0, -1), (nx, 0), (0, ny), (nx, ny - 1), (nx - 1, ny), (-1, ny - 1), (nx - 1, -1), (nx + 7, 0),
           (-nx, 0), (-1, 1 if ny > 1 else 0), (nx, -1), (10**6, 0), (0, 10**9)]
    badseq = [-1, n, n + 1, -n, n + nx, n + 10**9, -2]
    for f in bad:
        kind, v = rng.choice(forms(f, rng))
        for g, w in ((t.getPatchInfo, "getPatchInfo"), (t.__getitem__, "[]"),
                     (t.getSequentialPatchIndexFromPair, "getSequentialPatchIndexFromPair")):
            r = obs.attempt(g, v)
            ctx.ev("out of range")
            ctx.ok(r[0] == "exc" and issubclass(r[1], IndexError), "accepted-pair",
                   "%s(%r) of a %d x %d grid gave %r" % (w, v, nx, ny, r[1]), **wit)
        ctx.seen("out", f[0] < 0, f[0] >= nx, f[1] < 0, f[1] >= ny, kind)
    for s in badseq:
        s = number(s, rng)
        for g, w in ((t.getPatchInfo, "getPatchInfo"), (t.__getitem__, "[]"), (t.getPatchIndexPair, "getPatchIndexPair")):
            r = obs.attempt(g, s)
            ctx.ev("out of range")
            ctx.ok(r[0] == "exc" and issubclass(r[1], IndexError), "accepted-number",
                   "%s(%r) of a %d x %d grid gave %r" % (w, s, nx, ny, r[1]), **wit)
    for v in ((1,), (0, 0, 0), None, [0]):
        for g, w in ((t.getPatchInfo, "getPatchInfo"), (t.getSequentialPatchIndexFromPair, "FromPair")):
            r = obs.attempt(g, v)
            ctx.ev("malformed index")
            ctx.ok(r[0] == "exc" and issubclass(r[1], (TypeError, ValueError, IndexError)), "malformed",
                   "%s(%r) gave %r" % (w, v, r[1]), **wit)
    r = obs.attempt(t.getSequentialPatchIndexFromPair, 5)
    ctx.ok(r[0] == "exc", "malformed", "FromPair(5) gave %r" % (r[1],), **wit)
    ctx.sample(grid=[nx, ny], bad=bad[:4], builder=spec["builder"])
