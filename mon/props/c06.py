"""A position maps to exactly one patch of a tract, or to none when it is off the tract."""
import numpy as np

from .. import gen, obs, ref

RULE = ("Random and production maps; positions made from pixel positions (wcslib) in the middle of patches, within 1e-4 "
        "pixel of patch and tract edges, at corners, beyond the edges, and anywhere on the sky.  Non-trivial: a distinct "
        "(map shape, builder, position class, edge side) whose owner was established.")
ASSUMPTIONS = ["a position within 1e-6 pixel of a patch or tract edge may go either way"]
ROUNDS = 8
REQUIRED_EVENTS = ("findPatch", "LookupError", "contains", "edge position")
TIE = 1e-6


def cases(tier):
    n = 200 if tier == "quick" else 1600
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    return out


def pixels(rng, spec, W, H, n):
    w, h = ref.patch_inner(spec)

    def along(side, total):
        k = rng.random()
        if k < 0.3:
            return rng.uniform(-0.5, total - 0.5)
        if k < 0.75:
            return rng.randint(0, total//side)*side - 0.5 + rng.choice([-1, 1])*rng.choice([1e-4, 1e-3, .01, .3, .49,
                                                                                         .51, 1, 3])
        if k < 0.85:
            return rng.choice([-0.5, total - 0.5]) + rng.choice([-1, 1])*rng.choice([1e-4, 1e-2, .3, .7, 2, 50])
        if k < 0.95:
            return rng.uniform(-1, 2)*total
        return float(rng.randrange(total))
    return np.array([(along(w, W), along(h, H)) for _ in range(n)])


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    m = obs.build(ctx, spec)
    n = len(m)
    npix = 60 if not ctx.thorough else 250
    tracts = [m[i] for i in obs.tract_ids(n, rng, 4)]     # all made first: later ones must not disturb earlier ones
    for t in tracts:
        i = t.getId()
        rw = obs.refwcs(t, spec)
        b = obs.rbox(t.getBBox())
        W, H = b[2] + 1, b[3] + 1
        pp = pixels(rng, spec, W, H, npix)
        sky = rw.p2s(pp[:, 0], pp[:, 1])
        far = [gen.sky(rng) for _ in range(6)]
        sky = np.concatenate([sky[np.isfinite(sky).all(1)], np.array(far)])
        if not len(sky):
            continue
        back = rw.s2p(sky[:, 0], sky[:, 1])
        for (ra, dec), (x, y) in zip(sky, back):
            if not gen.singular(spec, dec):
                one(ctx, spec, m, t, i, float(ra), float(dec), float(x), float(y), W, H)


def one(ctx, spec, m, t, i, ra, dec, x, y, W, H):
    w, h = ref.patch_inner(spec)
    p = gen.sp(ra, dec)
    r = obs.attempt(t.findPatch, p)
    inside = t.contains(p)
    ctx.ev("contains")
    ctx.ok(isinstance(inside, (bool, np.bool_)), "contains-type", "contains gave %r" % (inside,), spec=spec)
    if r[0] == "exc":
        ctx.ev("LookupError")
        if not ctx.ok(issubclass(r[1], LookupError), "error-type", "findPatch raised %r" % (r[2],), spec=spec, ra=ra,
                      dec=dec):
            return
    else:
        ctx.ev("findPatch")
    fin = np.isfinite(x) and np.isfinite(y)
    e = min(x + .5, W - .5 - x, y + .5, H - .5 - y) if fin else -1e9
    wit = dict(spec=spec, tract=i, ra=ra, dec=dec, pixel=[x, y], dims=[W, H])
    if e > TIE:
        ctx.ok(inside, "contains", "position at pixel (%r, %r) of %d x %d is denied" % (x, y, W, H), **wit)
        if not ctx.ok(r[0] == "ok", "refused", "position at pixel (%r, %r) of %d x %d has no patch: %r" % (
                x, y, W, H, r[-1]), **wit):
            return
    elif e < -TIE:
        ctx.ok(not inside, "contains-outside", "position off the tract (pixel (%r, %r) of %d x %d) is claimed" % (
            x, y, W, H), **wit)
        ctx.ok(r[0] == "exc", "accepted", "position off the tract (pixel (%r, %r) of %d x %d) has patch %r" % (
            x, y, W, H, r[1].getIndex() if r[0] == "ok" else None), **wit)
        ctx.seen(spec["cls"], spec["projection"], spec["builder"], "off", x < 0, y < 0, fin)
        return
    else:
        ctx.ok(bool(inside) == (r[0] == "ok"), "disagree", "contains says %r, findPatch %r" % (inside, r[0]), **wit)
        if r[0] == "exc":
            return
    pt = r[1]
    ok = set()
    for dx in (-TIE, 0, TIE):
        for dy in (-TIE, 0, TIE):
            ok.add((int((x + dx + .5)//w), int((y + dy + .5)//h)))
    idx = tuple(obs.pair(pt.getIndex()))
    if len(ok) > 1 or min((x + .5) % w, w - (x + .5) % w, (y + .5) % h, h - (y + .5) % h) < 1.5:
        ctx.ev("edge position")
    if ctx.ok(idx in ok, "patch", "pixel (%r, %r) given to patch %r, want %r" % (x, y, idx, ok), **wit):
        ctx.eq(obs.rbox(pt.getInnerBBox()), list(ref.inner_box(spec, *idx)), "inner-box", "patch %r" % (idx,), **wit)
        ctx.eq(obs.rbox(pt.getOuterBBox()), list(ref.outer_box(spec, *idx, (W, H))), "outer-box", "patch %r" % (idx,),
               **wit)
        ctx.eq(obs.patch(pt), obs.patch(t.getPatchInfo(idx)), "patch-value", "patch %r" % (idx,), **wit)
        nx, ny = t.getNumPatches()
        ctx.seen(spec["cls"], spec["projection"], spec["builder"], "in", idx[0] == 0, idx[1] == 0, idx[0] == nx - 1,
                 idx[1] == ny - 1, len(ok))
    if ctx.evals % 97 == 0:
        ctx.sample(**wit, patch=idx)
