"""Listing every tract that includes a position: sound, complete, no repeats (rings maps)."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Rings maps of 1 to 256 rings, both numbering versions, overlaps from zero to more than a ring, rotations; "
        "positions uniform, near poles, near RA 0, near corners of tracts.  The answer is compared with an exhaustive "
        "scan of tracts within reach, judged by wcslib.  Non-trivial: a distinct (map shape, number of tracts found, "
        "row) combination.")
ASSUMPTIONS = ["a tract whose bbox edge is within 1e-6 pixel of the position may be listed or not",
               "version 0: the two identical tracts count as one; the tract missing from the numbering is not expected"]
ROUNDS = 3
REQUIRED_EVENTS = ("findAllTracts", "tract scanned")


def cases(tier):
    n = 150 if tier == "quick" else 1200
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION if p["cls"] == "rings"]
    out += [("default_overlap", {"n": k}) for k in (3, 10, 40, 120, 128)]
    out += [("random", {"k": k}) for k in range(n)]
    return out


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    elif name == "default_overlap":
        spec = gen.spec_random(rng, kinds=("rings",), version=1, rotation=0.0, proj="TAN")
        spec.update(numRings=params["n"], tractOverlap=1.0)
    else:
        spec = gen.spec_random(rng, kinds=("rings",), max_rings=24 if params["k"] % 4 else 256)
        if spec["numRings"] > 60:
            spec["tractOverlap"] = min(spec["tractOverlap"], 180/(spec["numRings"] + 1))
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    npos = (25 if not ctx.thorough else 80)
    cv = np.array([ref.vec(*c) for c in R.centers])
    # how far from its centre a tract can reach: from its own corners
    t0 = m[0]
    rw = obs.refwcs(t0, spec)
    b = obs.rbox(t0.getBBox())
    cor = rw.p2v([b[0] - 1, b[0] - 1, b[2] + 1, b[2] + 1], [b[1] - 1, b[3] + 1, b[1] - 1, b[3] + 1])
    reach = float(np.max(ref.sep(cor, cv[0])))*1.02 + 0.001
    if not math.isfinite(reach):
        reach = 180.0
    refs = {}
    for _ in range(npos):
        k = rng.random()
        if k < 0.5:
            ra, dec = gen.sky(rng)
        elif k < 0.75:
            i = rng.randrange(len(R))
            a, bb, lo, hi = R.ranges[i]
            ra, dec = a + rng.choice([0, 1, 0.5])*(bb - a) + rng.uniform(-.1, .1), rng.choice([lo, hi, (lo + hi)/2])
            dec = max(-90.0, min(90.0, dec + rng.uniform(-.1, .1)))
        else:
            i = rng.randrange(len(R))
            v = ref.offset(*R.centers[i], rng.uniform(0, 360), rng.uniform(0.3, 1.0)*reach)
            ra, dec = (float(x) for x in ref.lonlat(v))
        p = gen.sp(ra, dec)
        got = m.findAllTracts(p)
        ctx.ev("findAllTracts")
        ids = [obs.num(t.getId()) for t in got]
        ctx.ok(len(set(ids)) == len(ids), "repeats", "(%r, %r): listed %r" % (ra, dec, ids), spec=spec)
        near = set(np.nonzero(ref.sep(cv, ref.vec(ra, dec)) <= reach)[0].tolist())
        extra = [i for i in ids if not isinstance(i, int) or not 0 <= i < len(R)]
        if not ctx.ok(not extra, "id", "ids %r" % ids, spec=spec):
            continue
        sure, out = set(), set()
        for i in near | set(ids):
            if i not in refs:
                t = m[i]
                refs[i] = (obs.refwcs(t, spec), obs.rbox(t.getBBox()))
            w, bx = refs[i]
            x, y = w.s2p(ra, dec)[0]
            ctx.ev("tract scanned")
            e = -1.0
            if math.isfinite(x) and math.isfinite(y):
                e = min(x - bx[0] + .5, bx[2] + .5 - x, y - bx[1] + .5, bx[3] + .5 - y)
            if e > 1e-6:
                sure.add(i)
            elif e < -1e-6:
                out.add(i)
        wrong = sorted(set(ids) & out)
        ctx.ok(not wrong, "sound", "(%r, %r): tracts %r do not include it" % (ra, dec, wrong), spec=spec)
        if spec["version"] == 0:
            twins = R.slots
            listed = {twins[i] for i in ids}
            missing = sorted(i for i in sure if twins[i] not in listed)
        else:
            missing = sorted(sure - set(ids))
        ctx.ok(not missing, "complete", "(%r, %r): tracts %r include it, only %r listed" % (ra, dec, missing, ids),
               spec=spec)
        home = m.findTract(p)
        if obs.num(home.getId()) in sure and spec["version"] == 1:
            ctx.ok(home.getId() in ids, "home", "the owner %r is not listed %r" % (home.getId(), ids), spec=spec)
        for t in got[:3]:
            ctx.ok(t.contains(p), "contains", "listed tract %r denies containing it" % t.getId(), spec=spec)
        ctx.seen(gen.label(spec), min(len(ids), 40), R.slots[ids[0]][0] if ids else None)
        ctx.sample(spec=spec, ra=ra, dec=dec, found=ids)
