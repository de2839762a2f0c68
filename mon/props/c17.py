"""The ring layout: which tract has which number, where it is, and what part of its ring it owns."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Ring maps of 1 to 400 rings, both numbering versions, arbitrary starting RA.  The number, ring, place in the ring, "
        "centre and inner RA/Dec range of every tract (of a sample, for the largest maps) are compared with the documented "
        "layout, and as a whole they must tile each ring and the sky exactly.  Non-trivial: a distinct (rings, version, "
        "starting RA class, ring position class) judged.")
ASSUMPTIONS = ["version 0 numbering is the documented one: tract 1 repeats at the end of the first ring, the first tract of "
               "every later ring comes last in the ring, that of the last ring is missing"]
ROUNDS = 6
REQUIRED_EVENTS = ("tract placed", "ring tiled", "bad index", "sky tiled", "region box")


def cases(tier):
    out = [("rings", {"n": n, "version": v, "ra": ra}) for n in list(range(1, 41)) + [60, 64, 100, 120, 127, 128]
           for v in (0, 1) for ra in ((0.0,) if n % 3 else (0.0, 359.9, 123.4))]
    for k in range(40 if tier == "quick" else 400):
        out.append(("random", {"k": k}))
    if tier != "quick":
        out += [("rings", {"n": n, "version": v, "ra": 10.0}) for n in (180, 255, 256, 300, 400) for v in (0, 1)]
    return out


def run_case(ctx, name, params, rng):
    s = gen.spec_random(rng, kinds=("rings",), max_rings=100, builders=("legacy",))
    if name == "rings":
        s.update(numRings=params["n"], version=params["version"], raStart=params["ra"])
        s["tractOverlap"] = min(s["tractOverlap"], 1.0)
        s["pixelScale"] = max(s["pixelScale"], 2*(90.0/(params["n"] + 1) + 1)*3600/40000)
    n = s["numRings"]
    m = obs.build(ctx, s)
    R = ref.RefMap(s)
    ctx.eq(len(m), len(R), "len", "number of tracts for %d rings" % n, spec=s)
    ctx.eq(len(m), sum(R.ringNums) + 2, "len", "number of tracts for %d rings" % n, spec=s)
    N = len(R)
    every = range(N) if N < 6000 else sorted({0, 1, N - 1, N - 2} | {rng.randrange(N) for _ in range(4000)})
    got = {}
    for i in every:
        r = obs.pair(m.getRingIndices(i))
        if s["version"] == 0 and 0 <= r[0] < n and r[1] == R.ringNums[r[0]]:
            r[1] = 0        # version 0 counts this place 1 to k rather than 0 to k - 1
        ctx.eq(tuple(r), R.slots[i], "ring", "ring and place of tract %d" % i, spec=s)
        a = [float(q.asDegrees()) for q in m.getRaDecRange(i)]
        w = R.ranges[i]
        if w[1] - w[0] == 360.0 and R.slots[i][0] not in (-1, n):
            same = circ(a[0], w[0]) < 1e-9 and circ(a[1], w[1]) < 1e-9
        elif R.slots[i][0] in (-1, n):
            same = abs(a[0]) < 1e-9 and abs(a[1] - 360) < 1e-9
        else:
            same = circ(a[0], w[0]) < 1e-9 and circ(a[1], w[1]) < 1e-9
        ctx.ok(same and abs(a[2] - w[2]) < 1e-9 and abs(a[3] - w[3]) < 1e-9, "range",
               "inner range of tract %d is %r, want %r" % (i, a, w), spec=s)
        got[i] = (tuple(r), a)
        ctx.ev("tract placed")
        where = "cap" if r[0] in (-1, n) else "first" if r[0] == 0 else "last" if r[0] == n - 1 else "mid"
        ctx.seen(n, s["version"], s["raStart"] == 0, where, r[1] == 0)
    if len(got) == N:
        whole(ctx, s, R, got)
    for i in (-1, -N, N, N + 1, 10**6):
        ctx.ev("bad index")
        e = obs.attempt(m.getRingIndices, i)
        ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "bad-index", "getRingIndices(%d) of %d: %r" % (i, N, e),
               spec=s)
        e = obs.attempt(m.getRaDecRange, i)
        ctx.ok(e[0] == "exc" and issubclass(e[1], IndexError), "bad-index", "getRaDecRange(%d) of %d: %r" % (i, N, e),
               spec=s)
    # the tracts themselves
    pick = set(every) if N <= 30 else {0, 1, 2, N - 1, N - 2, R.ringNums[0], R.ringNums[0] + 1, rng.randrange(N)} | {
        rng.choice(list(every)) for _ in range(10)}
    pick = sorted(i for i in pick if i < N)
    rng.shuffle(pick)
    for i in pick:
        t = m[i]
        ctx.eq(obs.num(t.getId()), i, "id", "id of tract %d" % i, spec=s)
        ctx.ok(ref.sep(gen.pvec(t.getCtrCoord()), ref.vec(*R.centers[i])) < 1e-9, "center",
               "centre of tract %d is %r, want %r" % (i, obs.coord(t.getCtrCoord()), R.centers[i]), spec=s)
        # what the tract says of its inner region is what the map says
        box = t.getInnerSkyRegion()
        a = got[i][1] if i in got else [float(q.asDegrees()) for q in m.getRaDecRange(i)]
        ctx.ev("region box")
        lat = box.getLat()
        ctx.ok(abs(lat.getA().asDegrees() - a[2]) < 1e-9 and abs(lat.getB().asDegrees() - a[3]) < 1e-9, "region",
               "inner region of tract %d spans Dec %r to %r, map says %r" % (
                   i, lat.getA().asDegrees(), lat.getB().asDegrees(), a), spec=s)
        if R.slots[i][0] in (-1, n):
            ctx.ok(box.getLon().isFull(), "region-cap", "inner region of cap %d spans RA %s" % (i, box.getLon()), spec=s)
        else:
            lon = box.getLon()
            ctx.ok(circ(lon.getA().asDegrees(), a[0]) < 1e-9 and circ(lon.getB().asDegrees(), a[1]) < 1e-9, "region",
                   "inner region of tract %d spans RA %r to %r, map says %r" % (
                       i, lon.getA().asDegrees(), lon.getB().asDegrees(), a), spec=s)
    if s["version"] == 0 and N > 4:
        first, again = m[1], m[R.ringNums[0] + 1]
        if n > 1:
            ctx.ok(ref.sep(gen.pvec(first.getCtrCoord()), gen.pvec(again.getCtrCoord())) < 1e-9, "v0-duplicate",
                   "version 0: tracts 1 and %d differ" % (R.ringNums[0] + 1), spec=s)
    ctx.sample(rings=n, version=s["version"], raStart=s["raStart"], tracts=N, inRings=R.ringNums[:6])


def circ(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def whole(ctx, s, R, got):
    """All inner ranges together tile the sky."""
    n = s["numRings"]
    byring = {}
    for i, (slot, a) in got.items():
        byring.setdefault(slot[0], {}).setdefault(slot[1], a)
    area = 0.0
    for r, row in byring.items():
        lo, hi = row[min(row)][2:]
        if r in (-1, n):
            area += 2*math.pi*(math.sin(math.radians(hi)) - math.sin(math.radians(lo)))
            continue
        k = R.ringNums[r]
        missing = set(range(k)) - set(row)
        want = {0} if s["version"] == 0 and r == n - 1 and n > 1 else set()
        ctx.eq(missing, want, "ring-members", "ring %d lacks places" % r, spec=s)
        ctx.ok(all(a[2:] == [lo, hi] for a in row.values()), "ring-dec", "tracts of ring %d have different Dec ranges" % r,
               spec=s)
        ctx.ev("ring tiled")
        for t in row:
            nxt = row.get((t + 1) % k)
            if nxt is not None:
                ctx.ok(circ(row[t][1], nxt[0]) < 1e-9, "ring-gap", "ring %d: tract %d ends at RA %r, the next starts at %r" % (
                    r, t, row[t][1], nxt[0]), spec=s)
        # no tract is wider, where the ring is widest away from the equator, than the ring is high
        dec = min(abs(lo), abs(hi))
        ctx.ok(360.0/k*math.cos(math.radians(dec)) <= (hi - lo)*(1 + 1e-9), "ring-width",
               "ring %d: tracts %r deg wide, %r deg high" % (r, 360.0/k*math.cos(math.radians(dec)), hi - lo), spec=s)
        area += 2*math.pi*(math.sin(math.radians(hi)) - math.sin(math.radians(lo)))
    decs = sorted((row[min(row)][2], row[min(row)][3]) for row in byring.values())
    ctx.ev("sky tiled")
    ctx.ok(abs(decs[0][0] + 90) < 1e-9 and abs(decs[-1][1] - 90) < 1e-9 and all(
        abs(a[1] - b[0]) < 1e-9 for a, b in zip(decs, decs[1:])), "sky", "Dec ranges do not meet: %r" % (decs,), spec=s)
    ctx.ok(abs(area - 4*math.pi) < 1e-7, "sky-area", "inner ranges cover %r sr" % area, spec=s)
    ctx.ok(np.all(np.isfinite([q for _, a in got.values() for q in a])), "finite", "ranges not finite", spec=s)
