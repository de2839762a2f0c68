"""The looked-up tract really contains the position, and so does one of its patches."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Sky maps that cover the sky (rings, dodecahedron, HEALPix) or a band of it (equatorial), with at least the "
        "stated overlap; positions uniform, at poles, on corners and edges of inner regions.  Non-trivial: a distinct "
        "(map shape, tract row, position class) whose containment was judged from wcslib pixel positions.")
ASSUMPTIONS = ["coverage is claimed for overlaps of at least 1/18 of the ring spacing (two or more rings), 3.5 deg for "
               "curved-edge dodecahedron projections, 1/10 of a HEALPixel, any positive overlap for equatorial bands",
               "a position within 1e-6 pixel of a bbox edge may be either in or out"]
ROUNDS = 5
REQUIRED_EVENTS = ("contains", "findPatch", "boundary position", "reach", "remainder")


def cases(tier):
    n = 30 if tier == "quick" else 300
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION if p["cls"] != "discrete"
           and p.get("version") != 0 or p["cls"] == "healpix"]
    out += [("random", {"kind": k}) for _ in range(n) for k in ("rings", "rings", "dodeca", "equat", "healpix")]
    out += [("rings0", {})]*(10 if tier == "quick" else 60)
    out += [("bigrings", {})]*(10 if tier == "quick" else 60)
    out += [("thin", {"k": k}) for k in range(6 if tier == "quick" else 30)]
    out += [("rotated", {"k": k}) for k in range(4 if tier == "quick" else 20)]
    out += [("reach", {"kind": k}) for _ in range(n//2) for k in ("rings", "dodeca", "equat", "healpix", "discrete")]
    return out


def covered(rng, kind, **kw):
    s = gen.spec_random(rng, kinds=(kind,), regime="covered", **kw)
    if kind == "dodeca":
        s["projection"] = rng.choice(["TAN", "STG", "STG", "ZEA", "ARC"])
        if s["projection"] == "TAN":
            s["tractOverlap"] = rng.choice([0.01, 0.5, 3.5, 6.0])
        else:
            s["tractOverlap"] = max(3.5, s["tractOverlap"])
        s["rotation"] = rng.choice([0.0, 0.0, 30.0, 45.0, 90.0]) if s["projection"] == "TAN" else 0.0
    elif kind == "healpix":
        s["tractOverlap"] = max(s["tractOverlap"], 0.1*58.7/2**s["log2NSide"])
        s["projection"] = rng.choice(["TAN", "STG"])
        s["rotation"] = rng.choice([45.0, 45.0, 0.0])
    elif kind == "rings":
        s["rotation"] = rng.choice([0.0, 0.0, 0.0, 90.0, 180.0, 270.0])
    return s


def run_case(ctx, name, params, rng):
    known = None
    if name == "reach":
        return reach(ctx, params["kind"], rng)
    if name == "production":
        spec = gen.production(params["name"])
        if spec["cls"] == "healpix":
            spec["tractOverlap"] = 3.0
        if params["name"] == "rings_default":
            known = "thin-overlap"   # 1 deg on 45 deg rings
    elif name == "rings0":
        spec = covered(rng, "rings", version=0)
    elif name == "bigrings":
        spec = covered(rng, "rings", version=1)
        spec["numRings"] = rng.choice([40, 60, 100, 119, 120, 127, 128, 200, 256])
        spec["tractOverlap"] = 180.0/(spec["numRings"] + 1)*rng.choice([0.06, 0.1, 0.3])
    elif name == "thin":
        known = "thin-overlap"
        if params["k"] % 2:
            spec = covered(rng, "dodeca")
            spec["projection"], spec["tractOverlap"], spec["rotation"] = "STG", 0.0, 0.0
        else:
            spec = covered(rng, "rings", version=1)
            spec["projection"], spec["tractOverlap"] = "TAN", 0.0
            spec["numRings"] = rng.choice([3, 5, 12])
        fine_pixels(spec)
    elif name == "rotated":
        known = "rotated-square"
        spec = covered(rng, "rings", version=1)
        spec["rotation"] = rng.choice([45.0, 30.0])
        spec["tractOverlap"] = 0.1*180/(spec["numRings"] + 1)
        fine_pixels(spec)
    else:
        spec = covered(rng, params["kind"])
    judge(ctx, spec, rng, known, 150 if not ctx.thorough else 600)


def fine_pixels(spec):
    """Small patches, so that rounding up to whole patches does not hide a shortfall."""
    spec.update(builder="legacy", dims=[20, 20], border=3)
    half = 40.0 if spec["cls"] == "dodeca" else 180.0/(spec["numRings"] + 1)/2 + spec["tractOverlap"]
    spec["pixelScale"] = 2*half*3600/600.0


def edge_positions(R, spec, m, rng, n):
    """Positions on boundaries of inner regions: (ra, dec, ids of the tracts that share it)."""
    out = []
    if spec["cls"] == "rings":
        for _ in range(n):
            i = rng.randrange(len(R))
            a, b, lo, hi = R.ranges[i]
            fx, fy = rng.choice([(0, rng.random()), (1, rng.random()), (rng.random(), 0), (rng.random(), 1),
                                 (0, 0), (1, 1), (0, 1), (1, 0)])
            ra, dec = a + fx*(b - a), lo + fy*(hi - lo)
            if abs(dec) < 90:
                out.append((ra, dec, {i}))
    elif spec["cls"] == "dodeca":
        ctr = np.array([gen.pvec(t.getCtrCoord()) for t in m])
        for _ in range(n):
            t = m[rng.randrange(12)]
            v = [gen.pvec(p) for p in t.getVertexList()]
            k = rng.randrange(5)
            w = v[k] + (v[(k + 1) % 5] - v[k])*rng.choice([0.0, 0.5, rng.random()])
            w = w/np.linalg.norm(w)
            d = ref.sep(ctr, w)
            ra, dec = ref.lonlat(w)
            out.append((float(ra), float(dec), set(np.nonzero(d < d.min() + 1e-6)[0].tolist())))
    elif spec["cls"] == "equat":
        for _ in range(n):
            i = rng.randrange(len(R))
            a, b, lo, hi = R.ranges[i]
            out.append((b, lo + rng.choice([0, 1, rng.random()])*(hi - lo), {i, (i + 1) % len(R)}))
    return out


def judge(ctx, spec, rng, known, npos):
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    refs = {}

    def inside(t, ra, dec):
        """(definitely in, definitely out) by wcslib, with a margin of 1e-6 pixel."""
        tid = t.getId()
        if tid not in refs:
            refs[tid] = obs.refwcs(t, spec)
        x, y = refs[tid].s2p(ra, dec)[0]
        b = obs.rbox(t.getBBox())
        if not (math.isfinite(x) and math.isfinite(y)):
            return False, True, (x, y)
        e = min(x - (b[0] - 0.5), (b[2] + 0.5) - x, y - (b[1] - 0.5), (b[3] + 0.5) - y)
        return e > 1e-6, e < -1e-6, (x, y)

    def key(t, base):
        """Is a shortfall the recorded limitation (geometry exactly as configured) or something else?"""
        if known is None:
            return base
        tid = t.getId()
        rt = ref.RefTract(spec, *_ctr(R, t, spec), **_shape(R, t, spec))
        w = t.getWcs()
        d = obs.rbox(t.getBBox())
        ok = rt.accept(obs.pair(t.getNumPatches()), (d[2] + 1, d[3] + 1), list(w.getPixelOrigin()))
        return known if ok else base

    todo = [(ra, dec, None) for ra, dec in (gen.sky(rng) for _ in range(npos))]
    if spec["cls"] == "equat":
        lo, hi = spec["decRange"]
        todo = [(ra, rng.choice([lo, hi, rng.uniform(lo, hi)]), None) for ra, _, _ in todo]
    todo += edge_positions(R, spec, m, rng, npos//2)
    if spec["cls"] == "rings" and spec["version"] == 0:
        todo = [t for t in todo if t[2] is None]
    for ra, dec, shared in todo:
        p = gen.sp(ra, dec)
        t = m.findTract(p)
        tid = obs.num(t.getId())
        if spec["cls"] == "rings" and spec["version"] == 0:
            # the documented hole of the old numbering: the last ring has no tract 0
            r = R.ringSize
            y = (math.radians(dec) + math.pi/2)/r - 0.5
            if int(math.floor(y + 1e-9)) == spec["numRings"] - 1 or int(math.floor(y - 1e-9)) == spec["numRings"] - 1:
                x = (ra - spec["raStart"]) % 360.0/360.0*R.ringNums[-1]
                if x < 0.5 + 1e-6 or x > R.ringNums[-1] - 0.5 - 1e-6:
                    ctx.ev("hole of the old numbering")
                    continue
        for u in [t] + [m[i] for i in sorted((shared or set()) - {tid})]:
            sure_in, sure_out, xy = inside(u, ra, dec)
            c = u.contains(p)
            ctx.ev("contains")
            if shared is not None:
                ctx.ev("boundary position")
            ctx.seen(spec["cls"], spec.get("version"), spec.get("numRings"), obs.num(u.getId()) if len(m) < 50 else
                     R.slots[obs.num(u.getId())][0] if spec["cls"] == "rings" else 0, shared is not None, abs(dec) > 88)
            if not ctx.ok(not sure_out, key(u, "coverage") if sure_out else "", "tract %r is given for (%r, %r), at pixel %r "
                          "outside its bbox %r" % (u.getId(), ra, dec, xy, obs.rbox(u.getBBox())), spec=spec):
                continue
            if not sure_in:
                continue
            ctx.ok(c is True or c == True, "contains", "tract %r does not say it contains (%r, %r), pixel %r of %r" % (  # noqa: E712
                u.getId(), ra, dec, xy, obs.rbox(u.getBBox())), spec=spec)
            r = obs.attempt(u.findPatch, p)
            ctx.ev("findPatch")
            if ctx.ok(r[0] == "ok", "findPatch", "findPatch(%r, %r) in tract %r: %r" % (ra, dec, u.getId(), r), spec=spec):
                b = obs.rbox(r[1].getInnerBBox())
                ctx.ok(b[0] - .5 - 1e-6 <= xy[0] <= b[2] + .5 + 1e-6 and b[1] - .5 - 1e-6 <= xy[1] <= b[3] + .5 + 1e-6,
                       "findPatch-box", "patch %r inner bbox %r does not contain pixel %r" % (
                           r[1].getIndex(), b, xy), spec=spec)
    ctx.sample(spec=spec, positions=len(todo), first=todo[0][:2])


def _ctr(R, t, spec):
    if R.centers is None:
        c = t.getCtrCoord()
        c = (c.getLongitude().asDegrees(), c.getLatitude().asDegrees())
        return c, c
    return R.centers[t.getId()], R.crvals[t.getId()]


def _shape(R, t, spec):
    if spec["cls"] in ("rings", "discrete"):
        return {"radius": R.radius[t.getId()]}
    return {"vertices": [gen.pvec(v) for v in t.getVertexList()]}


def reach(ctx, kind, rng):
    """The grid extends half the overlap beyond the inner region, in every direction, without the help of rounding."""
    if kind == "discrete":
        spec = gen.spec_random(rng, kinds=(kind,))
        spec["rotation"] = 0.0
        spec["radiusList"] = [min(r, 5.0) for r in spec["radiusList"]]
        spec["projection"] = rng.choice(["TAN", "STG", "ZEA", "ARC"])
    else:
        spec = covered(rng, kind)
    spec["tractOverlap"] = rng.choice([0.3, 1.0, 2.0, 4.0, 0.03, 0.015, 0.005, 0.0005])
    if kind == "rings":
        spec["rotation"] = rng.choice([0.0, 90.0, 180.0, 270.0])
        spec["numRings"] = rng.randint(5, 20)
    fine_pixels_any(spec, rng)
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    if rng.random() < 0.4:
        # patches that leave a remainder of a few pixels, for which one more patch is needed
        b = obs.rbox(m[rng.randrange(len(m))].getBBox())
        dims = []
        for n in (b[2] + 1, b[3] + 1):
            d = spec["dims"][len(dims)]
            fit = [(n - r)//k for r in range(0, 4 + d) for k in (1, 2, 3, 5) if (n - r) % k == 0 and (n - r)//k >= 8]
            dims.append(rng.choice(fit) if fit else d)
        spec.update(dims=dims, border=rng.choice([0, 2, 10, 100, max(dims)]))
        m = obs.build(ctx, spec)
        ctx.ev("remainder")
    half = spec["tractOverlap"]/2
    for tid in obs.tract_ids(len(m), rng, 8):
        t = m[tid]
        rw = obs.refwcs(t, spec)
        b = obs.rbox(t.getBBox())
        edge = []
        if kind in ("rings", "discrete"):
            # directly north, south, east and west of the centre
            c = t.getCtrCoord()
            c = (c.getLongitude().asDegrees(), c.getLatitude().asDegrees())
            r = R.radius[tid]
            for k in (0, 90, 180, 270):
                edge.append(ref.offset(c[0], c[1], k, r + 0.97*half*rng.choice([1, rng.random()])))
        else:
            vs = [gen.pvec(v) for v in t.getVertexList()]
            for v in vs:
                ra, dec = ref.lonlat(v)
                for _ in range(6):
                    edge.append(ref.offset(float(ra), float(dec), rng.choice([rng.uniform(0, 360), rng.randrange(24)*15.0]),
                                           0.97*half*rng.choice([1, 1, rng.random()])))
        for v in edge:
            ra, dec = ref.lonlat(v)
            if gen.singular(spec, float(dec)):
                continue
            x, y = rw.s2p(float(ra), float(dec))[0]
            if not (math.isfinite(x) and math.isfinite(y)) or max(abs(x), abs(y)) > max(1e5, 3.0*max(b)):
                continue
            ctx.ev("reach")
            ctx.ok(b[0] - .501 <= x <= b[2] + .501 and b[1] - .501 <= y <= b[3] + .501, "reach",
                   "tract %r: (%r, %r), within half the overlap of its inner region, is at pixel (%r, %r) off its grid %r" % (
                       tid, float(ra), float(dec), x, y, b), spec=spec)
            p = gen.sp(float(ra), float(dec))
            if min(x - b[0], b[2] - x, y - b[1], b[3] - y) > 0:
                ctx.ok(bool(t.contains(p)), "contains", "tract %r does not contain pixel (%r, %r) of %r" % (tid, x, y, b),
                       spec=spec)
        ctx.seen("reach", kind, spec["projection"], spec["tractOverlap"])


def fine_pixels_any(spec, rng):
    spec.update(builder="legacy", dims=[rng.choice([1, 3]), rng.choice([1, 2])], border=rng.choice([0, 2]))
    size = {"dodeca": 80.0, "rings": 180.0/(spec.get("numRings", 1) + 1), "equat": 360.0/spec.get("numTracts", 1),
            "healpix": 60.0/2**spec.get("log2NSide", 0), "discrete": 2*max(spec.get("radiusList") or [1.0])}[spec["cls"]]
    spec["pixelScale"] = min((size + 2*spec["tractOverlap"])*3600/rng.choice([300.0, 500.0]),
                             spec["tractOverlap"]*3600/rng.choice([5.0, 20.0]))
