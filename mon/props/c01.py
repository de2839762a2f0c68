"""Tract lookup returns the tract that owns the position."""
import math

import numpy as np

from .. import gen, obs, ref

RULE = ("Random and production sky maps of every kind; positions uniform on the sphere, at the poles, near RA 0, on "
        "and near every kind of tract boundary, with RA outside 0-360.  Non-trivial: a distinct (map shape, ring or "
        "face, position class) for which an owner was established by the reference model.")
ASSUMPTIONS = ["positions within 1e-9 rad of a boundary may go to either side",
               "SpherePoint and SkyWcs are stand-ins for the C++ classes (validated by tools/selfcheck.sh)"]
ROUNDS = 5
REQUIRED_EVENTS = ("findTract", "inner region queried", "exclusivity", "partition area")
EPS = 1e-9


def cases(tier):
    n = 200 if tier == "quick" else 2000
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": k}) for _ in range(n//5) for k in gen.ALL]
    out += [("bigrings", {})]*(20 if tier == "quick" else 120)
    return out


def positions(rng, R, spec, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.45 or R.centers is None:
            out.append(gen.sky(rng))
            continue
        i = rng.randrange(len(R))
        ra, dec = R.centers[i]
        if spec["cls"] in ("rings", "equat"):
            a, b, lo, hi = R.ranges[i]
            fx = rng.choice([0, 1, rng.random(), rng.random()]) + rng.choice([0, 1e-7, -1e-7, 1e-4, -1e-4, 0.02, -0.02])
            fy = rng.choice([0, 1, rng.random(), rng.random()]) + rng.choice([0, 1e-7, -1e-7, 1e-4, -1e-4, 0.02, -0.02])
            if spec["cls"] == "equat":
                fy = rng.choice([fy, rng.uniform(-20, 20)])
            out.append((a + fx*(b - a), max(-90.0, min(90.0, lo + fy*(hi - lo)))))
        else:
            d = rng.choice([0, 1e-6, 0.1, 1, 10, rng.uniform(0, 180)])
            v = ref.offset(ra, dec, rng.uniform(0, 360), d)
            out.append(tuple(float(x) for x in ref.lonlat(v)))
    return out


def ring_owner(R, spec, ra, dec):
    """Acceptable (ring, tract number) owners of a position (deg)."""
    rs, n = R.ringSize, spec["numRings"]
    d = math.radians(dec)
    y = (d + math.pi/2)/rs - 0.5
    out = set()
    for yy in (y - EPS/rs, y, y + EPS/rs):
        r = math.floor(yy)
        if r < 0:
            out.add((-1, 0))
        elif r >= n:
            out.add((n, 0))
        else:
            N = R.ringNums[r]
            x = math.radians((ra - spec["raStart"]) % 360.0)/(2*math.pi/N) + 0.5
            e = EPS/(2*math.pi/N)
            for xx in (x - e, x, x + e):
                out.add((r, math.floor(xx) % N))
    return out


def owners(spec, R, m, ra, dec, centers):
    """Ids the lookup may return, or None when the layout leaves the position unowned."""
    c = spec["cls"]
    v = ref.vec(ra, dec)
    if c == "rings":
        own = ring_owner(R, spec, ra, dec)
        ids = {i for s in own for i in R.byslot.get(s, [])}
        if spec["version"] == 0 and any(s not in R.byslot for s in own):
            return None, own
        return ids, own
    if c == "healpix":
        import hpgeom
        ids = set()
        for dd in (-1e-9, 0, 1e-9):
            for dr in (-1e-9, 0, 1e-9):
                th = min(math.pi, max(0.0, math.radians(dec) + math.pi/2 + dd))
                ids.add(int(hpgeom.angle_to_pixel(R.nside, th, (math.radians(ra) + dr) % (2*math.pi),
                                                  nest=spec["nest"], lonlat=False)))
        return ids, None
    d = ref.sep(centers, v)
    return set(np.nonzero(d <= d.min() + 1e-7)[0].tolist()), None


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    elif name == "bigrings":
        spec = gen.spec_random(rng, kinds=("rings",), max_rings=256)
        spec["numRings"] = rng.choice([60, 64, 100, 119, 120, 127, 128, 150, 200, 255, 256, 300])
        spec["tractOverlap"] = min(spec["tractOverlap"], 1.0)
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],))
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec, ("tracts",))
        ctx.ev("big")
    judge(ctx, spec, rng, 250 if not ctx.thorough else 1000)


def judge(ctx, spec, rng, npos):
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    ctx.eq(len(m), len(R), "length", "number of tracts", spec=spec)
    n = len(R)
    if spec["cls"] == "rings":
        R.byslot = {}
        for i, s in enumerate(R.slots):
            R.byslot.setdefault(s, []).append(i)
        centers = None
    elif spec["cls"] == "dodeca":
        centers = np.array([gen.pvec(t.getCtrCoord()) for t in m])
    else:
        centers = np.array([ref.vec(*c) for c in R.centers])
    small = n <= 60
    whole = spec["cls"] == "dodeca" or (spec["cls"] == "rings" and spec["version"] == 1)
    regions = [t.getInnerSkyRegion() for t in m] if whole and small else None
    for k, (ra, dec) in enumerate(positions(rng, R, spec, npos)):
        p = gen.sp(ra, dec)
        t = m.findTract(p)
        ctx.ev("findTract")
        tid = obs.num(t.getId())
        ids, own = owners(spec, R, m, ra, dec, centers)
        if ids is None:
            ctx.ev("unowned in version 0")
            continue
        ctx.ok(tid in ids, "owner", "position (%r, %r) given to tract %r, owned by %r" % (ra, dec, tid, sorted(ids)),
               spec=spec, ra=ra, dec=dec)
        ctx.seen(spec["cls"], spec.get("version"), spec.get("numRings"), sorted(own)[0] if own else tid,
                 len(ids) > 1, dec > 89 or dec < -89, (ra % 360) < 1 or (ra % 360) > 359)
        if k == 0:
            ctx.sample(spec=spec, ra=ra, dec=dec, tract=tid)
        t2 = m[tid]
        ctx.ok(obs.coord(t2.getCtrCoord()) == obs.coord(t.getCtrCoord()), "same-tract",
               "findTract and indexing disagree on tract %r" % tid, spec=spec)
        if whole:
            v = p.getVector()
            if spec["cls"] == "rings":
                lo = t.getInnerSkyRegion().contains(v) or len(ids) > 1 or near_edge(R, tid, ra, dec)
            else:
                lo = t.getInnerSkyRegion().contains(v) or near_face_edge(centers, ref.vec(ra, dec))
            ctx.ev("inner region queried")
            ctx.ok(lo, "inner-region", "tract %r was returned but its inner sky region does not contain "
                   "(%r, %r)" % (tid, ra, dec), spec=spec)
            if len(ids) == 1 and not (near_edge(R, tid, ra, dec) if spec["cls"] == "rings"
                                      else near_face_edge(centers, ref.vec(ra, dec))):
                if regions is not None:
                    others = [i for i, g in enumerate(regions) if i != tid and g.contains(v)]
                elif k % 5 == 0:
                    cand = {tid - 1, tid + 1, 0, n - 1} | {rng.randrange(n) for _ in range(4)}
                    r, s = R.slots[tid]
                    for rr in (r - 1, r + 1):
                        if 0 <= rr < spec["numRings"]:
                            x = int(((ra - spec["raStart"]) % 360)/360*R.ringNums[rr] + 0.5)
                            cand |= {R.byslot[(rr, (x + j) % R.ringNums[rr])][0] for j in (-1, 0, 1)}
                    others = [i for i in cand if 0 <= i < n and i != tid
                              and m[i].getInnerSkyRegion().contains(v)]
                else:
                    continue
                ctx.ev("exclusivity")
                ctx.ok(not others, "exclusive", "(%r, %r) owned by tract %r is also in the inner region of %r" % (
                    ra, dec, tid, others), spec=spec)
    if whole and n <= 3000:
        area = sum(region_area(t.getInnerSkyRegion()) for t in m)
        ctx.ev("partition area")
        ctx.ok(abs(area - 4*math.pi) < 1e-6, "area", "inner regions cover %.9f sr of %.9f" % (area, 4*math.pi),
               spec=spec)


def near_edge(R, i, ra, dec):
    a, b, lo, hi = R.ranges[i]
    if min(abs(dec - lo), abs(dec - hi)) < 1e-7 or abs(dec) > 90 - 1e-7:
        return True
    if b - a >= 360:
        return False
    x = (ra - a) % 360
    return min(x, 360 - x, abs(x - (b - a))) < 1e-7/max(1e-6, math.cos(math.radians(dec)))


def near_face_edge(centers, v):
    d = np.sort(ref.sep(centers, v))
    return d[1] - d[0] < 1e-6


def region_area(g):
    if hasattr(g, "getVertices"):
        vs = [np.array([v[0], v[1], v[2]]) for v in g.getVertices()]
        a = 0.0
        for i in range(1, len(vs) - 1):
            x, y, z = vs[0], vs[i], vs[i + 1]
            num = abs(np.dot(x, np.cross(y, z)))
            a += 2*math.atan2(num, 1 + x @ y + y @ z + z @ x)
        return a
    w = g.getWidth().asRadians()
    la = g.getLat()
    return w*(math.sin(la.getB().asRadians()) - math.sin(la.getA().asRadians()))
