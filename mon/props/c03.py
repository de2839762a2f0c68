"""Vectorised tract lookup agrees with the one-position lookup."""
import math

import numpy as np

from .. import gen, obs, ref
from . import c01

RULE = ("Sky maps of every kind; position arrays of many sizes, layouts and element types, in degrees and radians, "
        "including scalars, lists, strided and read-only arrays.  Non-trivial: a distinct (map shape, input form, "
        "unit, size class) whose every element was compared with the scalar lookup or the reference owner.")
ASSUMPTIONS = ["elements within 1e-9 rad of a tract boundary may go to either side"]
ROUNDS = 8
REQUIRED_EVENTS = ("array call", "element compared", "scalar input", "bulk element compared", "turns added", "narrow type",
                   "odd type")

FORMS = ("array", "list", "tuple", "strided", "reversed", "readonly", "fortran2", "one", "scalar", "pyfloat", "int",
         "float32", "empty", "intscalar", "narrow", "odd")
NARROW = ("i1", "u1", "i2", "u2", "i4", "u8", ">i2")
ODD = (">f8", ">f4", "f2", "g", "O", "S")


def cases(tier):
    n = 12 if tier == "quick" else 120
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": k}) for _ in range(n) for k in gen.ALL + ("rings", "rings", "rings")]
    out += [("bulk", {"k": k}) for k in range(16 if tier == "quick" else 120)]
    out += [("long", {"kind": k}) for _ in range(1 if tier == "quick" else 10) for k in ("dodeca", "equat", "discrete", "healpix")]
    return out


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    elif name == "long":
        return long(ctx, gen.spec_random(rng, kinds=(params["kind"],)), rng)
    elif name == "bulk":
        spec = gen.spec_random(rng, kinds=("rings",), max_rings=256)
        if params["k"] % 2:
            spec["numRings"] = rng.choice([1, 2, 31, 32, 63, 64, 100, 120, 127, 128, 180, 255, 256, 400])
            spec["tractOverlap"] = min(spec["tractOverlap"], 0.3)
        return bulk(ctx, spec, rng)
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],))
        if name == "random" and rng.random() < 0.12:
            spec = gen.big(rng, spec, ("tracts",))
            ctx.ev("big")
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    prep(R, spec)
    centers = None
    if spec["cls"] == "dodeca":
        centers = np.array([gen.pvec(t.getCtrCoord()) for t in m])
    elif spec["cls"] != "rings":
        centers = np.array([ref.vec(*c) for c in R.centers])
    for form in FORMS:
        for degrees in (True, False):
            one(ctx, spec, m, R, centers, rng, form, degrees)


def prep(R, spec):
    if spec["cls"] == "rings":
        R.byslot = {}
        for i, s in enumerate(R.slots):
            R.byslot.setdefault(s, []).append(i)


def one(ctx, spec, m, R, centers, rng, form, degrees):
    n = {"one": 1, "scalar": 1, "pyfloat": 1, "empty": 0, "intscalar": 1}.get(form, rng.choice([1, 2, 3, 7, 20, 40]))
    pos = c01.positions(rng, R, spec, n) if n else []
    if form in ("int", "intscalar", "narrow"):
        pos = [(float(int(a)), float(int(d))) for a, d in pos]
        if not degrees:
            pos = [(float(rng.randint(-7, 13)), float(rng.randint(-1, 1))) for _ in pos]
    ra = np.array([p[0] for p in pos], dtype=float)
    dec = np.array([p[1] for p in pos], dtype=float)
    dt = rng.choice(NARROW if form == "narrow" else ODD)
    if form == "narrow":
        if dt in ("i1", "u1"):
            ra = ra % (128 if dt == "i1" else 256)
        if dt[0] == "u":
            ra, dec = np.abs(ra), np.abs(dec)
    if form not in ("int", "intscalar", "float32", "narrow", "odd") and rng.random() < 0.3:       # whole turns change nothing
        ra = ra + 360.0*np.array([rng.choice([0, 0, -1, 1, 7, -50, 1000]) for _ in pos])
        ctx.ev("turns added")
    if not degrees and form not in ("int", "intscalar", "narrow"):
        ra, dec = np.deg2rad(ra), np.clip(np.deg2rad(dec), -math.pi/2, math.pi/2)
    a, d = ra.copy(), dec.copy()
    if form == "list":
        a, d = a.tolist(), d.tolist()
    elif form == "tuple":
        a, d = tuple(a.tolist()), tuple(d.tolist())
    elif form == "strided":
        a, d = np.repeat(a, 3)[::3], np.stack([d, d], 1)[:, 1]
    elif form == "reversed":
        a, d = a[::-1].copy()[::-1], d[::-1].copy()[::-1]
    elif form == "readonly":
        a.setflags(write=False)
        d.setflags(write=False)
    elif form == "fortran2":
        z = np.asfortranarray(np.stack([a, d]))
        a, d = z[0], z[1]
    elif form == "scalar":
        a, d = np.float64(a[0]), np.float64(d[0])
    elif form == "pyfloat":
        a, d = float(a[0]), float(d[0])
    elif form == "int":
        a, d = a.astype(np.int64), d.astype(np.int64)
    elif form == "intscalar":
        a, d = int(a[0]), int(d[0])
    elif form == "float32":
        a, d = a.astype(np.float32), d.astype(np.float32)
        # largest 32-bit value may round past the pole
        lim = np.float32(90.0) if degrees else np.float32(1.5707963)
        d = np.clip(d, -lim, lim)
        ra, dec = a.astype(float), d.astype(float)
    elif form == "narrow":
        a, d = a.astype(dt), d.astype(dt)
        ctx.ev("narrow type")
    elif form == "odd" and dt == "S":         # different types for the two
        a, d = a.astype("f4"), d.astype(">f8")
        ra = a.astype(float)
    elif form == "odd":
        a, d = a.astype(dt), d.astype(dt)
        if dt == "f2" and not degrees:
            d = np.clip(d, np.float16(-1.57), np.float16(1.57))
        elif dt == ">f4" and not degrees:
            d = np.clip(d, np.float32(-1.5707963), np.float32(1.5707963)).astype(dt)
        ra, dec = a.astype(float), d.astype(float)
        ctx.ev("odd type")
    keep = (np.array(a, copy=True), np.array(d, copy=True))
    kw = {"degrees": True} if degrees else ({} if rng.random() < 0.5 else {"degrees": False})
    r = obs.attempt(m.findTractIdArray, a, d, **kw)
    ctx.ev("array call")
    if form in ("scalar", "pyfloat", "intscalar"):
        ctx.ev("scalar input")
    if not ctx.ok(r[0] == "ok", "raises", "findTractIdArray on %s %s (degrees=%s): %r" % (form, (a, d), degrees, r),
                  spec=spec):
        return
    out = np.asarray(r[1])
    if not ctx.ok(out.shape == (n,), "shape", "%d positions (%s) gave shape %r" % (n, form, out.shape), spec=spec):
        return
    ctx.ok(np.array_equal(keep[0], np.asarray(a)) and np.array_equal(keep[1], np.asarray(d)), "input-modified",
           "input arrays were modified (%s)" % form, spec=spec)
    ctx.ok(np.issubdtype(out.dtype, np.integer), "dtype", "ids of %d positions have type %r" % (n, out.dtype), spec=spec)
    if n == 0:
        ctx.ok(out.size == 0, "empty", "empty input")
        return
    import lsst.geom as geom
    u = geom.degrees if degrees else geom.radians
    for i in range(n):
        p = geom.SpherePoint(float(ra[i])*u, float(dec[i])*u)
        want = obs.num(m.findTract(p).getId())
        got = int(out[i])
        ctx.ev("element compared")
        if not ctx.ok(0 <= got < len(m), "range", "id %d of %d" % (got, len(m)), spec=spec):
            continue
        if got != want:
            rr, dd = (ra[i], dec[i]) if degrees else (math.degrees(ra[i]), math.degrees(dec[i]))
            near = ambiguous(R, spec, centers, float(rr), float(dd), 1e-9)
            ctx.ok(near is not None and got in near and want in near, "elementwise",
                   "element %d (%r, %r) deg: array says %d, findTract says %d (%s)" % (i, rr, dd, got, want, form),
                   spec=spec)
        else:
            ctx.evn(1)
    ctx.seen(gen.label(spec), (form, dt) if form in ("narrow", "odd") else form, degrees, n == 1)
    ctx.sample(spec=spec, form=form, degrees=degrees, n=n, ids=out[:5].tolist())


def ambiguous(R, spec, centers, ra, dec, tol):
    """Ids that own some position within tol (rad) of (ra, dec) deg, or None if unknown."""
    ids = set()
    t = math.degrees(tol)
    for da in (-t, 0, t):
        for dd in (-t, 0, t):
            q = c01.owners(spec, R, None, ra + da/max(1e-3, math.cos(math.radians(dec))),
                           max(-90.0, min(90.0, dec + dd)), centers)
            if q[0] is None:
                return None if spec["version"] else set(range(len(R)))
            ids |= q[0]
    return ids


def bulk(ctx, spec, rng):
    """Large arrays, judged against the reference ring arithmetic."""
    m = obs.build(ctx, spec)
    R = ref.RefMap(spec)
    prep(R, spec)
    g = gen.nrng(rng)
    n = rng.choice([1000, 20000, 70000, 100001]) if not ctx.thorough else rng.choice([100001, 400000])
    ra = g.uniform(0, 2*math.pi, n)
    dec = np.arcsin(g.uniform(-1, 1, n))
    k = n//4
    N = np.array(R.ringNums)
    ring = g.integers(0, len(N), k)
    dec[:k] = R.ringSize*(ring + 0.5 + g.uniform(0, 1, k)) - math.pi/2
    ra[:k] = (math.radians(spec["raStart"]) + (g.integers(0, N[ring]) + 0.5)*2*math.pi/N[ring]
              + g.choice([-1e-6, 1e-6, 1e-4], k)) % (2*math.pi)
    y = (dec + math.pi/2)/R.ringSize - 0.5
    r = np.floor(y).astype(int)
    rr = np.clip(r, 0, len(N) - 1)
    x = ((ra - math.radians(spec["raStart"])) % (2*math.pi))/(2*math.pi/N[rr]) + 0.5
    t = np.floor(x).astype(int) % N[rr]
    sure = (np.abs(y - np.round(y)) > 1e-8) & (np.abs(x - np.round(x)) > 1e-8)
    start = np.concatenate([[0], np.cumsum(N)]) + 1
    want = start[rr] + t
    if spec["version"] == 0:
        late = (t == 0) & (rr != 0)
        want = np.where(late, start[rr + 1], want)
    want = np.where(r < 0, 0, np.where(r >= len(N), len(R) - 1, want))
    if rng.random() < 0.5:
        got = np.asarray(m.findTractIdArray(ra, dec))
    else:
        got = np.asarray(m.findTractIdArray(np.rad2deg(ra), np.rad2deg(dec), degrees=True))
    ctx.ev("array call")
    ctx.ok(got.shape == want.shape, "shape", "shape %r" % (got.shape,), spec=spec)
    bad = np.nonzero((got != want) & sure)[0]
    ctx.ev("bulk element compared", int(sure.sum()))
    ctx.evn(int(sure.sum()))
    ctx.ok(len(bad) == 0, "bulk", "" if not len(bad) else "%d of %d wrong; first (%r, %r) rad: got %d want %d" % (
        len(bad), n, ra[bad[0]], dec[bad[0]], got[bad[0]], want[bad[0]]), spec=spec)
    ctx.seen("bulk", spec["numRings"], spec["version"], n)


def long(ctx, spec, rng):
    """Arrays of some thousand positions on maps of every other kind, judged by the distance to each tract's centre."""
    m = obs.build(ctx, spec)
    n = rng.choice([1025, 2049, 4097, 8193, 9001, 10007]) if len(m) <= 13 or spec["cls"] == "healpix" else 2500
    g = gen.nrng(rng)
    ra, dec = g.uniform(0, 360, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))
    if rng.random() < 0.5:
        got = np.asarray(m.findTractIdArray(ra, dec, degrees=True))
    else:
        got = np.asarray(m.findTractIdArray(np.deg2rad(ra), np.deg2rad(dec)))
    ctx.ev("array call")
    ctx.eq(got.shape, (n,), "shape", "shape", spec=spec)
    v = ref.vec(ra, dec)
    if spec["cls"] == "healpix":
        import hpgeom
        t, p = np.deg2rad(90.0 + dec), np.deg2rad(ra)      # see ref.RefMap._healpix
        nside = 2**spec["log2NSide"]
        want = None
        for d in (0.0, 1e-7, -1e-7):
            for e in (0.0, 1e-7, -1e-7):
                q = hpgeom.angle_to_pixel(nside, np.clip(t + d, 0, np.pi), (p + e) % (2*np.pi), nest=spec["nest"],
                                          lonlat=False)
                sure = q == want if want is not None else np.ones(n, bool)
                want, ok = (q, sure) if want is None else (want, ok & sure)
    else:
        if spec["cls"] == "dodeca":
            c = np.array([gen.pvec(t.getCtrCoord()) for t in m])
        else:
            c = np.array([ref.vec(*q) for q in ref.RefMap(spec).centers])
        d = v @ c.T
        want = d.argmax(1)
        s = np.sort(d, 1)
        ok = s[:, -1] - s[:, -2] > 1e-9 if d.shape[1] > 1 else np.ones(n, bool)
    bad = np.nonzero((got[:n] != want[:len(got)]) & ok)[0] if got.shape == (n,) else []
    ctx.ev("bulk element compared", int(ok.sum()))
    ctx.evn(int(ok.sum()))
    ctx.ok(len(bad) == 0, "long", "" if not len(bad) else "%d of %d wrong; first is element %d (%r, %r) deg: got %d want %d" % (
        len(bad), n, bad[0], ra[bad[0]], dec[bad[0]], got[bad[0]], want[bad[0]]), spec=spec)
    ctx.seen("long", spec["cls"], len(m), n)
