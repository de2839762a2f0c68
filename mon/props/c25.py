"""A position that cannot be projected is off the tract: never an error, a wrong patch or lasting damage."""
import contextlib

import numpy as np

from .. import gen, obs, ref

RULE = ("Maps of every kind; chosen (tract, position) pairs are made impossible to project, reported by a non-finite pixel, a "
        "runtime error or a domain error, at the first, last, middle, several or all positions of a query, next to positions "
        "that cannot be projected by themselves (far side of the sky).  The expected answer is the one without those "
        "positions.  Unrelated errors are injected too.  Non-trivial: a distinct (map kind, projection, report, query, which "
        "positions).")
ASSUMPTIONS = ["the two errors and the non-finite pixel are the only ways a position is reported as impossible to project",
               "the stand-in decides by itself which far positions are impossible, as wcslib would"]
ROUNDS = 4
REQUIRED_EVENTS = ("findPatch refused", "contains denied", "findPatchList skipped", "findTractPatchList skipped",
                   "findClosestTractPatchList skipped", "findAllTracts skipped", "far position", "other error passed on",
                   "as before")
MODES = ("nan", "runtime", "domain")


def cases(tier):
    n = 400 if tier == "quick" else 6000
    return ([("production", {"name": p["name"]}) for p in gen.PRODUCTION]
            + [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)])


def key(c):
    return (c.getLongitude().asRadians(), c.getLatitude().asRadians())


def tkey(w):
    return key(w.getSkyOrigin())


class Trouble:
    """Makes chosen (tract centre, position) pairs impossible to project; None stands for every tract."""

    def __init__(self, mode, bad, error=None, value=float("nan")):
        self.mode, self.bad, self.error, self.value, self.hits = mode, bad, error, value, 0

    def is_bad(self, w, c):
        k = key(c)
        return (None, k) in self.bad or (tkey(w), k) in self.bad

    @contextlib.contextmanager
    def on(self):
        from lsst.afw.geom import SkyWcs, WcsFaults
        was, s2p, sky = WcsFaults.mode, SkyWcs._s2p, SkyWcs.skyToPixel
        me = self

        def patched(self, c):
            if me.is_bad(self, c):
                me.hits += 1
                return (me.value, me.value)
            return s2p(self, c)

        def other(self, c):
            if not isinstance(c, (list, tuple)) and me.is_bad(self, c):
                me.hits += 1
                raise me.error
            return sky(self, c)
        WcsFaults.mode = self.mode
        if self.error is None:
            SkyWcs._s2p = patched
        else:
            SkyWcs.skyToPixel = other
        try:
            yield self
        finally:
            WcsFaults.mode, SkyWcs._s2p, SkyWcs.skyToPixel = was, s2p, sky


def plist(ps):
    return [[obs.pair(p.getIndex()), obs.rbox(p.getInnerBBox()), obs.rbox(p.getOuterBBox())] for p in ps]


def tlist(r):
    return sorted([obs.num(t.getId()), plist(ps)] for t, ps in r)


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=8)
        if spec["cls"] == "healpix":
            spec["log2NSide"] = min(spec["log2NSide"], 1)
    m = obs.build(ctx, spec)
    n = len(m)
    for i in obs.tract_ids(n, rng, 2)[:3]:
        for mode in MODES:
            one(ctx, spec, m, m[i], mode, rng)
    whole = n <= 40
    for _ in range(3):
        mapwide(ctx, spec, m, m[rng.randrange(n)], rng.choice(MODES), rng, whole)
    many(ctx, spec, m, rng)
    for mode in MODES:
        far(ctx, spec, m, m[rng.randrange(n)], mode, rng)


def inside(t, rng, k):
    """Distinct positions well inside a tract."""
    b = obs.rbox(t.getBBox())
    out = []
    import lsst.geom as geom
    x0, y0, x1, y1 = 0, 0, b[2], b[3]
    if len(t) > 400:        # keep the lists of patches short
        w, h = obs.pair(t.getPatchInnerDimensions())
        x0, y0 = rng.uniform(0, x1 - 4*w), rng.uniform(0, y1 - 4*h)
        x1, y1 = x0 + 4*w, y0 + 4*h
    for _ in range(k):
        out.append(t.getWcs().pixelToSky(geom.Point2D(rng.uniform(x0, x1), rng.uniform(y0, y1))))
    return [c for c in out if np.isfinite(key(c)).all() and t.contains(c)]


def pick(rng, k):
    """Which of k positions go bad."""
    how = rng.choice(["first", "last", "middle", "all", "some", "some", "all but one"])
    if how == "first":
        return how, {0}
    if how == "last":
        return how, {k - 1}
    if how == "middle":
        return how, {k//2}
    if how == "all":
        return how, set(range(k))
    if how == "all but one":
        return how, set(range(k)) - {rng.randrange(k)}
    return how, {j for j in range(k) if rng.random() < .5}


def one(ctx, spec, m, t, mode, rng):
    cs = inside(t, rng, rng.choice([1, 2, 3, 4, 6]) if rng.random() < 0.9 else rng.choice([30, 120]))
    if not cs:
        return
    how, bad = pick(rng, len(cs))
    wit = dict(spec=spec, tract=obs.num(t.getId()), mode=mode, coords=[key(c) for c in cs], bad=sorted(bad))
    before = [plist(t.findPatchList(cs)), [obs.patch(t.findPatch(c)) for c in cs], [bool(t.contains(c)) for c in cs]]
    want = plist(t.findPatchList([c for j, c in enumerate(cs) if j not in bad]))
    rec = obs.tract(t)
    tr = Trouble(mode, {(rng.choice([None, tkey(t.getWcs())]), key(cs[j])) for j in bad})
    with tr.on():
        r = obs.attempt(t.findPatchList, cs)
        if tr.hits:
            ctx.ev("findPatchList skipped")
        if ctx.ok(r[0] == "ok", "list-error", "findPatchList with %s of %d positions not projectable (%s): %r" % (
                how, len(cs), mode, r[-1]), **wit):
            ctx.eq(sorted(plist(r[1])), sorted(want), "list", "findPatchList with %s of %d positions not projectable (%s)" % (
                how, len(cs), mode), **wit)
        for j, c in enumerate(cs):
            r = obs.attempt(t.findPatch, c)
            q = obs.attempt(t.contains, c)
            if j in bad:
                ctx.ev("findPatch refused")
                ctx.ok(r[0] == "exc" and issubclass(r[1], LookupError), "findPatch",
                       "findPatch of a position that cannot be projected (%s): %r" % (mode, r[-1]), **wit)
                ctx.ev("contains denied")
                ctx.ok(q[0] == "ok" and not q[1], "contains", "contains of a position that cannot be projected (%s): %r" % (
                    mode, q[-1]), **wit)
            else:
                ctx.ok(r[0] == "ok" and obs.patch(r[1]) == before[1][j], "neighbour", "findPatch of a good position: %r" % (
                    r[-1],), **wit)
                ctx.ok(q[0] == "ok" and q[1], "neighbour", "contains of a good position: %r" % (q[-1],), **wit)
    ctx.seen(spec["cls"], spec["projection"], spec["builder"], mode, "tract", how, len(cs))
    ctx.ev("as before")
    ctx.eq([plist(t.findPatchList(cs)), [obs.patch(t.findPatch(c)) for c in cs], [bool(t.contains(c)) for c in cs]], before,
           "after", "answers after the trouble is over", **wit)
    ctx.eq(repr(obs.tract(t)), repr(rec), "after", "tract after the trouble is over", **wit)
    # an infinite pixel is no pixel either
    with Trouble("nan", {(None, key(cs[0]))}, value=rng.choice([float("inf"), -float("inf")])).on():
        q = obs.attempt(t.contains, cs[0])
        ctx.ok(q[0] == "ok" and not q[1], "contains-inf", "contains of a position at infinity: %r" % (q[-1],), **wit)
    # anything else that goes wrong is not taken for "off the tract"
    err = rng.choice([MemoryError("injected"), ValueError("injected"), ZeroDivisionError("injected"), OSError("injected"),
                      KeyboardInterrupt("injected")])
    with Trouble("nan", {(None, key(c)) for c in cs}, error=err).on():
        for what, f in (("findPatch", lambda: t.findPatch(cs[0])), ("contains", lambda: t.contains(cs[0])),
                        ("findPatchList", lambda: t.findPatchList(cs))):
            got = None
            try:
                got = f()
            except BaseException as e:  # noqa: B902
                ctx.ok(e is err or e.__cause__ is err or e.__context__ is err, "other-error",
                       "%s passed on %r for %r" % (what, e, err), **wit)
                ctx.ok(not isinstance(e, LookupError), "other-error", "%s turned %r into %r" % (what, err, e), **wit)
                ctx.ev("other error passed on")
            else:
                ctx.fail("other-error", "%s hid %r and gave %r" % (what, err, got), **wit)
    ctx.eq(repr(obs.tract(t)), repr(rec), "after", "tract after an unrelated error", **wit)


def many(ctx, spec, m, rng):
    """Many positions that cannot be projected, in one question and over many."""
    t = m[rng.randrange(len(m))]
    cs = inside(t, rng, 2)
    if len(cs) < 2:
        return
    mode = rng.choice(MODES)
    want = plist(t.findPatchList(cs[:1]))
    n = rng.choice([20, 150, 1100]) if rng.random() < 0.2 else 20
    wit = dict(spec=spec, tract=obs.num(t.getId()), mode=mode, times=n)
    with Trouble(mode, {(None, key(cs[1]))}).on():
        r = obs.attempt(t.findPatchList, [cs[1]]*n + [cs[0]] + [cs[1]]*2)
        if ctx.ok(r[0] == "ok", "many", "findPatchList with %d positions not projectable (%s): %r" % (n, mode, r[-1]), **wit):
            ctx.eq(sorted(plist(r[1])), sorted(want), "many", "findPatchList with %d positions not projectable" % n, **wit)
        for _ in range(n):
            q = obs.attempt(t.contains, cs[1])
            if not ctx.ok(q[0] == "ok" and not q[1], "many", "contains of a position that cannot be projected: %r" % (q[-1],),
                          **wit):
                break
        ctx.ok(bool(t.contains(cs[0])), "many", "good position not contained after %d bad ones" % n, **wit)
        r = obs.attempt(t.findPatchList, [cs[1], cs[0]])
        ctx.ok(r[0] == "ok" and sorted(plist(r[1])) == sorted(want), "many", "findPatchList after %d bad positions: %r" % (
            2*n, r[-1]), **wit)
    ctx.ev("many bad positions", n)


def mapwide(ctx, spec, m, t, mode, rng, whole):
    """Queries over all tracts when some positions fail for some tracts."""
    cs = inside(t, rng, rng.choice([1, 2, 4]))
    if not cs:
        return
    how, bad = pick(rng, len(cs))
    everywhere = rng.random() < .5
    pairs = {(None if everywhere else tkey(t.getWcs()), key(cs[j])) for j in bad}
    good = [c for j, c in enumerate(cs) if j not in bad]
    tid = t.getId()
    wit = dict(spec=spec, tract=obs.num(tid), mode=mode, coords=[key(c) for c in cs], bad=sorted(bad), everywhere=everywhere)
    same = [tt for tt in (m if whole else [t]) if tkey(tt.getWcs()) == tkey(t.getWcs())]
    if len(same) != 1 or spec.get("version") == 0 and spec["cls"] == "rings":
        # two tracts with one centre (up to rounding) cannot be told apart by it
        everywhere = True
        pairs = {(None, key(cs[j])) for j in bad}

    alls = None
    if hasattr(m, "findAllTracts"):
        alls = [[tt.getId() for tt in m.findAllTracts(c)] for c in cs]
    want = []
    for i in range(len(m)) if whole else []:
        ok = [j for j in range(len(cs)) if j not in bad or not (everywhere or i == tid)]
        if alls is not None and not any(i in alls[j] for j in ok):
            continue        # such maps list the tracts that hold one of the positions
        p = obs.attempt(m[i].findPatchList, [cs[j] for j in ok])
        if p[0] == "exc" and issubclass(p[1], OverflowError):
            ctx.ev("pixel position off the integers")
            return
        p = p[1] if p[0] == "ok" else None
        if p:
            want.append([i, plist(p)])
    near = [m.findTract(c) for c in cs]
    wantc, done = [], set()
    for tt in near:
        i = tt.getId()
        p = tt.findPatchList(good if everywhere or i == tid else cs)
        if p and i not in done:
            done.add(i)
            wantc.append([obs.num(i), plist(p)])
    before = tlist(m.findClosestTractPatchList(cs))
    tr = Trouble(mode, pairs)
    with tr.on():
        if whole:
            r = obs.attempt(m.findTractPatchList, cs)
            if tr.hits:
                ctx.ev("findTractPatchList skipped")
            if ctx.ok(r[0] == "ok", "map-error", "findTractPatchList (%s): %r" % (mode, r[-1]), **wit):
                ctx.eq(tlist(r[1]), want, "map-list", "findTractPatchList with %s of %d positions not projectable" % (
                    how, len(cs)), **wit)
        h = tr.hits
        r = obs.attempt(m.findClosestTractPatchList, cs)
        if tr.hits > h:
            ctx.ev("findClosestTractPatchList skipped")
        if ctx.ok(r[0] == "ok", "map-error", "findClosestTractPatchList (%s): %r" % (mode, r[-1]), **wit):
            ctx.eq(tlist(r[1]), sorted(wantc), "closest-list",
                   "findClosestTractPatchList with %s of %d positions not projectable" % (how, len(cs)), **wit)
        for j, c in enumerate(cs):
            r = obs.attempt(m.findTract, c)
            ctx.ok(r[0] == "ok" and r[1].getId() == near[j].getId(), "findTract", "findTract of position %d: %r" % (j, r[-1]),
                   **wit)
        if alls is not None:
            for j, c in enumerate(cs):
                h = tr.hits
                r = obs.attempt(m.findAllTracts, c)
                if tr.hits > h:
                    ctx.ev("findAllTracts skipped")
                want_j = alls[j] if j not in bad else [] if everywhere else [i for i in alls[j] if i != tid]
                if ctx.ok(r[0] == "ok", "map-error", "findAllTracts (%s): %r" % (mode, r[-1]), **wit):
                    ctx.eq(sorted(x.getId() for x in r[1]), sorted(want_j), "all-tracts", "findAllTracts, position %d" % j,
                           **wit)
    ctx.seen(spec["cls"], spec["projection"], mode, "map", how, everywhere, whole)
    ctx.ev("as before")
    ctx.eq(tlist(m.findClosestTractPatchList(cs)), before, "after", "findClosestTractPatchList once the trouble is over", **wit)


def far(ctx, spec, m, t, mode, rng):
    """Positions that really are on the far side, alone and mixed with near ones."""
    c0 = t.getCtrCoord()
    ra, dec = c0.getLongitude().asDegrees(), c0.getLatitude().asDegrees()
    out = []
    for _ in range(8):
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        v /= np.linalg.norm(v)
        d = float(ref.sep(v, ref.vec(ra, dec)))
        if 95 < d < 175:
            a, b = ref.lonlat(v)
            if not gen.singular(spec, float(b)):
                out.append(gen.sp(float(a), float(b)))
    rw = obs.refwcs(t, spec)
    cs = inside(t, rng, 2)
    b = obs.rbox(t.getBBox())
    from lsst.afw.geom import WcsFaults
    for c in out:
        p = rw.s2p(np.array([key(c)[0]*180/np.pi]), np.array([key(c)[1]*180/np.pi]))[0]
        gone = not np.isfinite(p).all()
        off = gone or not (-1 < p[0] < b[2] + 1 and -1 < p[1] < b[3] + 1)
        if not off:
            continue
        wit = dict(spec=spec, tract=obs.num(t.getId()), mode=mode, coord=key(c), pixel=p.tolist())
        with Trouble(mode, set()).on():
            n0 = WcsFaults.raised
            r = obs.attempt(t.findPatch, c)
            q = obs.attempt(t.contains, c)
            ctx.ev("far position")
            if WcsFaults.raised > n0:
                ctx.ev("far position impossible to project")
            ctx.ok(r[0] == "exc" and issubclass(r[1], LookupError), "far", "findPatch on the far side (%s): %r" % (mode, r[-1]),
                   **wit)
            ctx.ok(q[0] == "ok" and not q[1], "far", "contains on the far side (%s): %r" % (mode, q[-1]), **wit)
            if gone:
                for lst in ([c], cs + [c], [c] + cs):
                    want = plist(t.findPatchList([x for x in lst if x is not c]))
                    l = obs.attempt(t.findPatchList, lst)
                    ctx.ok(l[0] == "ok" and sorted(plist(l[1])) == sorted(want), "far-list",
                           "findPatchList with a position on the far side (%s): %r" % (mode, l[-1]), **wit)
        ctx.seen(spec["cls"], spec["projection"], mode, "far", gone)
