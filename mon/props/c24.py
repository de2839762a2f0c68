"""Configurations: checked, frozen by the map built from them, saved and restored exactly, old names and registry alike."""
import copy
import io
import os
import pickle
import tempfile

from .. import gen, obs, ref

RULE = ("Random configurations of every kind: set by old and new names, through registry and class, saved to text, file and "
        "pickle and restored, given impossible values, and changed after a map was built from them.  Non-trivial: a distinct "
        "(map kind, builder, field or route).")
ASSUMPTIONS = ["a refusal may come when the value is set, when the configuration is validated, or when the map is built"]
ROUNDS = 4
REQUIRED_EVENTS = ("frozen", "restored", "refused", "old name", "registry", "default map")

REFUSED = {
    "rings": [("numRings", 0), ("numRings", -3), ("raStart", -1e-9), ("raStart", 360.0), ("raStart", 400.0),
              ("numRings", 2.5), ("numRings", "3"), ("raStart", float("nan")), ("raStart", float("inf")), ("raStart", "0"),
              ("numRings", None)],
    "dodeca": [("withTractsOnPoles", 2), ("withTractsOnPoles", "yes")],
    "equat": [("numTracts", "x"), ("decRange", [1.0]), ("decRange", [1.0, 2.0, 3.0]), ("decRange", []), ("numTracts", 0), ("numTracts", -3)],
    "discrete": [("raList", None), ("radiusList", "list"), ("decList", ["a"])],
    "healpix": [("log2NSide", 1.5), ("nest", "no")],
}
COMMON = [("projection", "T"), ("projection", "TANS"), ("projection", ""), ("pixelScale", "x"), ("tractBuilder", "nosuch"),
          ("rotation", "north"), ("tractOverlap", [1.0])]
DEFAULTS = {"dodeca": "dodeca_default", "equat": "equat_default"}


def cases(tier):
    n = 40 if tier == "quick" else 400
    return [("random", {"kind": k}) for _ in range(n) for k in gen.ALL] + [("defaults", {})]


def registry():
    from lsst.skymap import skyMapRegistry
    return skyMapRegistry


def run_case(ctx, name, params, rng):
    if name == "defaults":
        return defaults(ctx, rng)
    s = gen.spec_random(rng, kinds=(params["kind"],), max_rings=12)
    if s["cls"] == "healpix":
        s["log2NSide"] = min(s["log2NSide"], 2)
    c = gen.make_config(s)
    m = gen.build(s, config=c)
    sha = ref.sha1(s)
    wit = dict(spec=s)
    ctx.eq(m.getSha1(), sha, "built", "digest", **wit)
    # used before the attempts to change it: for more maps, copied, saved, compared
    again = [gen.build(s, config=c) for _ in range(rng.randrange(3))]
    if rng.random() < 0.5:
        again += [copy.copy(m), copy.deepcopy(m), pickle.loads(pickle.dumps(m))]
    if rng.random() < 0.5:
        m[rng.randrange(len(m))].getPatchInfo((0, 0))
    ctx.ok(all(x == m for x in again), "built", "a map of the same configuration differs", **wit)
    frozen(ctx, s, m, c, rng, sha)
    routes(ctx, s, c, m, rng)
    names(ctx, s, rng)
    refuse(ctx, s, rng)
    ctx.sample(map=gen.label(s))


def frozen(ctx, s, m, c, rng, sha):
    """Nothing of a map's configuration can be changed any more, by any name."""
    wit = dict(spec=s)
    before = text(c)

    def put(path, v):
        o = c
        for p in path[:-1]:
            o = o[p] if p in ("legacy", "cells") else getattr(o, p)
        setattr(o, path[-1], v)
    tries = [(("pixelScale",), 9.0), (("rotation",), 9.0), (("tractOverlap",), 9.0), (("projection",), "ARC"),
             (("patchBorder",), 9), (("patchInnerDimensions",), [9, 9]), (("tractBuilder", "legacy", "patchBorder"), 9),
             (("tractBuilder", "legacy", "patchInnerDimensions"), [9, 9]), (("tractBuilder", "cells", "cellBorder"), 9),
             (("tractBuilder", "cells", "numCellsPerPatchInner"), 9),
             (("tractBuilder",), "legacy" if s["builder"] == "cells" else "cells"),
             (("tractBuilder", "name"), "legacy" if s["builder"] == "cells" else "cells")]
    for f in gen.SPECIFIC[s["cls"]]:
        v = s[f]
        tries.append(((f,), (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else [1.0, 2.0]
                      if isinstance(v, list) else 9.0))
    for path, v in tries:
        e = obs.attempt(put, path, v)
        ctx.ev("frozen")
        ctx.ok(e[0] == "exc", "frozen", "%s of a built map's configuration could be set" % (path,), **wit)
        ctx.seen(s["cls"], s["builder"], "frozen", path)

    def touch(path, what):
        o = c
        for p in path:
            o = o[p] if p in ("legacy", "cells") else getattr(o, p)
        what(o)
    for path in ([("tractBuilder", "legacy", "patchInnerDimensions"), ("patchInnerDimensions",)]
                 + [(f,) for f in gen.SPECIFIC[s["cls"]] if isinstance(s[f], list)]):
        for what in (lambda o: o.__setitem__(0, 7), lambda o: o.append(3), lambda o: o.__delitem__(0)):
            e = obs.attempt(touch, path, what)
            ctx.ev("frozen")
            ctx.ok(e[0] == "exc", "frozen-list", "%s of a built map's configuration could be changed" % (path,), **wit)
    ctx.eq(text(c), before, "frozen-text", "configuration after attempts to change it", **wit)
    ctx.ok(m.config is c or m.config == c, "kept", "the map's configuration is not the one given", **wit)
    ctx.eq(m.getSha1(), sha, "frozen-digest", "digest after attempts", **wit)
    n = obs.attempt(lambda: obs.tract(m[len(m) - 1]))
    ctx.eq(n, obs.attempt(lambda: obs.tract(gen.build(s)[len(m) - 1])), "frozen-tract", "a tract after attempts", **wit)
    # an unpickled map's configuration is frozen too
    u = pickle.loads(pickle.dumps(m))
    e = obs.attempt(setattr, u.config, "pixelScale", 77.0)
    ctx.ok(e[0] == "exc", "frozen-unpickled", "an unpickled map's configuration could be set", **wit)
    # a copy of the configuration leads its own life
    d = copy.deepcopy(c)
    d2 = type(c)()
    d2.update(**{f: s[f] for f in ("pixelScale", "rotation")})
    d2.pixelScale = 77.0
    ctx.eq(m.getSha1(), sha, "copied", "digest after changing a copy", **wit)
    del d


def text(c):
    f = io.StringIO()
    c.saveToStream(f)
    return f.getvalue()


def routes(ctx, s, c, m, rng):
    """Saved and restored by any means, a configuration denotes the same map, bit for bit."""
    wit = dict(spec=s)

    def by_text():
        d = type(c)()
        d.loadFromString(text(c))
        return d

    def by_file():
        with tempfile.TemporaryDirectory(prefix="verif-cfg-") as t:
            f = os.path.join(t, "config.py")
            c.save(f)
            d = type(c)()
            d.load(f)
            return d

    def by_registry():
        r = registry()
        f = text(c)
        d = r[s["cls"]].ConfigClass()
        d.loadFromString(f)
        return d
    for nm, f in (("text", by_text), ("file", by_file), ("pickle", lambda: pickle.loads(pickle.dumps(c))),
                  ("registry", by_registry), ("deepcopy", lambda: copy.deepcopy(c))):
        e = obs.attempt(f)
        ctx.ev("restored")
        if not ctx.ok(e[0] == "ok", "restore", "restoring by %s: %r" % (nm, e), **wit):
            continue
        d = e[1]
        v = obs.attempt(d.validate)
        ctx.ok(v[0] == "ok", "restore-valid", "restored by %s: %r" % (nm, v), **wit)
        ctx.ok(d == c and text(d) == text(c), "restore", "restored by %s differs" % nm, **wit)
        mm = gen.build(s, config=d)
        ctx.ok(mm == m and mm.getSha1() == m.getSha1(), "restore-map", "map of a configuration restored by %s differs" % nm,
               **wit)
        i = rng.randrange(len(m))
        ctx.eq(obs.tract(mm[i]), obs.tract(m[i]), "restore-tract", "tract %d by %s" % (i, nm), **wit)
        ctx.seen(s["cls"], s["builder"], "route", nm)
    # the registry makes the same maps
    r = registry()
    ctx.ev("registry")
    ctx.eq(set(r), set(gen.ALL), "registry", "registered kinds", **wit)
    mm = r[s["cls"]](c) if s.get("version", 1) == 1 or s["cls"] != "rings" else None
    if mm is not None:
        ctx.ok(mm == m and type(mm).__name__ == ref.CLASSNAME[s["cls"]] and len(mm) == len(m), "registry",
               "the registry's %s is %r" % (s["cls"], mm), **wit)
    from lsst.pex.config import Config

    class Top(Config):
        skyMap = r.makeField(doc="x", default="dodeca")
    Top.__qualname__ = "Top"
    globals()["Top"] = Top      # the saved text looks it up by name
    t = Top()
    t.skyMap = s["cls"]
    t.skyMap.active.loadFromString(text(c))
    t2 = Top()
    t2.loadFromString(text(t))
    mm = t2.skyMap.apply()
    ctx.ok(mm == m, "registry-field", "the map of a configuration field differs", **wit)


def names(ctx, s, rng):
    """The old names for patch size and border are other names for the same thing."""
    wit = dict(spec=s)
    c = gen.make_config(s)
    leg = c.tractBuilder["legacy"]
    ctx.ok(list(c.patchInnerDimensions) == list(leg.patchInnerDimensions) == list(c.getPatchInnerDimensions())
           and c.patchBorder == leg.patchBorder == c.getPatchBorder(), "old-name", "old and new names disagree", **wit)
    d, b = [rng.randint(1, 5000), rng.randint(1, 5000)], rng.randint(0, 500)
    how = rng.choice(["property", "set", "new"])
    if how == "property":
        c.patchInnerDimensions, c.patchBorder = d, b
    elif how == "set":
        c.setPatchInnerDimensions(d)
        c.setPatchBorder(b)
    else:
        leg.patchInnerDimensions, leg.patchBorder = d, b
    ctx.ev("old name")
    ctx.ok(list(c.patchInnerDimensions) == list(leg.patchInnerDimensions) == list(c.getPatchInnerDimensions()) == d
           and c.patchBorder == leg.patchBorder == c.getPatchBorder() == b, "old-name", "set by %s, names disagree" % how,
           **wit)
    want = dict(s, dims=d, border=b) if s["builder"] == "legacy" else s
    w = s["pixelScale"]
    if s["builder"] == "legacy":      # keep the number of patches modest
        c.pixelScale = w*max(s["dims"])/max(1, min(d)) if min(d) < min(s["dims"]) else w
        want["pixelScale"] = c.pixelScale
    m = type_of(s)(c)
    ctx.eq(m.getSha1(), ref.sha1(want), "old-name-map", "digest of a map with patches set by %s" % how, **wit)
    # setting them does not choose the builder
    ctx.eq(c.tractBuilder.name, s["builder"], "old-name-builder", "builder", **wit)
    e = obs.attempt(m.__getitem__, 0)
    if s["builder"] == "legacy" and e[0] == "ok":
        ctx.eq([obs.pair(e[1].getPatchInnerDimensions()), obs.num(e[1].getPatchBorder())], [d, b], "old-name-tract",
               "patch size and border", **wit)
    ctx.seen(s["cls"], s["builder"], "old", how)


def type_of(s):
    return gen._mapclasses()[s["cls"]]


def refuse(ctx, s, rng):
    """Impossible values are refused somewhere before a map comes of them, and so is nothing else."""
    wit = dict(spec=s)

    def build(f, v):
        c = gen.make_config(s)
        setattr(c, f, v)
        c.validate()
        return gen.build(s, config=c)
    for f, v in REFUSED[s["cls"]] + COMMON:
        e = obs.attempt(build, f, v)
        ctx.ev("refused")
        ctx.ok(e[0] == "exc", "refuse", "%s = %r was accepted" % (f, v), **wit)
        ctx.seen(s["cls"], "refuse", f, repr(v))
    # refusing without validate(): a bad projection cannot make a map
    for v in ("TANS", "T"):
        def bare():
            c = gen.make_config(s)
            c.projection = v
            return type_of(s)(c)
        e = obs.attempt(bare)
        ctx.ok(e[0] == "exc", "refuse-projection", "a map was built with projection %r" % v, **wit)
    if s["cls"] == "discrete":
        for k in ("raList", "decList", "radiusList"):
            for v in (s[k] + [1.0], s[k][:-1]):
                e = obs.attempt(build, k, v)
                ctx.ev("refused")
                ctx.ok(e[0] == "exc", "refuse-lengths", "lists of different lengths were accepted", **wit)
    if s["cls"] == "rings":
        for v in (2, 7, -1, None):
            e = obs.attempt(lambda: type_of(s)(gen.make_config(s), v))
            ctx.ev("refused")
            ctx.ok(e[0] == "exc", "refuse-version", "version %r was accepted" % (v,), **wit)
        for v in (0.0, 359.99999, 1e-12):
            e = obs.attempt(build, "raStart", v)
            ctx.ok(e[0] == "ok", "accept", "raStart = %r was refused: %r" % (v, e), **wit)
        e = obs.attempt(build, "numRings", 1)
        ctx.ok(e[0] == "ok", "accept", "numRings = 1 was refused: %r" % (e,), **wit)

    def cells(v):
        c = gen.make_config(s)
        c.tractBuilder = "cells"
        c.tractBuilder["cells"].cellInnerDimensions = v
        c.validate()
        return gen.build(s, config=c)
    for v in ([10, 11], [10], [10, 10, 10], [], [150, 149], [0, 0], [-5, -5], [1.5, 1.5]):
        e = obs.attempt(cells, v)
        ctx.ev("refused")
        ctx.ok(e[0] == "exc", "refuse-cells", "cell dimensions %r were accepted" % (v,), **wit)

    def dims(v):
        c = gen.make_config(s)
        c.tractBuilder = "legacy"
        c.patchInnerDimensions = v
        c.validate()
        return gen.build(s, config=c)
    for v in ([10], [10, 10, 10], [], ["a", 3], [1.5, 2.0], [0, 0], [0, 4], [7, 0], [-7, 9], [9, -7], [-9, -9]):
        e = obs.attempt(dims, v)
        ctx.ev("refused")
        ctx.ok(e[0] == "exc", "refuse-dims", "patch dimensions %r were accepted" % (v,), **wit)

    def one(b, f, v):
        c = gen.make_config(s)
        c.tractBuilder = b
        setattr(c.tractBuilder[b], f, v)
        c.validate()
        return gen.build(s, config=c)
    for b, f, least in (("legacy", "patchBorder", 0), ("cells", "cellBorder", 0), ("cells", "numCellsPerPatchInner", 1),
                        ("cells", "numCellsInPatchBorder", 0)):
        for v in (least - 1, least - rng.randint(2, 99), least + 0.5, "x"):
            e = obs.attempt(one, b, f, v)
            ctx.ev("refused")
            ctx.ok(e[0] == "exc", "refuse-dims", "%s = %r was accepted" % (f, v), **wit)
        for v in (least, 3000) if s["cls"] in ("rings", "discrete", "healpix") else ():
            e = obs.attempt(one, b, f, v)
            ctx.ok(e[0] == "ok", "accept", "%s = %r was refused: %r" % (f, v, e), **wit)


def defaults(ctx, rng):
    """What one gets without saying anything."""
    want = {
        "rings": dict(gen.production("rings_default")), "dodeca": gen.production("dodeca_default"),
        "equat": gen.production("equat_default"), "healpix": dict(gen.production("healpix_default"), log2NSide=0),
        "discrete": dict(gen.production("discrete_three"), raList=[], decList=[], radiusList=[], tractOverlap=1.0,
                         pixelScale=0.333, projection="STG"),
    }
    for k, s in want.items():
        c = type_of(s).ConfigClass()
        if k == "rings":
            c.numRings = 3
        ctx.ev("default map")
        m = type_of(s)(c)
        ctx.eq(m.getSha1(), ref.sha1(s), "defaults", "digest of the default %s" % k)
        ctx.eq(text(gen.make_config(s)).split("\n")[1:], text(c).split("\n")[1:], "defaults", "default configuration of %s" % k)
        ctx.eq(len(m), len(ref.RefMap(s)), "defaults", "tracts of the default %s" % k)
        ctx.seen("default", k)
        if k in ("dodeca", "equat"):
            for a in (type_of(s)(), type_of(s)(None)):
                ctx.ev("default map")
                ctx.ok(a == m, "defaults", "%s without a configuration" % k)
        cc = c.tractBuilder["cells"]
        ctx.eq([list(cc.cellInnerDimensions), cc.cellBorder, cc.numCellsPerPatchInner, cc.numCellsInPatchBorder],
               [[150, 150], 50, 20, 1], "defaults", "default cells of %s" % k)
    c = type_of({"cls": "rings"}).ConfigClass()
    e = obs.attempt(c.validate)
    ctx.ok(e[0] == "exc", "defaults", "rings without a number of rings was accepted")
