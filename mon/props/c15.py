"""A sky map survives pickling and copying unchanged, across processes and releases."""
import base64
import copy
import json
import pickle
import random

from .. import child, gen, golden, obs

RULE = ("Random and production maps of every kind and version, cold and warmed by queries, through every pickle protocol, "
        "copy, deepcopy and repeated round trips; batches loaded in a new interpreter with another hash seed; pickles "
        "written by the original code.  Tracts, patches, cells, lookups, length, identity and configuration are "
        "compared.  Non-trivial: a distinct (map shape, route, warm or cold).")
ASSUMPTIONS = ["saved pickles are from the commit the properties were written against",
               "positions from saved pickles are compared to 1e-9, integers exactly"]
ROUNDS = 2
REQUIRED_EVENTS = ("round trip", "other process", "old pickle", "version refused")


def cases(tier):
    n = 250 if tier == "quick" else 2500
    out = [("golden", {"k": k}) for k in range(len(golden.read()))]
    out += [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    out += [("process", {"k": k}) for k in range(8 if tier == "quick" else 60)]
    return out


def deep(ctx, m, spec, a, what):
    """Compare a reconstructed map with the original, tract by tract."""
    ctx.ok(type(a) is type(m), "type", "%s gave a %r" % (what, type(a)), spec=spec)
    ctx.eq(len(a), len(m), "length", what, spec=spec)
    ctx.ok(a == m and m == a and not a != m, "equality", "%s compares unequal" % what, spec=spec)
    ctx.ok(hash(a) == hash(m), "hash", "%s hashes differently" % what, spec=spec)
    ctx.eq(a.getSha1(), m.getSha1(), "sha1", what, spec=spec)
    ctx.ok(a.config == m.config and a.config.toDict() == m.config.toDict(), "config", "%s: configuration differs" % what,
           spec=spec)
    ctx.ok(type(a.config) is type(m.config), "config-type", what, spec=spec)


def run_case(ctx, name, params, rng):
    if name == "golden":
        return old(ctx, params["k"])
    if name == "process":
        return process(ctx, rng)
    spec = gen.production(params["name"]) if name == "production" else gen.spec_random(
        rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    if spec["cls"] in ("discrete", "healpix") and rng.random() < 0.3:
        spec["version"] = 1        # an optional version number these kinds accept and must keep
    m = obs.build(ctx, spec)
    warm = rng.random() < 0.6
    if warm:
        for _ in range(3):
            m.findTract(gen.sp(*gen.sky(rng)))
        m[rng.randrange(len(m))]
        m.getSha1()
    routes = [("pickle %d" % p, lambda p=p: pickle.loads(pickle.dumps(m, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
    routes += [("copy", lambda: copy.copy(m)), ("deepcopy", lambda: copy.deepcopy(m)),
               ("twice", lambda: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m))))),
               ("copy of pickle", lambda: copy.deepcopy(pickle.loads(pickle.dumps(m, 0)))),
               ("in a list", lambda: pickle.loads(pickle.dumps([m, m]))[1])]
    seed = rng.getrandbits(32)
    want = golden.describe(m, spec, random.Random(seed))
    for what, f in rng.sample(routes, 4) if name == "random" and not ctx.thorough else routes:
        a = f()
        ctx.ev("round trip")
        deep(ctx, m, spec, a, what)
        got = golden.describe(a, spec, random.Random(seed))
        ctx.ok(repr(got) == repr(want), "answers", "%s: %s" % (what, diff(want, got)), spec=spec)
        # what is rebuilt can be saved again
        b = pickle.loads(pickle.dumps(a))
        ctx.ok(b == m and repr(golden.describe(b, spec, random.Random(seed))) == repr(want), "again",
               "%s, saved again" % what, spec=spec)
        ctx.seen(gen.label(spec), what, warm)
    ctx.ok(repr(golden.describe(m, spec, random.Random(seed))) == repr(want), "original", "the original changed",
           spec=spec)
    if spec["cls"] == "rings":
        ctx.ev("numbering kept")
        a = pickle.loads(pickle.dumps(m))
        ids = sorted({1, 2, len(m) - 2, len(m) - 1, rng.randrange(len(m)), rng.randrange(len(m))} & set(range(len(m))))
        ctx.eq([tuple(a.getRingIndices(i)) for i in ids], [tuple(m.getRingIndices(i)) for i in ids], "numbering",
               "ring indices after a round trip", spec=spec)
    if spec["cls"] in ("dodeca", "equat"):
        st = m.__getstate__() if hasattr(type(m), "__setstate__") else None
        if isinstance(st, dict) and "version" in st:
            for v in ((2, 0), (3, 1)):
                a = type(m).__new__(type(m))
                r = obs.attempt(a.__setstate__, dict(st, version=v))
                ctx.ev("version refused")
                ctx.ok(r[0] == "exc", "version", "state of incompatible version %r was accepted" % (v,), spec=spec)
            for v in ((1, 0), (1, 1), (1, 9), (0, 9)):
                a = type(m).__new__(type(m))
                r = obs.attempt(a.__setstate__, dict(st, version=v))
                ctx.ev("earlier version")
                ctx.ok(r[0] == "ok" and a == m and len(a) == len(m), "version",
                       "state of compatible version %r: %r" % (v, r[-1]), spec=spec)
        else:
            ctx.ev("version refused")
    ctx.sample(map=gen.label(spec), warm=warm, routes=[r[0] for r in routes][:4])


def diff(a, b, same=lambda x, y: repr(x) == repr(y)):
    if type(a) is not type(b) or not isinstance(a, (dict, list, tuple)) or len(a) != len(b):
        return "%r became %r" % (a, b)
    for k in (a if isinstance(a, dict) else range(len(a))):
        x, y = a[k], b.get(k) if isinstance(b, dict) else b[k]
        if not same(x, y):
            return "%s: %s" % (k, diff(x, y, same))
    return ""


def plain(v):
    return json.loads(json.dumps(v))


def process(ctx, rng):
    items, want = [], []
    for _ in range(10):
        spec = gen.spec_random(rng, max_rings=20) if rng.random() < 0.8 else dict(rng.choice(gen.PRODUCTION))
        m = obs.build(ctx, spec)
        seed = rng.getrandbits(32)
        items.append({"pickle": base64.b64encode(pickle.dumps(m, rng.choice([0, 2, 4, 5]))).decode(), "spec": spec,
                      "seed": seed})
        want.append((m, plain(golden.describe(m, spec, random.Random(seed)))))
    try:
        got = child.ask(items, hashseed=rng.randrange(1, 1000))
    except child.ChildError as e:
        ctx.fail("other-process", "a new interpreter could not load the maps: %s" % e)
        return
    for it, (m, w), g in zip(items, want, got):
        ctx.ev("other process")
        back = pickle.loads(base64.b64decode(g.pop("repickle")))
        ctx.ok(repr(g) == repr(w), "other-process", diff(w, g), spec=it["spec"])
        ctx.ok(back == m and type(back) is type(m), "there-and-back", "map sent back differs", spec=it["spec"])
        ctx.seen(gen.label(it["spec"]), "process")


def old(ctx, k):
    it = golden.read()[k]
    for p in it["pickles"]:
        m = pickle.loads(base64.b64decode(p))
        ctx.ev("old pickle")
        got = plain(golden.describe(m, it["spec"], random.Random(it["seed"])))
        ctx.ok(golden.same(it["answers"], got), "old-pickle", diff(it["answers"], got, golden.same), spec=it["spec"])
        fresh = gen.build(it["spec"])
        ctx.ok(fresh == m, "old-equal", "a map saved by the original code differs from the same map built now",
               spec=it["spec"])
        ctx.ok(m.config == fresh.config, "old-config", "configuration read back differs", spec=it["spec"])
        ctx.seen(gen.label(it["spec"]), "old")
