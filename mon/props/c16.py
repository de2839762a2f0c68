"""Identity: the digest and equality follow the tracts a map denotes, everywhere and always."""
import struct

from .. import child, gen, obs, ref

RULE = ("Pairs of maps of every kind: same configuration reached in different ways (order of assignment, integers for "
        "floats, unused options, warm or cold, other process and hash seed), and configurations differing in exactly one "
        "field, by as little as one unit in the last place.  Digests are compared with the published byte layout.  "
        "Non-trivial: a distinct (map shape, field changed or route to the same configuration).")
ASSUMPTIONS = ["the byte layout of the digest is that of the original commit, on which registered maps depend"]
ROUNDS = 2
REQUIRED_EVENTS = ("digest", "one field changed", "same by another route", "other process", "not a map")


def cases(tier):
    n = 400 if tier == "quick" else 4000
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    out += [("process", {"k": k}) for k in range(4 if tier == "quick" else 24)]
    out += [("version", {"k": k}) for k in range(3)]
    return out


def nudge(x, rng):
    """The next float up or down, or a modest change."""
    k = rng.random()
    if k < 0.5:
        b = struct.unpack("<q", struct.pack("<d", x if x else 0.0))[0]
        return struct.unpack("<d", struct.pack("<q", b + 1))[0]
    return x*rng.choice([1.5, 1.0001]) + 1e-6


def variants(spec, rng):
    """(field, spec differing in that field alone)."""
    out = []
    for k in ("tractOverlap", "pixelScale", "rotation"):
        out.append((k, dict(spec, **{k: nudge(spec[k], rng)})))
    out.append(("projection", dict(spec, projection=rng.choice([p for p in ("TAN", "STG", "ZEA", "CEA")
                                                               if p != spec["projection"]]))))
    c = spec["cls"]
    if c == "rings":
        out += [("numRings", dict(spec, numRings=spec["numRings"] + 1)),
                ("raStart", dict(spec, raStart=nudge(spec["raStart"], rng) % 360))]
    elif c == "dodeca":
        out.append(("withTractsOnPoles", dict(spec, withTractsOnPoles=not spec["withTractsOnPoles"])))
    elif c == "equat":
        lo, hi = spec["decRange"]
        out += [("numTracts", dict(spec, numTracts=spec["numTracts"] + 1)),
                ("decRange0", dict(spec, decRange=[nudge(lo, rng), hi])),
                ("decRange1", dict(spec, decRange=[lo, nudge(hi, rng)]))]
    elif c == "healpix":
        out += [("log2NSide", dict(spec, log2NSide=spec["log2NSide"] + 1)),
                ("nest", dict(spec, nest=not spec["nest"]))]
    else:
        for k in ("raList", "decList", "radiusList"):
            v = list(spec[k])
            j = rng.randrange(len(v))
            v[j] = nudge(v[j], rng)
            if k == "decList" and abs(v[j]) > 90:
                v[j] = 12.5
            out.append((k, dict(spec, **{k: v})))
            if len(v) > 1 and spec[k][0] != spec[k][-1]:
                out.append((k + " order", dict(spec, **{k: list(reversed(spec[k]))})))
        out.append(("one tract more", dict(spec, raList=spec["raList"] + [10.0], decList=spec["decList"] + [20.0],
                                           radiusList=spec["radiusList"] + [1.0])))
    if spec["builder"] == "legacy":
        d = spec["dims"]
        out += [("dims0", dict(spec, dims=[d[0] + 1, d[1]])), ("dims1", dict(spec, dims=[d[0], d[1] + 1])),
                ("border", dict(spec, border=spec["border"] + 1))]
        if d[0] != d[1]:
            out.append(("dims swapped", dict(spec, dims=[d[1], d[0]])))
        other = dict(spec, builder="cells", cell=[d[0], d[0]], cellBorder=spec["border"], perPatch=1, inBorder=0)
    else:
        w = spec["cell"][0]
        out += [("cell", dict(spec, cell=[w + 1, w + 1])), ("cellBorder", dict(spec, cellBorder=spec["cellBorder"] + 1)),
                ("perPatch", dict(spec, perPatch=spec["perPatch"] + 1)),
                ("inBorder", dict(spec, inBorder=spec["inBorder"] + 1))]
        if spec["perPatch"] != spec["inBorder"]:
            out.append(("perPatch/inBorder", dict(spec, perPatch=max(1, spec["inBorder"]), inBorder=spec["perPatch"])))
        other = dict(spec, builder="legacy", dims=list(ref.patch_inner(spec)), border=ref.patch_border(spec))
    out.append(("tractBuilder", other))
    return out


def again(spec, rng):
    """The same configuration reached another way."""
    c = gen.make_config(spec)
    k = rng.choice(["unused", "order", "int", "twice", "stream"])
    if k == "unused":
        if spec["builder"] == "legacy":
            c.tractBuilder["cells"].cellBorder = 17
            c.tractBuilder["cells"].numCellsPerPatchInner = 3
        else:
            c.tractBuilder["legacy"].patchBorder = 17
            c.tractBuilder["legacy"].patchInnerDimensions = [111, 222]
    elif k == "order":
        f = list(gen.SPECIFIC[spec["cls"]]) + ["rotation", "projection", "pixelScale", "tractOverlap"]
        c = type(c)()
        c.tractBuilder.name = spec["builder"]
        c2 = gen.make_config(spec)
        c.tractBuilder[spec["builder"]].update(**c2.tractBuilder[spec["builder"]].toDict())
        rng.shuffle(f)
        for q in f:
            setattr(c, q, spec[q])
    elif k == "int":
        for q in ("tractOverlap", "pixelScale", "rotation"):
            if float(spec[q]).is_integer():
                setattr(c, q, int(spec[q]))
    elif k == "twice":
        for q in ("tractOverlap", "pixelScale", "rotation"):
            setattr(c, q, 5.0)
            setattr(c, q, spec[q])
    else:
        import io
        st = io.StringIO()
        c.saveToStream(st)
        c = type(c)()
        c.loadFromString(st.getvalue())
    return k, gen.build(spec, config=c)


def run_case(ctx, name, params, rng):
    if name == "process":
        return process(ctx, rng)
    if name == "version":
        return version(ctx, params["k"])
    spec = gen.production(params["name"]) if name == "production" else gen.spec_random(
        rng, kinds=(params["kind"],), max_rings=40)
    if spec["cls"] == "healpix" and spec["log2NSide"] > 2:
        spec["log2NSide"] = 2
    m = obs.build(ctx, spec)
    if rng.random() < 0.5:
        m.findTract(gen.sp(*gen.sky(rng)))
    d = m.getSha1()
    ctx.ev("digest")
    ctx.ok(isinstance(d, bytes) and len(d) == 20, "digest-type", "digest is %r" % (d,), spec=spec)
    ctx.eq(d.hex(), ref.sha1(spec).hex(), "digest", "digest of the map", spec=spec)
    m.findTract(gen.sp(*gen.sky(rng)))
    ctx.eq(m.getSha1(), d, "digest-stable", "digest after use", spec=spec)
    ctx.ok(m == m and not m != m, "reflexive", "map unequal to itself", spec=spec)
    for _ in range(3):
        k, a = again(spec, rng)
        ctx.ev("same by another route")
        same(ctx, m, a, k, spec)
    for field, s in variants(spec, rng):
        if s == spec:
            continue
        a = gen.build(s)
        ctx.ev("one field changed")
        ctx.ok(a.getSha1() != d, "insensitive", "digest ignores %s" % field, spec=spec, other=s)
        ctx.eq(a.getSha1().hex(), ref.sha1(s).hex(), "digest", "digest after changing %s" % field, spec=s)
        ctx.ok(a != m and m != a and not a == m and not m == a, "unequal", "maps differing in %s are equal" % field,
               spec=spec, other=s)
        ctx.ok(len({a, m}) == 2, "set", "a set merges maps differing in %s" % field, spec=spec)
        ctx.seen(gen.label(spec)[0], spec["builder"], "differs", field)
    # another kind of map with as much as possible in common
    for c in gen.ALL:
        if c != spec["cls"]:
            o = gen.spec_random(rng, kinds=(c,), max_rings=8)
            for q in ("tractOverlap", "pixelScale", "projection", "rotation", "builder"):
                o[q] = spec[q]
            for q in ("dims", "border", "cell", "cellBorder", "perPatch", "inBorder"):
                if q in spec:
                    o[q] = spec[q]
            if c in ("dodeca", "equat"):     # these make every tract at once: keep them buildable
                o = gen.spec_random(rng, kinds=(c,))
            a = gen.build(o)
            ctx.ok(a != m and not a == m and a.getSha1() != d, "kinds", "a %s equals a %s" % (c, spec["cls"]), spec=spec,
                   other=o)
    # a map of a type of one's own that shares even the configuration object
    class Mine(type(m)):
        pass
    a = Mine(m.config) if spec.get("version") is None else Mine(m.config, spec["version"])
    b = type(m)(m.config) if spec.get("version") is None else type(m)(m.config, spec["version"])
    ctx.ev("shared configuration")
    ctx.ok(a != m and not a == m and not m == a, "kinds", "maps of two types that share a configuration are equal", spec=spec)
    ctx.ok(b == m and not b != m and hash(b) == hash(m), "equal", "maps of one type that share a configuration differ", spec=spec)
    for o in (5, None, "map", d, object(), m.config, [m], m[0]):
        ctx.ev("not a map")
        ctx.ok((m == o) is False and (m != o) is True and (o == m) is False, "foreign", "compared with %r: %r" % (
            o, m == o), spec=spec)
    ctx.seen(gen.label(spec), "digest")
    ctx.sample(map=gen.label(spec), digest=d.hex())


def same(ctx, m, a, k, spec):
    ctx.ok(a == m and m == a and not a != m and not m != a, "equal", "same configuration (%s) compares unequal" % k,
           spec=spec)
    ctx.ok(hash(a) == hash(m) and len({a, m}) == 1 and {m: 1}.get(a) == 1, "hash", "same configuration (%s) hashes "
           "differently" % k, spec=spec)
    ctx.eq(a.getSha1(), m.getSha1(), "digest-route", "same configuration (%s)" % k, spec=spec)
    ctx.seen(gen.label(spec)[0], spec["builder"], "same", k)


def process(ctx, rng):
    specs = [gen.spec_random(rng, max_rings=12) for _ in range(12)] + [dict(p) for p in gen.PRODUCTION]
    items = [{"spec": s, "seed": 0} for s in specs]
    try:
        a, b = child.ask(items, hashseed=rng.randrange(1, 999)), child.ask(items, hashseed="random")
    except child.ChildError as e:
        ctx.fail("other-process", "a new interpreter could not build the maps: %s" % e)
        return
    for s, x, y in zip(specs, a, b):
        ctx.ev("other process")
        h = gen.build(s).getSha1().hex()
        ctx.ok(x["sha1"] == h == y["sha1"], "other-process", "digests %s here, %s and %s elsewhere" % (
            h, x["sha1"], y["sha1"]), spec=s)
        ctx.seen(gen.label(s), "process")


def version(ctx, k):
    """Ring maps of the two numbering versions hold different tracts, so they should not be equal."""
    spec = dict(gen.production("hsc_rings_v1"), numRings=[3, 10, 120][k])
    a, b = gen.build(spec), gen.build(dict(spec, version=0))
    ctx.ev("one field changed")
    differ = [i for i in range(min(len(a), 60)) if obs.coord(a[i].getCtrCoord()) != obs.coord(b[i].getCtrCoord())]
    ctx.ok(not differ or a != b, "rings-version", "version 0 and version 1 rings maps are equal though tract %r differs"
           % differ[:1], spec=spec)
    ctx.seen("version", k)
