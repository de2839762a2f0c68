"""Packing data IDs into integers is one-to-one, reversible, stable and within the stated number of bits."""
from .. import obs, packs

RULE = ("Packers over random tract, patch and band counts (1 to 2**31 tracts; default, dense, shuffled and sparse band "
        "tables), made by each documented route.  Small ones are packed exhaustively, large ones at corners and at random; "
        "every integer is unpacked, and compared with the published layout and across routes.  Non-trivial: a distinct "
        "(route, band table style, counts class).")
ASSUMPTIONS = ["band tables are one-to-one", "the integer layout is that of the original commit, as stored ids depend on it"]
ROUNDS = 4
REQUIRED_EVENTS = ("packed", "unpacked", "integer visited", "exhaustive", "with band", "routes compared", "asked in turn",
                   "table changed by its owner")
ROUTES = ("record", "config", "config-record", "field", "dimensions", "explicit")


def cases(tier):
    n = 300 if tier == "quick" else 3000
    return [("random", {"k": k}) for k in range(n)] + [("defaults", {"k": k}) for k in range(4)]


def ids(c, rng):
    """Data ids to pack: all of them, or corners and a sample."""
    np_ = c["nx"]*c["ny"]
    nb = packs.n_bands(c)
    bands = [b for b, i in packs.table(c).items() if b is not None and 0 <= i < nb] if nb else [None]
    total = c["n_tracts"]*np_*len(bands)
    if total <= 1500:
        return [(t, p, b) for b in bands for t in range(c["n_tracts"]) for p in range(np_)], True
    out = set()
    for b in bands:
        for t in (0, c["n_tracts"] - 1):
            for p in (0, np_ - 1):
                out.add((t, p, b))
    for _ in range(400):
        out.add((rng.randrange(c["n_tracts"]), rng.randrange(np_), rng.choice(bands)))
    return sorted(out, key=repr), False


def run_case(ctx, name, params, rng):
    if name == "defaults":
        c = {"name": "m", "n_tracts": 5, "nx": 3, "ny": 3, "bands": None, "n_bands": [None, 0, 27, 64][params["k"]],
             "how": "record"}
    else:
        c = packs.random_case(rng)
    pk = packs.make(c)
    todo, exhaustive = ids(c, rng)
    nb = packs.n_bands(c)
    wit = dict(case=c)
    ctx.eq(pk.maxBits, packs.bits(c), "bits", "maxBits", **wit)
    ctx.eq(set(pk.dimensions.names), {"skymap", "tract", "patch"} | ({"band"} if nb else set()), "dimensions",
           "dimensions packed", **wit)
    rng.shuffle(todo)
    back = {}
    for t, p, b in todo:
        d = packs.data_id(c["name"], t, p, b)
        v = pk.pack(d)
        ctx.ev("packed")
        if b is not None:
            ctx.ev("with band")
        want = packs.number(c, t, p, b)
        ctx.eq(v, want, "layout", "tract %d patch %d band %s" % (t, p, b), **wit)
        ctx.ok(isinstance(v, int) and 0 <= v and v.bit_length() <= pk.maxBits, "bits", "%r has more than %r bits" % (
            v, pk.maxBits), **wit)
        if not ctx.ok(v not in back, "one-to-one", "%r and %r both pack to %r" % (back.get(v), (t, p, b), v), **wit):
            continue
        back[v] = (t, p, b)
        u = pk.unpack(v)
        ctx.ev("unpacked")
        ctx.ok(u == d and u["tract"] == t and u["patch"] == p and u["skymap"] == c["name"] and (
            b is None or u["band"] == b), "round-trip",
            "%r packs to %r, unpacks to %r" % (d, v, u), **wit)
    # every integer there is unpacks to what packs to it
    if exhaustive:
        ctx.ev("exhaustive")
        ctx.eq(sorted(back), sorted(packs.number(c, t, p, b) for t, p, b in todo), "onto", "integers produced", **wit)
        again = packs.make(c)        # a packer asked only to unpack
        for v in rng.sample(sorted(back), min(len(back), 200)):
            ctx.ev("integer visited")
            t, p, b = back[v]
            u = again.unpack(v)
            ctx.ok((u["tract"], u["patch"]) == (t, p) and (b is None or u["band"] == b), "unpack-first",
                   "%r unpacks to %r, want %r" % (v, u, (t, p, b)), **wit)
            ctx.eq(again.pack(u), v, "repack", "packed again", **wit)
    # other ways of asking
    for t, p, b in rng.sample(todo, min(len(todo), 4)):
        kw = {"tract": t, "patch": p, "skymap": c["name"]}
        if b is not None:
            kw["band"] = b
        want = packs.number(c, t, p, b)
        ctx.eq(pk.pack(kw), want, "mapping", "packing a mapping", **wit)
        ctx.eq(pk.pack(**kw), want, "keywords", "packing keywords", **wit)
        ctx.eq(pk.pack(kw, returnMaxBits=True), (want, packs.bits(c)), "returnMaxBits", "packing with bits", **wit)
        if not nb:
            ctx.eq(pk.pack(packs.data_id(c["name"], t, p, "r")), want, "extra-band", "packing an id with a band", **wit)
    for how in ROUTES + tuple((rng.choice(packs.VIAS), rng.choice(packs.SOURCES), rng.choice(packs.SOURCES)) for _ in range(6)):
        o = packs.make(dict(c, how=how))
        ctx.ev("routes compared")
        ctx.eq(o.maxBits, pk.maxBits, "route", "maxBits by %s" % (how,), **wit)
        for t, p, b in rng.sample(todo, min(len(todo), 3)):
            d = packs.data_id(c["name"], t, p, b)
            ctx.ok(o.pack(d) == packs.number(c, t, p, b) and o.unpack(o.pack(d)) == d, "route",
                   "packing by %s gives %r" % (how, o.pack(d)), **wit)
        ctx.seen(how if isinstance(how, str) else "/".join(how), nb, c["bands"] is None, c["bands"] and sorted(c["bands"].values()) == list(range(len(c["bands"]))),
                 c["n_tracts"] > 10**4)
    crowd(ctx, c, pk, back, rng)
    if c["bands"]:
        owner(ctx, c, todo, rng)
    ctx.sample(case=c, packed=sorted(back)[:4], maxBits=pk.maxBits)


def owner(ctx, c, todo, rng):
    """The table or configuration a packer was made from is changed by its owner afterwards."""
    o = dict(c, bands=dict(c["bands"]), keep=[], how=(rng.choice(("ctor", "dims", "config", "field", "copy")),
                                                      rng.choice(packs.SOURCES), rng.choice(packs.SOURCES)))
    p = packs.make(o)
    todo = rng.sample(todo, min(len(todo), 6))
    if rng.random() < 0.7:
        for t, q, b in todo[:3]:
            p.unpack(p.pack(packs.data_id(c["name"], t, q, b)))
    tables = [o["bands"]] + [cfg.bands for cfg in o["keep"] if cfg.bands is not None]
    for x in tables:
        names, idx = list(x), list(x.values())
        k = rng.choice(["rotate", "drop", "add", "clear"])
        if k == "rotate":
            for b, i in zip(names, idx[1:] + [idx[0] + (len(idx) == 1)]):
                x[b] = i
        elif k == "drop":
            del x[names[-1]]
        elif k == "add":
            x["another"] = idx[0]
        else:
            for b in names:
                del x[b]
    for cfg in o["keep"]:
        cfg.n_bands = 1
    ctx.ev("table changed by its owner")
    for t, q, b in todo:
        d = packs.data_id(c["name"], t, q, b)
        v = packs.number(c, t, q, b)
        r = obs.attempt(lambda: (p.pack(d), p.unpack(v) == d, p.maxBits))
        ctx.eq(r[:2], ("ok", (v, True, packs.bits(c))), "owner", "%r packed, unpacked and sized after the table was changed" % (d,),
               case=c)


def crowd(ctx, c, pk, back, rng):
    """Many packers in use at once, alike but for their tables or counts, asked in turn; each answers for itself."""
    crew = [(c, pk)]
    for _ in range(5):
        o = dict(c, how=rng.choice(ROUTES))
        if o["bands"]:
            idx = list(o["bands"].values())
            k = rng.random()
            if k < 0.5:
                rng.shuffle(idx)
            o["bands"] = dict(zip(rng.sample(list(o["bands"]), len(idx)), idx))
        if rng.random() < 0.3:
            o["n_tracts"], o["nx"], o["ny"] = o["n_tracts"] + 1, o["ny"], o["nx"]
        crew.append((o, packs.make(o)))
    for _ in range(40):
        o, p = rng.choice(crew)
        bands = [b for b, i in packs.table(o).items() if b is not None and 0 <= i < packs.n_bands(o)] or [None]
        t, q, b = rng.randrange(o["n_tracts"]), rng.randrange(o["nx"]*o["ny"]), (
            rng.choice(bands) if packs.n_bands(o) else None)
        v = packs.number(o, t, q, b)
        d = packs.data_id(o["name"], t, q, b)
        ctx.ev("asked in turn")
        if rng.random() < 0.5:
            ctx.eq(p.pack(d), v, "crowd", "packing %r among others" % (d,), case=o)
        else:
            u = p.unpack(v)
            ctx.ok(u == d and u.dimensions == p.dimensions and (b is None or u["band"] == b), "crowd",
                   "%r unpacks to %r among others, want %r" % (v, u, d), case=o)
