"""What a packer cannot represent it refuses; it never gives out an integer that means something else."""
from .. import obs, packs

RULE = ("Packers as for C22 given tracts, patches and bands just and far outside their ranges, unknown bands, other sky maps, "
        "missing dimensions, and made with unsuitable dimensions or without the records they need.  Non-trivial: a distinct "
        "(route, kind of bad input).")
ASSUMPTIONS = ["an integer outside the range is not required to be refused by unpack, but must not come back as a valid id"]
ROUNDS = 6
REQUIRED_EVENTS = ("refused", "good id accepted", "unknown band", "bad dimensions", "other sky map")


def cases(tier):
    n = 400 if tier == "quick" else 4000
    return [("random", {"k": k}) for k in range(n)] + [("dimensions", {"k": k}) for k in range(20)]


def run_case(ctx, name, params, rng):
    c = packs.random_case(rng)
    if name == "dimensions":
        return dimensions(ctx, c, rng)
    if c["bands"] is not None and rng.random() < 0.4:
        # room for only some of the bands, or tables with impossible places
        if rng.random() < 0.6:
            c["n_bands"] = rng.choice([None, rng.randint(1, max(1, max(c["bands"].values())))])
        else:
            c["bands"] = dict(c["bands"], odd=rng.choice([-1, -2, 10**6]))
            c["n_bands"] = max(max(v for b, v in c["bands"].items() if b != "odd") + 1, 1)
    pk = packs.make(c)
    np_, nt, nb = c["nx"]*c["ny"], c["n_tracts"], packs.n_bands(c)
    bands = [b for b, i in packs.table(c).items() if b is not None and 0 <= i < nb] if nb else [None]
    bad_bands = [b for b, i in packs.table(c).items() if b is not None and not 0 <= i < nb] if nb else []
    wit = dict(case=c)
    ctx.eq(pk.maxBits, packs.bits(c), "bits", "bits of a packer for %r tracts, %r patches, %r bands" % (nt, np_, nb), **wit)
    good = (rng.choice([0, nt - 1]), rng.choice([0, np_ - 1]), rng.choice(bands) if bands else None)
    tries = [(nt, 0), (nt + 1, 0), (-1, 0), (-nt, 0), (nt*7 + 3, 0), (0, np_), (0, np_ + 1), (0, -1), (0, -np_),
             (nt - 1, np_*3 + 1), (nt, np_), (-1, np_), (1, -1), (-1, np_ - 1), (nt - 1, np_)]
    if good[2] is not None or not nb:
        for t, p in tries:
            refuse(ctx, pk, packs.data_id(c["name"], t, p, good[2]), "range", (t, p, good[2]), c, wit)
        v = pk.pack(packs.data_id(c["name"], *good))
        ctx.ev("good id accepted")
        ctx.eq(v, packs.number(c, *good), "accept", "packing %r after refusals" % (good,), **wit)
        ctx.eq(pk.unpack(v), packs.data_id(c["name"], *good), "accept", "unpacking %r after refusals" % (v,), **wit)
    if nb:
        for b in bad_bands[:6]:
            refuse(ctx, pk, packs.data_id(c["name"], 0, 0, b), "band-range", b, c, wit)
        like = rng.choice(sorted(b for b in packs.table(c) if b)) if any(packs.table(c)) else "r"
        for b in {"nosuchband", "G-band", "gg", "r ", "none", like.lower(), like.upper(), like.swapcase(), like.title(), like + " ",
                  " " + like, like[:1], like + like, like[:-1] or "?", "HSC-" + like}:
            if b in packs.table(c):
                continue
            ctx.ev("unknown band")
            refuse(ctx, pk, packs.data_id(c["name"], good[0], good[1], b), "band-unknown", b, c, wit)
        # a band is needed
        e = obs.attempt(pk.pack, packs.data_id(c["name"], 0, 0))
        ctx.ev("refused")
        ctx.ok(e[0] == "exc", "band-missing", "id without a band packs to %r" % (e[1],), **wit)
    ctx.ev("other sky map")
    e = obs.attempt(pk.pack, packs.data_id("another", good[0], good[1], good[2] or "r"))
    ctx.ok(e[0] == "exc" and issubclass(e[1], ValueError), "other-map", "id of another sky map: %r" % (e,), **wit)
    # integers beyond the last do not unpack to something that packs
    top = nt*np_*(nb or 1)
    for v in (top, top + 1, 2*top + 5, -1, -top):
        e = obs.attempt(pk.unpack, v)
        if e[0] != "ok":
            ctx.evn(1)
            continue
        f = obs.attempt(pk.pack, e[1])
        ctx.ok(f[0] == "exc" or f[1] == v and 0 <= v < top, "beyond", "integer %r of %d unpacks to %r, which packs to %r" % (
            v, top, e[1], f[1]), **wit)
    ctx.seen(c["how"], nb == 0, c["bands"] is None, bool(bad_bands), nt > 10**4, np_ == 1)
    ctx.sample(case=c, refused=tries[:4])


def refuse(ctx, pk, d, key, what, c, wit):
    e = obs.attempt(pk.pack, d)
    ctx.ev("refused")
    ctx.ok(e[0] == "exc" and issubclass(e[1], ValueError), key, "%r of %d tracts, %d patches: %r" % (
        what, c["n_tracts"], c["nx"]*c["ny"], e[1]), **wit)
    ctx.seen(c["how"], key)


def dimensions(ctx, c, rng):
    from lsst.skymap.packers import SkyMapDimensionPacker as P
    u = packs.universe()
    f = packs.fixed(c["name"], (c["n_tracts"], c["nx"], c["ny"]))
    for dims in (["tract"], ["tract", "visit"], ["tract", "patch", "visit"], ["tract", "patch", "detector"], ["band"],
                 ["tract", "band"], ["tract", "patch", "band", "visit"], ["tract", "patch", "instrument"], ["skymap"],
                 ["patch", "band", "healpix3"], []):
        e = obs.attempt(P, f, u.conform(dims), bands=c["bands"], n_bands=c["n_bands"])
        ctx.ev("bad dimensions")
        ctx.ok(e[0] == "exc" and issubclass(e[1], ValueError), "dimensions", "a packer of %r: %r" % (dims, e), case=c)
        ctx.seen("dimensions", tuple(dims))
    allnames = sorted(u.dimensions.names)
    for _ in range(60):
        names = set(rng.sample(allnames, rng.randint(0, 3))) | set(rng.choice(
            [["tract", "patch"], ["tract", "patch", "band"], ["tract"], ["band"], ["skymap"], []]))
        g = u.conform(names)
        nb = rng.choice([None, 0, 2])
        e = obs.attempt(P, f, g, n_bands=nb)
        good = set(g.names) == {"skymap", "tract", "patch"} or nb != 0 and set(g.names) == {"skymap", "tract", "patch", "band"}
        ctx.ev("good dimensions" if good else "bad dimensions")
        ctx.ok(e[0] == "ok" if good else e[0] == "exc" and issubclass(e[1], ValueError), "dimensions",
               "a packer of %r: %r" % (g, e), case=c)
        ctx.seen("dimensions", tuple(sorted(g.names)))
    # counts that are given are used whatever the record says, and the record is needed only if they are not
    o = P(f, n_tracts=c["n_tracts"] + 3, n_patches=c["nx"]*c["ny"] + 2, n_bands=0)
    d = packs.data_id(c["name"], c["n_tracts"] + 2, c["nx"]*c["ny"] + 1)
    e = obs.attempt(o.pack, d)
    ctx.ev("good id accepted")
    ctx.eq(e, ("ok", d["patch"] + (c["nx"]*c["ny"] + 2)*d["tract"]), "counts", "packing with given counts", case=c)
    ctx.eq(o.unpack(e[1]), d, "counts", "unpacking with given counts", case=c)
    half = P(f, n_patches=c["nx"]*c["ny"] + 2, n_bands=0)
    ctx.eq(half.maxBits, (c["n_tracts"]*(c["nx"]*c["ny"] + 2) - 1).bit_length(), "counts", "bits with one count given", case=c)
    half = P(f, n_tracts=c["n_tracts"] + 9, n_bands=0)
    ctx.eq(half.maxBits, ((c["n_tracts"] + 9)*c["nx"]*c["ny"] - 1).bit_length(), "counts", "bits with one count given",
           case=c)
    for kw in ({}, {"n_tracts": 3}, {"n_patches": 3}):
        e = obs.attempt(P, packs.fixed(c["name"]), n_bands=0, **kw)
        ctx.ev("refused")
        ctx.ok(e[0] == "exc", "no-record", "a packer without a record or counts (%r) was made" % (kw,), case=c)
    e = obs.attempt(P, packs.fixed(c["name"]), n_bands=0, n_tracts=4, n_patches=4)
    ctx.ok(e[0] == "ok", "no-record", "a packer with counts and no record: %r" % (e,), case=c)
    # dimensions without band make the packer ignore band tables
    e = P(f, u.conform(["tract", "patch"]), bands={"g": 0, "r": 1}, n_bands=2)
    ctx.eq(e.maxBits, (c["n_tracts"]*c["nx"]*c["ny"] - 1).bit_length(), "no-band", "bits without a band dimension", case=c)
    d = packs.data_id(c["name"], 0, c["nx"]*c["ny"] - 1)
    ctx.eq(e.pack(d), c["nx"]*c["ny"] - 1, "no-band", "packing without a band dimension", case=c)
    # none of the default bands is lost, repeated or moved
    o = P(f, u.conform(["tract", "patch", "band"]))
    n = c["n_tracts"]*c["nx"]*c["ny"]
    for i, b in enumerate(packs.DEFAULT_BANDS):
        if b is not None:
            ctx.eq(o.pack(packs.data_id(c["name"], 0, 0, b)), i*n, "default-bands", "place of band %s" % b, case=c)
    ctx.eq(len(P.SUPPORTED_FILTERS), len(packs.DEFAULT_BANDS), "default-bands", "number of default bands", case=c)
